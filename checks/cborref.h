/* An independent reading and writing of RFC 8949, to compare the library's with. */
#ifndef CBORREF_H
#define CBORREF_H
#include <string>
#include <vector>
#include <string.h>
#include <stdint.h>

namespace ref {
typedef std::string Bytes;

/* An item head in the given form: 0 = in the initial byte, 1/2/4/8 = that many bytes of argument. */
inline Bytes head(int major, uint64_t v, int form) {
  Bytes r;
  if (form == 0) { r += (char) ((major << 5) | (int) v); return r; }
  r += (char) ((major << 5) | (form == 1 ? 24 : form == 2 ? 25 : form == 4 ? 26 : 27));
  for (int i = form - 1; i >= 0; i--) r += (char) (v >> (8 * i));
  return r;
}
inline int shortest(uint64_t v) { return v < 24 ? 0 : v < 256 ? 1 : v < 65536 ? 2 : v < 0x100000000ULL ? 4 : 8; }
inline Bytes head(int major, uint64_t v) { return head(major, v, shortest(v)); }
inline bool fits(uint64_t v, int form) { return form == 8 || (form == 0 ? v < 24 : v < (1ULL << (8 * form))); }
template <class T> inline Bytes integer(T v) { return v < 0 ? head(1, (uint64_t) (-1 - (int64_t) v)) : head(0, (uint64_t) v); }
inline Bytes bytes(const Bytes& b) { return head(2, b.size()) + b; }
inline Bytes text(const Bytes& b) { return head(3, b.size()) + b; }
inline Bytes f32(float f) { uint32_t u; memcpy(&u, &f, 4); return head(7, u, 4); }
inline Bytes f64(double f) { uint64_t u; memcpy(&u, &f, 8); return head(7, u, 8); }

struct Head { int major; int minor; uint64_t arg; size_t len; };
/* 1: a head; 0: more bytes needed; -1: not a definite-length head. */
inline int read_head(const Bytes& b, size_t at, Head& h) {
  if (at >= b.size()) return 0;
  const uint8_t t = (uint8_t) b[at];
  h.major = t >> 5; h.minor = t & 31; h.len = 1; h.arg = h.minor;
  if (h.minor < 24) return 1;
  if (h.minor > 27) return -1;
  const int n = 1 << (h.minor - 24);
  if (at + 1 + n > b.size()) return 0;
  h.arg = 0;
  for (int i = 0; i < n; i++) h.arg = (h.arg << 8) | (uint8_t) b[at + 1 + i];
  h.len = 1 + n;
  return 1;
}
/* Length of the complete item at `at`; 0: incomplete; SIZE_MAX: not well-formed (or not definite-length). */
inline size_t item_len(const Bytes& b, size_t at, int depth = 0) {
  Head h;
  int r = read_head(b, at, h);
  if (r == 0) return 0;
  if (r < 0 || depth > 64) return SIZE_MAX;
  size_t n = h.len;
  uint64_t kids = 0;
  switch (h.major) {
    case 2: case 3: if (h.arg > b.size() - at - n) return 0; return n + (size_t) h.arg;
    case 4: kids = h.arg; break;
    case 5: if (h.arg > UINT64_MAX / 2) return 0; kids = h.arg * 2; break;
    case 6: kids = 1; break;
    case 7: if (h.minor == 24 && h.arg < 32) return SIZE_MAX; return n;
    default: return n;
  }
  for (uint64_t i = 0; i < kids; i++) {
    size_t k = item_len(b, at + n, depth + 1);
    if (k == 0 || k == SIZE_MAX) return k;
    n += k;
  }
  return n;
}
}  // namespace ref
#endif
