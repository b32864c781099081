/* The header of a link message, written down again. */
#ifndef HDRREF_H
#define HDRREF_H
#include <stdint.h>
#include <string>
namespace hdr {
typedef std::string S;
typedef uint8_t u8;
/* ---- The wire format, written down again --------------------------------------------------------
 * code, flags, 1-3 bytes of total length, 0-3 bytes of ID (big-endian, no leading zeroes), checksum.
 * flags: bit 0 expects a reply, bit 1 is a reply, bits 2-3 zero, bits 4-5 length bytes, bits 6-7 ID bytes.
 * checksum: 1 + code + flags + (total length). */
struct Ref { unsigned code = 0, low = 0; uint32_t id = 0, payload = 0, total = 0; unsigned len_n = 0, id_n = 0; };
inline unsigned width(uint32_t v) { return v > 0xFFFFFF ? 4 : v > 0xFFFF ? 3 : v > 0xFF ? 2 : v ? 1 : 0; }
inline bool fit(Ref& r) {     // settle the length of the length
  r.id_n = width(r.id);
  if (r.id_n > 3 || r.payload > 0xFFFFFF) return false;
  for (r.len_n = 1; r.len_n <= 3; r.len_n++) {
    r.total = 3 + r.len_n + r.id_n + r.payload;
    if (width(r.total) <= r.len_n) return true;
  }
  return false;
}
inline bool code_ok(unsigned c) { return (c >= 1 && c <= 9) || c == 0x0E || c == 0x0F || (c >= 0x10 && c <= 0x1F); }
inline S write(const Ref& r) {
  S o; const unsigned flags = r.low | (r.len_n << 4) | (r.id_n << 6);
  o += (char) r.code; o += (char) flags;
  for (unsigned i = r.len_n; i--;) o += (char) (r.total >> (8 * i));
  for (unsigned i = r.id_n; i--;)  o += (char) (r.id >> (8 * i));
  o += (char) (1 + r.code + flags + r.total);
  return o;
}
/* -2: more bytes needed. -3: no header of any kind. Otherwise the header is readable (0). */
inline int read(const S& b, Ref& r) {
  if (b.size() < 4) return -2;
  const u8* p = (const u8*) b.data();
  r.code = p[0]; r.low = p[1] & 0x0F; r.len_n = (p[1] >> 4) & 3; r.id_n = p[1] >> 6;
  if (!r.len_n) return -3;
  const size_t n = 3 + r.len_n + r.id_n;
  if (b.size() < n) return -2;
  r.total = r.id = 0;
  for (unsigned i = 0; i < r.len_n; i++) r.total = (r.total << 8) | p[2 + i];
  for (unsigned i = 0; i < r.id_n; i++)  r.id = (r.id << 8) | p[2 + r.len_n + i];
  if (p[n - 1] != (u8) (1 + p[0] + p[1] + r.total)) return -3;
  if (r.total < n) return -3;
  r.payload = r.total - n;
  return 0;
}
/* Is a readable header a proper one? */
inline bool proper(const Ref& r) {
  if (!code_ok(r.code) || (r.low & 0x0C)) return false;
  if (width(r.total) != r.len_n || width(r.id) != r.id_n) return false;
  return r.code == 1 || (0 != (r.low & 3)) == (0 != r.id);
}
}  // namespace hdr
#endif
