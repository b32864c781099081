/* Numbers as the checks understand them: sign and magnitude, or a double; and what converting them must do. */
#ifndef NUMS_H
#define NUMS_H
#include "mc.h"
#include "C3PValue/C3PType.h"
#include <string.h>
#include <math.h>
#include <float.h>

struct Num { bool fp; bool neg; uint64_t mag; double d; };

static const TCode TYPES[] = {TCode::INT8, TCode::INT16, TCode::INT32, TCode::INT64, TCode::UINT8, TCode::UINT16, TCode::UINT32, TCode::UINT64,
  TCode::BOOLEAN, TCode::FLOAT, TCode::DOUBLE};
static const char* NAME[] = {"INT8", "INT16", "INT32", "INT64", "UINT8", "UINT16", "UINT32", "UINT64", "BOOLEAN", "FLOAT", "DOUBLE"};
static const unsigned NT = 11;
static const unsigned SIZE[] = {1, 2, 4, 8, 1, 2, 4, 8, 1, 4, 8};
static bool is_fp(unsigned t) { return t >= 9; }
static bool is_bool(unsigned t) { return t == 8; }
static bool is_sgn(unsigned t) { return t < 4; }

static Num I(bool neg, uint64_t mag) { Num n; n.fp = false; n.neg = neg && mag; n.mag = mag; n.d = 0; return n; }
static Num F(double d) { Num n; n.fp = true; n.neg = false; n.mag = 0; n.d = d; return n; }
static bool fits(const Num& n, unsigned t) {             // an integer into an integral type
  if (is_bool(t)) return !n.neg && n.mag <= 1;
  unsigned bits = SIZE[t] * 8;
  if (is_sgn(t)) return n.neg ? n.mag <= (1ULL << (bits - 1)) : n.mag <= (1ULL << (bits - 1)) - 1;
  return !n.neg && (bits == 64 || n.mag <= (1ULL << bits) - 1);
}
static void encode(const Num& n, unsigned t, uint8_t* out) {
  if (t == 9) { float f = (float) n.d; memcpy(out, &f, 4); return; }
  if (t == 10) { memcpy(out, &n.d, 8); return; }
  uint64_t v = n.neg ? 0 - n.mag : n.mag;
  memcpy(out, &v, SIZE[t]);                              // little endian host
}
static double as_double(const Num& n) { if (n.fp) return n.d; volatile double d = (double) n.mag; return n.neg ? -d : d; }
static std::string text(const Num& n) { char b[64]; if (n.fp) snprintf(b, sizeof(b), "%.17g", n.d); else snprintf(b, sizeof(b), "%s%llu", n.neg ? "-" : "", (unsigned long long) n.mag); return b; }

static const std::vector<Num>& values(unsigned t) {
  static std::vector<Num> V[NT];
  std::vector<Num>& v = V[t];
  if (!v.empty()) return v;
  if (is_fp(t)) {
    for (double d : {0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.25, 2.0, 1.5, 255.0, 256.0, 65535.0, 16777216.0, 2147483648.0, 1e9, -1e9, 123456.75}) v.push_back(F(d));
    if (t == 9) for (float f : {FLT_MIN, FLT_MAX, -FLT_MAX, FLT_EPSILON, 1e-45f, 0.1f, 3.14159265f}) v.push_back(F((double) f));
    else for (double d : {DBL_MIN, DBL_MAX, -DBL_MAX, DBL_EPSILON, 4.9e-324, 0.1, 9007199254740993.0, 1e300}) v.push_back(F(d));
    v.push_back(F((double) INFINITY)); v.push_back(F(-(double) INFINITY));
    return v;
  }
  if (is_bool(t)) { v.push_back(I(0, 0)); v.push_back(I(0, 1)); return v; }
  if (SIZE[t] <= 2) { for (int i = is_sgn(t) ? -32768 : 0; i < 65536; i++) { Num n = I(i < 0, i < 0 ? -i : i); if (fits(n, t)) v.push_back(n); } return v; }
  const int W = mc::thorough ? 70 : 9;
  for (int k = 0; k < 64; k++) for (int m = 1; m <= 7; m += 2) for (int d = -W; d <= W; d++) for (int neg = 0; neg < 2; neg++) {
    uint64_t b = (1ULL << k) * m;
    Num n = I(neg, b + (int64_t) d);
    if (fits(n, t)) v.push_back(n);
  }
  for (int d = 0; d <= W; d++) { v.push_back(I(0, d)); if (t == 7) v.push_back(I(0, ~0ULL - d)); }
  return v;
}

/* What must be supported: every pair of integral types (and booleans); every type to itself; whatever a floating type can carry by width. */
static bool required(unsigned s, unsigned d) {
  if (s == d) return true;
  if (!is_fp(s) && !is_fp(d)) return true;
  if (!is_fp(s) && is_fp(d)) return !(SIZE[s] == 8 && d == 9);
  return (s == 9 && d == 10);
}
/* n, held as source type s, converted to type d with result bytes `got` (ret 0). */
static bool result_ok(const Num& n, unsigned d, const uint8_t* got) {
  uint8_t want[8];
  if (is_bool(d)) { bool nz = n.fp ? n.d != 0.0 : n.mag != 0; return got[0] == (nz ? 1 : 0); }
  if (!is_fp(d)) {
    if (!n.fp) { if (!fits(n, d)) return false; encode(n, d, want); return 0 == memcmp(got, want, SIZE[d]); }
    double t = trunc(n.d); if (!(fabs(t) < 1.8e19)) return false;
    Num m = I(t < 0, (uint64_t) fabs(t)); if (!fits(m, d)) return false;
    encode(m, d, want); return 0 == memcmp(got, want, SIZE[d]);
  }
  if (d == 9) { float f; memcpy(&f, got, 4); volatile float w = n.fp ? (float) n.d : (float) n.mag; float x = n.neg ? -w : w; return 0 == memcmp(&f, &x, 4) || (f == x); }
  double g; memcpy(&g, got, 8); double w = as_double(n); return g == w;
}

#endif
