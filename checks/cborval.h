/* What a CBOR item means to the value layer, and what a chain of values holds, in one notation. */
#ifndef CBORVAL_H
#define CBORVAL_H
#include "cborref.h"
#include "mc.h"
#include "cbor-cpp/cbor.h"
#include "C3PValue/C3PValue.h"
#include "C3PValue/KeyValuePair.h"
#include "TimeSeries/TimeSeries.h"
#include "StringBuilder.h"
#include <vector>

inline int64_t quiet_blocks() { std::vector<std::string>().swap(plat::log); return mc::live_blocks(); }
namespace val {
typedef std::string S;
typedef std::vector<S> L;
enum { VENDOR = C3P_CBOR_VENDOR_CODE };

inline S num(uint64_t u) { char b[32]; snprintf(b, sizeof(b), "%llu", (unsigned long long) u); return b; }
template <class T> S dec(T v) { return v < 0 ? (v == (T) INT64_MIN && sizeof(T) == 8 ? S("-9223372036854775808") : "-" + num((uint64_t) -(int64_t) v)) : num((uint64_t) v); }
inline S join(const L& l) { S r; for (auto& x : l) r += (r.empty() ? "" : ";") + x; return r; }
inline S c_text(const S& s) { return S(s.c_str()); }

/* Three-axis vectors travel as a vendor tag around a typed array. */
struct Axis { TCode tc; unsigned tag_le; unsigned tag_be; unsigned size; };
static const Axis AXES[] = {{TCode::VECT_3_FLOAT, 85, 81, 12}, {TCode::VECT_3_DOUBLE, 86, 82, 24}, {TCode::VECT_3_INT8, 72, 72, 3}, {TCode::VECT_3_UINT8, 64, 64, 3},
  {TCode::VECT_3_INT16, 77, 73, 6}, {TCode::VECT_3_UINT16, 69, 65, 6}, {TCode::VECT_3_INT32, 78, 74, 12}, {TCode::VECT_3_UINT32, 70, 66, 12}};
inline const Axis* axis(TCode tc) { for (auto& a : AXES) if (a.tc == tc) return &a; return nullptr; }

/* Reads the item at `at`. 1: its values are appended to out; 0: incomplete, or nothing this layer knows; 2: a tagged object, whose content is not looked into. */
inline int read(const S& b, size_t& at, L& out, int depth = 0) {
  ref::Head h;
  if (ref::read_head(b, at, h) != 1 || depth > 200) return 0;
  at += h.len;
  switch (h.major) {
    case 0: out.push_back("i" + num(h.arg)); return 1;
    case 1: if (h.arg > 0x7FFFFFFFFFFFFFFFULL) return 0; out.push_back("i" + dec((int64_t) (-1 - (int64_t) h.arg))); return 1;
    case 2: case 3:
      if (h.arg > b.size() - at) return 0;
      { S c = b.substr(at, (size_t) h.arg); out.push_back(h.major == 2 ? "b" + mc::hex(c) : "s" + mc::hex(c_text(c))); }
      at += (size_t) h.arg;
      return 1;
    case 4: {
      if (h.arg == 0 || h.arg > b.size() - at) return 0;
      int r = 1;
      for (uint64_t i = 0; i < h.arg; i++) { int k = read(b, at, out, depth + 1); if (k == 0) return 0; if (k == 2) r = 2; }
      return r;
    }
    case 5: {
      if (h.arg == 0 || h.arg > b.size() - at) return 0;
      int r = 1;
      for (uint64_t i = 0; i < h.arg; i++) {
        ref::Head k;
        if (ref::read_head(b, at, k) != 1 || k.major != 3) return 0;
        at += k.len;
        if (k.arg > b.size() - at) return 0;
        S key = c_text(b.substr(at, (size_t) k.arg)); at += (size_t) k.arg;
        L v; int kr = read(b, at, v, depth + 1);
        if (kr == 0 || v.empty()) return 0;
        if (kr == 2) r = 2;
        if (v[0].find('=') != S::npos && v[0][0] == '\'') out.push_back("'" + mc::hex(key) + "={" + join(v) + "}");
        else { out.push_back("'" + mc::hex(key) + "=" + v[0]); out.insert(out.end(), v.begin() + 1, v.end()); }
      }
      return r;
    }
    case 6: {
      if ((h.arg & ~0xFFULL) != VENDOR) return 0;
      const TCode tc = IntToTcode((uint8_t) (h.arg & 0xFF));
      if (const Axis* a = axis(tc)) {
        ref::Head t, d;
        if (ref::read_head(b, at, t) != 1 || t.major != 6) return 0;
        if (t.arg != a->tag_le && !(a->size == 3 && t.arg == a->tag_le + 4)) return 0;     // (+ 4: as earlier versions wrote them)
        at += t.len;
        if (ref::read_head(b, at, d) != 1 || d.major != 2 || d.arg != a->size) return 0;
        at += d.len;
        if (d.arg > b.size() - at) return 0;
        out.push_back("v" + num((uint8_t) tc) + ":" + mc::hex(b.substr(at, a->size)));
        at += a->size;
        return 1;
      }
      if (tc == TCode::BINARY) {
        ref::Head d;
        if (ref::read_head(b, at, d) != 1 || d.major != 2) return 0;
        at += d.len;
        if (d.arg > b.size() - at) return 0;
        out.push_back("b" + mc::hex(b.substr(at, (size_t) d.arg))); at += (size_t) d.arg;
        return 2;
      }
      if (tc == TCode::STOPWATCH || tc == TCode::TIMESERIES) {
        L v; if (read(b, at, v, depth + 1) == 0 || v.empty() || v[0][0] != '\'') return 0;
        out.push_back("o"); return 2;
      }
      return 0;
    }
    case 7:
      if (h.minor == 26) { char x[16]; snprintf(x, sizeof(x), "f%08x", (unsigned) h.arg); out.push_back(x); return 1; }
      if (h.minor == 27) { char x[32]; snprintf(x, sizeof(x), "d%016llx", (unsigned long long) h.arg); out.push_back(x); return 1; }
      if (h.minor == 20 || h.minor == 21) { out.push_back(h.minor == 21 ? "T" : "F"); return 1; }
      if (h.minor == 22 || h.minor == 23) { out.push_back("n"); return 1; }
      return 0;
  }
  return 0;
}

/* What a chain of values holds. */
inline S show(C3PValue* v, int depth = 0);
inline S one(C3PValue* v, int depth) {
  S k;
  if (v->has_key()) { const char* key = ((KeyValuePair*) v)->getKey(); k = "'" + (key ? mc::hex(S(key)) : S("?")) + "="; }
  #define NUM(TC, T) case TC: { T x; if (v->get_as(&x) != 0) return k + "unreadable"; return k + "i" + dec(x); }
  switch (v->tcode()) {
    NUM(TCode::UINT8, uint8_t) NUM(TCode::UINT16, uint16_t) NUM(TCode::UINT32, uint32_t) NUM(TCode::UINT64, uint64_t)
    NUM(TCode::INT8, int8_t) NUM(TCode::INT16, int16_t) NUM(TCode::INT32, int32_t) NUM(TCode::INT64, int64_t)
    case TCode::BOOLEAN: { bool x; if (v->get_as(&x) != 0) return k + "unreadable"; return k + (x ? "T" : "F"); }
    case TCode::FLOAT:  { uint32_t u; if (v->get_as(TCode::FLOAT, &u) != 0) return k + "unreadable"; char x[16]; snprintf(x, sizeof(x), "f%08x", u); return k + x; }
    case TCode::DOUBLE: { uint64_t u; if (v->get_as(TCode::DOUBLE, &u) != 0) return k + "unreadable"; char x[32]; snprintf(x, sizeof(x), "d%016llx", (unsigned long long) u); return k + x; }
    case TCode::STR:    { char* s = nullptr; if (v->get_as(&s) != 0 || !s) return k + "unreadable"; return k + "s" + mc::hex(S(s)); }
    case TCode::STR_BUILDER: { StringBuilder* s = nullptr; if (v->get_as(&s) != 0 || !s) return k + "unreadable"; return k + "s" + mc::hex(S((char*) s->string(), (size_t) s->length())); }
    case TCode::BINARY: { uint8_t* p = nullptr; uint32_t n = 0; if (v->get_as(&p, &n) != 0 || (n && !p)) return k + "unreadable"; return k + "b" + mc::hex(S((char*) p, n)); }
    case TCode::NONE: return k + "n";
    case TCode::KVP: { KeyValuePair* p = nullptr; if (v->get_as(&p) != 0 || !p) return k + "unreadable"; return k + "{" + show(p, depth + 1) + "}"; }
    case TCode::STOPWATCH: case TCode::TIMESERIES: return k + "o";
    default: break;
  }
  if (const Axis* a = axis(v->tcode())) { char m[24]; memset(m, 0x5A, sizeof(m)); if (v->get_as(a->tc, m) != 0) return k + "unreadable"; return k + "v" + num((uint8_t) a->tc) + ":" + mc::hex(S(m, a->size)); }
  return k + "type" + num((uint8_t) v->tcode());
  #undef NUM
}
inline S show(C3PValue* v, int depth) { if (depth > 200) return "deep"; S r; for (; v; v = v->nextValue()) r += (r.empty() ? "" : ";") + one(v, depth); return r; }
}  // namespace val
#endif
