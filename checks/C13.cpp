/* C13: a value container gives back exactly what was put in. */
#include "nums.h"
#include "StringBuilder.h"
#include "C3PValue/C3PValue.h"
#include "C3PValue/KeyValuePair.h"
#include "TimerTools/TimerTools.h"
#include "TimeSeries/TimeSeries.h"
#include "Image/Image.h"
#include "Vector3.h"
#include <memory>

static C3PValue* make(unsigned t, const Num& n) {
  uint8_t b[8] = {0}; encode(n, t, b);
  #define AS(T) ([&] { T v; memcpy(&v, b, sizeof(T)); return new C3PValue(v); }())
  switch (t) {
    case 0: return AS(int8_t);  case 1: return AS(int16_t);  case 2: return AS(int32_t);  case 3: return AS(int64_t);
    case 4: return AS(uint8_t); case 5: return AS(uint16_t); case 6: return AS(uint32_t); case 7: return AS(uint64_t);
    case 8: return new C3PValue((bool) (b[0] != 0)); case 9: return AS(float); default: return AS(double);
  }
  #undef AS
}
static int do_set(C3PValue& c, unsigned t, const Num& n, bool via_container) {
  if (via_container) { std::unique_ptr<C3PValue> s(make(t, n)); return c.set(s.get()); }
  uint8_t b[8] = {0}; encode(n, t, b);
  #define AS(T) ([&] { T v; memcpy(&v, b, sizeof(T)); return c.set(v); }())
  switch (t) {
    case 0: return AS(int8_t);  case 1: return AS(int16_t);  case 2: return AS(int32_t);  case 3: return AS(int64_t);
    case 4: return AS(uint8_t); case 5: return AS(uint16_t); case 6: return AS(uint32_t); case 7: return AS(uint64_t);
    case 8: return c.set((bool) (b[0] != 0)); case 9: return AS(float); default: return AS(double);
  }
  #undef AS
}
static int do_get(C3PValue& c, unsigned t, uint8_t* out) {
  #define AS(T) return c.get_as((T*) out)
  switch (t) {
    case 0: AS(int8_t);  case 1: AS(int16_t);  case 2: AS(int32_t);  case 3: AS(int64_t);
    case 4: AS(uint8_t); case 5: AS(uint16_t); case 6: AS(uint32_t); case 7: AS(uint64_t);
    case 8: AS(bool); case 9: AS(float); default: AS(double);
  }
  #undef AS
}
static Num conv(const Num& n, unsigned t) {
  if (is_bool(t)) return I(0, (n.fp ? n.d != 0.0 : n.mag != 0) ? 1 : 0);
  if (t == 9) { volatile float f = (float) as_double(n); if (!n.fp) { f = (float) n.mag; if (n.neg) f = -f; } return F((double) f); }
  if (t == 10) return F(as_double(n));
  return n;
}
static bool goes(const Num& n, unsigned s, unsigned t) { return is_bool(t) || is_fp(t) || fits(n, t); }

static void observe(C3PValue& c, unsigned t, const Num& m, const char* after) {
  MC_CHECK(c.tcode() == TYPES[t], "tcode", "after %s: the type of a %s is %d", after, NAME[t], (int) c.tcode());
  MC_CHECK(c.is_numeric() && c.is_fixed_length() && !c.has_key() && !c.is_ptr_len() && !c.memError(), "kind", "after %s: %s is not a plain number", after, NAME[t]);
  MC_CHECK(c.length() == SIZE[t], "length", "after %s: length of %s is %u", after, NAME[t], c.length());
  for (unsigned d = 0; d < NT; d++) {
    uint8_t buf[24]; memset(buf, 0xA5, sizeof(buf));
    int r = do_get(c, d, buf + 8); mc::steps(1);
    for (int i = 0; i < 24; i++) if (i < 8 || i >= 8 + (int) SIZE[d] || r != 0) MC_CHECK(buf[i] == 0xA5, "overrun", "after %s: get_as(%s) of %s %s (ret %d) wrote at %d", after, NAME[d], NAME[t], text(m).c_str(), r, i - 8);
    if (r == 0) MC_CHECK(result_ok(m, d, buf + 8), "get_as", "after %s: %s %s read as %s is %s", after, NAME[t], text(m).c_str(), NAME[d], mc::hex(buf + 8, SIZE[d]).c_str());
    else MC_CHECK(!(required(t, d) && goes(m, t, d)), "get_as", "after %s: %s %s could not be read as %s", after, NAME[t], text(m).c_str(), NAME[d]);
  }
  int8_t s = 9; bool b = c.get_as_bool(&s);
  MC_CHECK(s == 1 && b == (m.fp ? m.d != 0.0 : m.mag != 0), "get_as_bool", "after %s: get_as_bool() of %s %s is %d (%d)", after, NAME[t], text(m).c_str(), b, s);
  if (!m.fp) {
    bool ok;
    ok = fits(m, 6); s = 9; unsigned u = c.get_as_uint(&s);   MC_CHECK(s == ok && u == (ok ? m.mag : 0), "get_as_uint", "after %s: get_as_uint() of %s is %u (%d)", after, text(m).c_str(), u, s);
    ok = fits(m, 2); s = 9; int i = c.get_as_int(&s);         MC_CHECK(s == ok && i == (ok ? (int) (m.neg ? 0 - m.mag : m.mag) : 0), "get_as_int", "after %s: get_as_int() of %s is %d (%d)", after, text(m).c_str(), i, s);
    ok = fits(m, 7); s = 9; uint64_t q = c.get_as_uint64(&s); MC_CHECK(s == ok && q == (ok ? m.mag : 0), "get_as_uint64", "after %s: get_as_uint64() of %s is %llu (%d)", after, text(m).c_str(), (unsigned long long) q, s);
    ok = fits(m, 3); s = 9; int64_t l = c.get_as_int64(&s);   MC_CHECK(s == ok && l == (ok ? (int64_t) (m.neg ? 0 - m.mag : m.mag) : 0), "get_as_int64", "after %s: get_as_int64() of %s is %lld (%d)", after, text(m).c_str(), (long long) l, s);
  }
  if (required(t, 10)) { s = 9; double d = c.get_as_double(&s); MC_CHECK(s == 1 && d == as_double(m), "get_as_double", "after %s: get_as_double() of %s is %g (%d)", after, text(m).c_str(), d, s); }
  if (required(t, 9))  { s = 9; float f = c.get_as_float(&s); Num w = conv(m, 9); MC_CHECK(s == 1 && (double) f == w.d, "get_as_float", "after %s: get_as_float() of %s is %g (%d)", after, text(m).c_str(), (double) f, s); }
  if (!m.fp) {
    StringBuilder out; c.toString(&out);
    std::string w = is_bool(t) ? (m.mag ? "true" : "false") : text(m), g((char*) out.string(), out.length());
    MC_CHECK(g == w, "toString", "after %s: %s %s renders as '%s'", after, NAME[t], text(m).c_str(), g.c_str());
  }
}

static const std::vector<Num>& few(unsigned t) {
  static std::vector<Num> V[NT]; std::vector<Num>& v = V[t];
  if (!v.empty()) return v;
  if (is_fp(t)) { for (double d : {0.0, -0.0, 0.5, 1.0, -3.25, 4294967296.0, -1e-30}) v.push_back(F(t == 9 ? (double) (float) d : d)); return v; }
  for (uint64_t m : {0ULL, 1ULL, 127ULL, 128ULL, 129ULL, 255ULL, 256ULL, 32767ULL, 32768ULL, 32769ULL, 65535ULL, 65536ULL, 0x7FFFFFFFULL, 0x80000000ULL, 0x80000001ULL, 0xFFFFFFFFULL, 0x100000000ULL,
      0x7FFFFFFFFFFFFFFFULL, 0x8000000000000000ULL, 0xFFFFFFFFFFFFFFFFULL, 0x4200000000ULL})
    for (int neg = 0; neg < 2; neg++) { Num n = I(neg, m); if (neg && !m) continue; if (fits(n, t)) v.push_back(n); }
  return v;
}

static void prime() { static bool done = false; if (!done) for (unsigned t = 0; t < NT; t++) { few(t); values(t); } done = true; }
static void numbers(unsigned depth, bool merge) {
  prime();
  const int64_t base = mc::live_blocks();
  {
    unsigned t = mc::choose(NT);
    Num m = mc::pick(few(t));
    std::unique_ptr<C3PValue> c(make(t, m));
    mc::op("a %s holding %s", NAME[t], text(m).c_str());
    observe(*c, t, m, "construction");
    uint16_t seen = c->trace();
    MC_CHECK(!c->dirty(&seen), "dirty", "a value is dirty against its own trace");
    for (unsigned i = 0; i < depth; i++) {
      uint8_t b[8] = {0}; encode(m, t, b);
      if (merge) mc::state(std::string((char*) b, 8) + (char) t, depth - i);
      unsigned s = mc::choose(NT); const Num n = mc::pick(few(s)); const bool via = mc::flip();
      if (!required(s, t)) throw mc::Prune();
      const bool ok = goes(n, s, t);
      int r = do_set(*c, s, n, via);
      mc::op("set(%s %s%s) = %d", NAME[s], text(n).c_str(), via ? ", in a container" : "", r);
      MC_CHECK((r == 0) == ok, "set", "set of a %s from %s %s returned %d", NAME[t], NAME[s], text(n).c_str(), r);
      uint16_t before = seen;
      MC_CHECK(c->dirty(&seen) == ok, "dirty", "a set that returned %d left dirty() %d", r, !ok);
      MC_CHECK(!c->dirty(&seen), "dirty", "dirty() twice for one change");
      if (ok) { MC_CHECK(seen != before, "dirty", "the trace did not move"); m = conv(n, t); }
      observe(*c, t, m, "set");
    }
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks are left", (long long) (mc::live_blocks() - base));
}

/* Every value of the boundary-dense sets once. */
static void every_number() {
  prime();
  const int64_t base = mc::live_blocks();
  unsigned t = mc::choose(NT); const bool by_set = mc::flip();
  for (const Num& n : values(t)) {
    std::unique_ptr<C3PValue> c;
    if (by_set) { c.reset(new C3PValue(TYPES[t])); MC_CHECK(0 == do_set(*c, t, n, n.mag & 1), "set", "set of %s %s to itself was refused", NAME[t], text(n).c_str()); }
    else c.reset(make(t, n));
    observe(*c, t, n, by_set ? "set" : "construction"); mc::count_state(mc::hash(&n, sizeof(n), t * 2 + by_set));
  }
  mc::op("every %s", NAME[t]);
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks are left", (long long) (mc::live_blocks() - base));
}

/* Wrong kinds are refused, and touch nothing. */
template <class F> static void refuses(C3PValue& c, const char* what, F still) {
  uint16_t tr = c.trace();
  auto chk = [&](const char* how, int r) { MC_CHECK(r != 0, "kind", "%s accepted %s", what, how); MC_CHECK(c.trace() == tr, "dirty", "%s: a refused %s changed the trace", what, how); still(how); mc::steps(1); };
  if (c.tcode() != TCode::UINT32) chk("a number", c.set((uint32_t) 7));
  chk("a double", c.set((double) 2.5));
  chk("an int64", c.set((int64_t) -7));
  if (c.tcode() != TCode::STR) chk("a string", c.set("wrong"));
  if (!c.is_ptr_len() && c.tcode() < TCode::VECT_2_FLOAT) { uint8_t b[2] = {1, 2}; chk("a blob", c.set(b, 2)); }
  if (!c.is_ptr_len()) {
    uint8_t* p = (uint8_t*) 0x11; uint32_t l = 0x22; int r = c.get_as(&p, &l);
    MC_CHECK(r != 0 && p == (uint8_t*) 0x11 && l == 0x22, "kind", "%s read as a blob returned %d, %p, %u", what, r, p, l);
  }
  if (c.tcode() != TCode::STR) { char* p = (char*) 0x33; int r = c.get_as(&p); MC_CHECK(r != 0 && p == (char*) 0x33, "kind", "%s read as a string returned %d", what, r); }
  if (c.tcode() != TCode::KVP) { KeyValuePair* p = (KeyValuePair*) 0x33; int r = c.get_as(&p); MC_CHECK(r != 0 && p == (KeyValuePair*) 0x33, "kind", "%s read as a KVP returned %d", what, r); }
  if (c.tcode() != TCode::STOPWATCH) { StopWatch* p = (StopWatch*) 0x33; int r = c.get_as(&p); MC_CHECK(r != 0 && p == (StopWatch*) 0x33, "kind", "%s read as a StopWatch returned %d", what, r); }
  if (!c.is_numeric()) { int64_t q = 0x55; int r = c.get_as(&q); MC_CHECK(r != 0 && q == 0x55, "kind", "%s read as a number returned %d", what, r); double d = 0.25; r = c.get_as(&d); MC_CHECK(r != 0 && d == 0.25, "kind", "%s read as a double returned %d", what, r); }
}

static void strings(unsigned depth) {
  static const char* const TXT[] = {"", "a", "hello, world", "0123456789abcdef0123456789abcdef"};
  const int64_t base = mc::live_blocks();
  {
    std::vector<std::unique_ptr<char[]>> bufs;           // the harness's own, kept until the end
    auto mine = [&](const char* s) { bufs.emplace_back(new char[strlen(s) + 1]); strcpy(bufs.back().get(), s); return bufs.back().get(); };
    std::string m; bool null = false;
    std::unique_ptr<C3PValue> c;
    auto look = [&](const char* how) {
      if (null) return;
      char* p = (char*) 0x1; const char* q = (const char*) 0x1;
      MC_CHECK(c->get_as(&p) == 0 && p && m == p, "string", "after %s: the string is '%s', not '%s'", how, p ? p : "(null)", m.c_str());
      MC_CHECK(c->get_as(&q) == 0 && q == p, "string", "after %s: a const reader got another pointer", how);
      MC_CHECK(c->length() == m.size() + 1, "length", "after %s: length() is %u, of '%s'", how, c->length(), m.c_str());
      StringBuilder out("x"); c->toString(&out); MC_CHECK(std::string((char*) out.string(), out.length()) == "x" + m, "toString", "after %s: rendered as '%s'", how, out.string());
      StringBuilder app("y"); StringBuilder* ap = &app; MC_CHECK(0 == c->get_as(&ap) && std::string((char*) app.string(), app.length()) == "y" + m, "string", "after %s: copied out as '%s'", how, app.string());
      MC_CHECK(c->tcode() == TCode::STR && !c->is_numeric() && !c->is_ptr_len(), "kind", "after %s: not a string", how);
    };
    switch (mc::choose(3)) {
      case 0: { m = mc::pick(TXT); mc::op("C3PValue((const char*) '%s')", m.c_str()); c.reset(new C3PValue((const char*) mine(m.c_str()))); } break;
      case 1: { m = mc::pick(TXT); char* b = mine(m.c_str()); mc::op("C3PValue((char*) '%s')", m.c_str()); c.reset(new C3PValue(b)); memset(b, 'Z', m.size());  // its own copy
                char* p = 0; c->get_as(&p); MC_CHECK(p != b, "copy", "constructed from char*, the value kept the caller's buffer"); } break;
      case 2: null = true; mc::op("C3PValue(TCode::STR)"); c.reset(new C3PValue(TCode::STR)); break;
    }
    look("construction");
    for (unsigned i = 0; i < depth; i++) {
      uint16_t tr = c->trace(); bool changed = true;
      switch (mc::choose(5)) {
        case 0: m = mc::pick(TXT); null = false; { int r = c->set((const char*) mine(m.c_str())); mc::op("set((const char*) '%s') = %d", m.c_str(), r); MC_CHECK(r == 0, "set", "set() was refused"); } break;
        case 1: m = mc::pick(TXT); null = false; { int r = c->set(mine(m.c_str())); mc::op("set((char*) '%s') = %d", m.c_str(), r); MC_CHECK(r == 0, "set", "set() was refused"); } break;
        case 2: { m = mc::pick(TXT); null = false; C3PValue o((const char*) mine(m.c_str())); int r = c->set(&o); mc::op("set(container of '%s') = %d", m.c_str(), r); MC_CHECK(r == 0, "set", "set() was refused"); } break;
        case 3: { m = mc::pick(TXT); null = false; char* b = strdup(m.c_str()); int r = c->set((const char*) b); c->reapValue(true); mc::op("set((const char*) '%s') = %d, handed over", m.c_str(), r); MC_CHECK(r == 0, "set", "set() was refused"); } break;
        case 4: mc::op("refusals"); changed = false; refuses(*c, "a string", look); break;
      }
      MC_CHECK((c->trace() != tr) == changed, "dirty", "the trace went from %u to %u", tr, c->trace());
      look("set");
    }
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks are left", (long long) (mc::live_blocks() - base));
}

static void blobs(unsigned depth) {
  const int64_t base = mc::live_blocks();
  {
    std::vector<std::unique_ptr<uint8_t[]>> bufs;
    static const unsigned LEN[] = {0, 1, 3, 300};
    auto fill = [](uint8_t* b, unsigned n, unsigned salt) { for (unsigned i = 0; i < n; i++) b[i] = (uint8_t) (i * 7 + salt); };
    auto mine = [&](unsigned n) { bufs.emplace_back(new uint8_t[n + 1]); fill(bufs.back().get(), n, bufs.size()); return bufs.back().get(); };
    uint8_t* p = nullptr; unsigned n = 0;
    std::unique_ptr<C3PValue> c;
    auto look = [&](const char* how) {
      uint8_t* q = (uint8_t*) 0x1; uint32_t l = 77;
      MC_CHECK(0 == c->get_as(&q, &l) && q == p && l == n, "blob", "after %s: the blob is %p+%u, not %p+%u", how, q, l, p, n);
      int8_t s = 9; C3PBinBinder b = c->get_as_ptr_len(&s);
      MC_CHECK(s == 1 && b.buf == p && b.len == n, "blob", "after %s: get_as_ptr_len() is %p+%u (%d), not %p+%u", how, b.buf, b.len, s, p, n);
      MC_CHECK(c->length() == n && c->is_ptr_len() && c->tcode() == TCode::BINARY && !c->is_numeric() && !c->memError(), "kind", "after %s: length() is %u, not %u", how, c->length(), n);
    };
    if (mc::flip()) { n = mc::pick(LEN); p = mine(n); mc::op("C3PValue(%u bytes)", n); c.reset(new C3PValue(p, n)); }
    else { mc::op("C3PValue(TCode::BINARY)"); c.reset(new C3PValue(TCode::BINARY)); StringBuilder o; c->toString(&o); }
    look("construction");
    for (unsigned i = 0; i < depth; i++) {
      uint16_t tr = c->trace(); bool changed = true;
      switch (mc::choose(4)) {
        case 0: { n = mc::pick(LEN); p = mine(n); int r = c->set(p, n); mc::op("set(%u bytes) = %d", n, r); MC_CHECK(r == 0, "set", "set() was refused"); } break;
        case 1: { n = mc::pick(LEN); p = mine(n); C3PValue o(p, n); int r = c->set(&o); mc::op("set(container of %u bytes) = %d", n, r); MC_CHECK(r == 0, "set", "set() was refused"); } break;
        case 2: { n = mc::pick(LEN); p = (uint8_t*) malloc(n + 1); fill(p, n, 9); int r = c->set(p, n); c->reapValue(true); mc::op("set(%u bytes) = %d, handed over", n, r); MC_CHECK(r == 0, "set", "set() was refused"); } break;
        case 3: mc::op("refusals"); changed = false; refuses(*c, "a blob", look); break;
      }
      MC_CHECK((c->trace() != tr) == changed, "dirty", "the trace went from %u to %u", tr, c->trace());
      look("set");
    }
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks are left", (long long) (mc::live_blocks() - base));
}

template <class T> static void vectors(TCode tc, const char* name, std::vector<T> vals) {
  const int64_t base = mc::live_blocks();
  {
    typedef Vector3<T> V;
    auto any = [&] { unsigned k = mc::choose(4); T a = vals[k % vals.size()], b = vals[(k + 1) % vals.size()], c = vals[(k + 2) % vals.size()]; return V(a, b, c); };
    V m(0, 0, 0);
    std::unique_ptr<C3PValue> c;
    auto look = [&](const char* how) {
      struct { uint8_t pre[8]; V v; uint8_t post[8]; } g; memset((void*) &g, 0xA5, sizeof(g));
      int r = c->get_as(&g.v);
      MC_CHECK(r == 0 && 0 == memcmp(&g.v.x, &m.x, sizeof(T)) && 0 == memcmp(&g.v.y, &m.y, sizeof(T)) && 0 == memcmp(&g.v.z, &m.z, sizeof(T)), "vector", "after %s: %s is (%g, %g, %g), not (%g, %g, %g), ret %d", how, name, (double) g.v.x, (double) g.v.y, (double) g.v.z, (double) m.x, (double) m.y, (double) m.z, r);
      for (int i = 0; i < 8; i++) MC_CHECK(g.pre[i] == 0xA5 && g.post[i] == 0xA5, "overrun", "after %s: reading %s wrote outside", how, name);
      MC_CHECK(c->tcode() == tc && c->length() == 3 * sizeof(T) && !c->is_ptr_len() && !c->memError(), "kind", "after %s: %s has type %d and length %u", how, name, (int) c->tcode(), c->length());
      if (std::is_integral<T>::value) { char w[80]; snprintf(w, sizeof(w), "(%lld, %lld, %lld)", (long long) m.x, (long long) m.y, (long long) m.z); StringBuilder o; c->toString(&o); MC_CHECK(std::string((char*) o.string(), o.length()) == w, "toString", "after %s: %s renders as '%s', not '%s'", how, name, o.string(), w); }
    };
    if (mc::flip()) { V v = any(); c.reset(new C3PValue(&v)); m = v; v.set(1, 2, 3); mc::op("C3PValue(%s)", name); }
    else { c.reset(new C3PValue(tc)); mc::op("C3PValue(type %s)", name); }
    look("construction");
    for (unsigned i = 0; i < 2; i++) {
      uint16_t tr = c->trace(); bool changed = true;
      switch (mc::choose(3)) {
        case 0: { V v = any(); int r = c->set(&v); m = v; mc::op("set() = %d", r); MC_CHECK(r == 0, "set", "set() was refused"); v.set(1, 2, 3); } break;
        case 1: { V v = any(); C3PValue o(&v); int r = c->set(&o); m = v; mc::op("set(container) = %d", r); MC_CHECK(r == 0, "set", "set() was refused"); } break;
        case 2: mc::op("refusals"); changed = false; refuses(*c, name, look); break;
      }
      MC_CHECK((c->trace() != tr) == changed, "dirty", "the trace went from %u to %u", tr, c->trace());
      look("set");
    }
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks are left", (long long) (mc::live_blocks() - base));
}

/* Types kept by pointer. */
template <class T> struct Mk { static T* mk(int i) { return new T(); } };
template <> struct Mk<StringBuilder> { static StringBuilder* mk(int i) { StringBuilder* s = new StringBuilder("abc"); s->concat("def"); s->concatf("%d", i); return s; } };
template <> struct Mk<KeyValuePair> { static KeyValuePair* mk(int i) { return new KeyValuePair("key", (uint32_t) i); } };
template <> struct Mk<Image> { static Image* mk(int i) { Image* r = new Image(4, 4, ImgBufferFormat::GREY_8); r->reallocate(); return r; } };
template <class B> static B* mk_as(int i);
template <> StringBuilder*  mk_as<StringBuilder>(int i) { return Mk<StringBuilder>::mk(i); }
template <> KeyValuePair*   mk_as<KeyValuePair>(int i) { return Mk<KeyValuePair>::mk(i); }
template <> StopWatch*      mk_as<StopWatch>(int i) { return new StopWatch(i); }
template <> TimeSeriesBase* mk_as<TimeSeriesBase>(int i) { TimeSeries<int32_t>* t = new TimeSeries<int32_t>(4); t->init(); return t; }
template <> Image*          mk_as<Image>(int i) { return Mk<Image>::mk(i); }

template <class T> static int fetch(C3PValue& c, T** p) { *p = nullptr; return c.get_as(p); }
template <class T> static void pointers(TCode tc, const char* name) {
  const int64_t base = mc::live_blocks();
  {
    std::vector<std::unique_ptr<T>> mine;
    auto own = [&] { mine.emplace_back(mk_as<T>((int) mine.size())); return mine.back().get(); };
    T* m = nullptr; std::unique_ptr<C3PValue> c;
    auto look = [&](const char* how) {
      T* p = nullptr; int r = fetch(*c, &p);
      if (m || !std::is_same<T, StringBuilder>::value) MC_CHECK(r == 0 && p == m, "pointer", "after %s: %s is %p, not %p, ret %d", how, name, p, m, r);
      MC_CHECK(c->tcode() == tc && !c->is_numeric() && !c->memError(), "kind", "after %s: %s has type %d", how, name, (int) c->tcode());
      if constexpr (std::is_same<T, StringBuilder>::value) if (m) {
        StringBuilder copy("+"); StringBuilder* cp = &copy; MC_CHECK(0 == c->get_as(&cp) && copy.length() == m->length() + 1 && copy.locate("abcdef", 0) == 1, "pointer", "after %s: the text was copied out as '%s'", how, copy.string());
        MC_CHECK(c->length() == (uint32_t) m->length(), "length", "after %s: length() of the text is %u", how, c->length());
        StringBuilder out; c->toString(&out); MC_CHECK(out.length() == m->length() && out.locate("abcdef", 0) == 0, "toString", "after %s: the text renders as '%s'", how, out.string());
      }
    };
    m = own(); mc::op("C3PValue(%s)", name); c.reset(new C3PValue(m));
    bool owned = false;
    look("construction");
    for (unsigned i = 0; i < 3; i++) {
      uint16_t tr = c->trace(); bool changed = true;
      switch (mc::choose(4)) {
        case 0: { T* p = own(); int r = c->set(p); m = p; mc::op("set() = %d", r); MC_CHECK(r == 0, "set", "set() was refused"); } break;
        case 1: { T* p = own(); C3PValue o(p); int r = c->set(&o); m = p; mc::op("set(container) = %d", r); MC_CHECK(r == 0, "set", "set() was refused"); } break;
        case 2: { T* p = mk_as<T>(5); int r = c->set(p); c->reapValue(true); m = p; mc::op("set() = %d, handed over", r); MC_CHECK(r == 0, "set", "set() was refused"); } break;
        case 3: mc::op("refusals"); changed = false; refuses(*c, name, look); break;
      }
      MC_CHECK((c->trace() != tr) == changed, "dirty", "the trace went from %u to %u", tr, c->trace());
      look("set");
    }
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks are left", (long long) (mc::live_blocks() - base));
}

static void all_vectors() {
  switch (mc::choose(8)) {
    case 0: vectors<int8_t>(TCode::VECT_3_INT8, "Vector3i8", {0, -128, 127, -1}); break;
    case 1: vectors<int16_t>(TCode::VECT_3_INT16, "Vector3i16", {0, -32768, 32767, 258}); break;
    case 2: vectors<int32_t>(TCode::VECT_3_INT32, "Vector3i32", {0, INT32_MIN, INT32_MAX, 0x01020304}); break;
    case 3: vectors<uint8_t>(TCode::VECT_3_UINT8, "Vector3u8", {0, 255, 128, 1}); break;
    case 4: vectors<uint16_t>(TCode::VECT_3_UINT16, "Vector3u16", {0, 65535, 258, 1}); break;
    case 5: vectors<uint32_t>(TCode::VECT_3_UINT32, "Vector3u32", {0, 0xFFFFFFFFu, 0x01020304u, 1}); break;
    case 6: vectors<float>(TCode::VECT_3_FLOAT, "Vector3f", {0, 1.5f, -2.25e10f, 3e-20f}); break;
    case 7: vectors<double>(TCode::VECT_3_DOUBLE, "Vector3f64", {0, 1.5, -2.25e100, 3e-200}); break;
  }
}
static void all_pointers() {
  switch (mc::choose(5)) {
    case 0: pointers<StringBuilder>(TCode::STR_BUILDER, "StringBuilder*"); break;
    case 1: pointers<KeyValuePair>(TCode::KVP, "KeyValuePair*"); break;
    case 2: pointers<StopWatch>(TCode::STOPWATCH, "StopWatch*"); break;
    case 3: pointers<TimeSeriesBase>(TCode::TIMESERIES, "TimeSeriesBase*"); break;
    case 4: pointers<Image>(TCode::IMAGE, "Image*"); break;
  }
}

int main(int argc, char** argv) {
  std::vector<mc::Config> c;
  const bool T = mc::thorough || (getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"));
  c.emplace_back("numbers", [T] { numbers(T ? 4 : 3, true); }, 3, "every history of sets, merged on type and value, every getter after each");
  c.emplace_back("numbers flat", [T] { numbers(T ? 2 : 1, false); }, 3, "the same without merging");
  c.emplace_back("every number", [] { every_number(); }, 2, "every 8/16-bit value and boundary-dense wider values, constructed and set");
  c.emplace_back("strings", [T] { strings(T ? 4 : 3); }, 3, "every history of string sets");
  c.emplace_back("blobs", [T] { blobs(T ? 4 : 3); }, 3, "every history of blob sets");
  c.emplace_back("vectors", [] { all_vectors(); }, 3, "8 vector types, every history of 2 sets");
  c.emplace_back("pointers", [] { all_pointers(); }, 3, "5 types kept by pointer, every history of 3 sets");
  return mc::main(argc, argv, "C13", c, {
    "Identity values are not compiled into this build (CONFIG_C3P_IDENTITY_SUPPORT)",
    "numbers are set from types whose conversion is supported for every value (C12)"});
}
