/* C19: the low-level CBOR writer and reader agree with the CBOR standard. */
#include "mc.h"
#include "cborref.h"
#include "cbor-cpp/cbor.h"
#include "StringBuilder.h"
#include <memory>

typedef std::string S;
typedef std::vector<S> Events;

static S num(uint64_t u) { char b[32]; snprintf(b, sizeof(b), "%llu", (unsigned long long) u); return b; }
static S neg(uint64_t arg) { return arg == UINT64_MAX ? S("-18446744073709551616") : "-" + num(arg + 1); }    // -1 - arg
template <class T> static S dec(T v) { return v < 0 ? neg((uint64_t) (-1 - (int64_t) v)) : num((uint64_t) v); }

struct Ear : public cbor::listener {
  Events ev;
  template <class T> void i(T v) { ev.push_back("int " + dec(v)); }
  void on_integer(int8_t v) { i(v); }   void on_integer(int16_t v) { i(v); }   void on_integer(int32_t v) { i(v); }   void on_integer(int64_t v) { i(v); }
  void on_integer(uint8_t v) { i(v); }  void on_integer(uint16_t v) { i(v); }  void on_integer(uint32_t v) { i(v); }  void on_integer(uint64_t v) { i(v); }
  void on_float32(float f) { uint32_t u; memcpy(&u, &f, 4); ev.push_back("f32 " + num(u)); }
  void on_double(double f) { uint64_t u; memcpy(&u, &f, 8); ev.push_back("f64 " + num(u)); }
  void on_bytes(uint8_t* d, int n) { ev.push_back("bytes " + mc::hex(S((char*) d, (size_t) n))); }
  void on_string(char* s) { ev.push_back("text " + mc::hex(S(s))); }
  void on_array(int n) { ev.push_back("array " + num(n)); }
  void on_map(int n) { ev.push_back("map " + num(n)); }
  void on_tag(unsigned int t) { ev.push_back("tag " + num(t)); }
  void on_special(unsigned int c) { ev.push_back("special " + num(c)); }
  void on_bool(bool b) { ev.push_back(b ? "true" : "false"); }
  void on_null() { ev.push_back("null"); }
  void on_undefined() { ev.push_back("undefined"); }
  void on_error(const char*) { ev.push_back("error"); }
  void on_extra_integer(uint64_t v, int sign) { ev.push_back("int " + (sign < 0 ? neg(v) : num(v))); }
  void on_extra_tag(uint64_t t) { ev.push_back("tag " + num(t)); }
  void on_extra_special(uint64_t t) { ev.push_back("special " + num(t)); }
};

/* What the standard says the bytes are. Returns the offset at which reading stopped. */
static size_t expect(const S& b, Events& ev) {
  size_t at = 0;
  while (at < b.size()) {
    ref::Head h;
    int r = ref::read_head(b, at, h);
    if (r == 0) break;
    if (r < 0) { ev.push_back("error"); break; }
    const bool huge = h.arg > 0x7FFFFFFFULL;
    switch (h.major) {
      case 0: ev.push_back("int " + num(h.arg)); break;
      case 1: ev.push_back("int " + neg(h.arg)); break;
      case 2: case 3:
        if (h.minor == 27 || huge) { ev.push_back("error"); return at; }     // documented limit: no 64-bit lengths
        if (h.arg > b.size() - at - h.len) return at;
        { S c = b.substr(at + h.len, (size_t) h.arg); ev.push_back(h.major == 2 ? "bytes " + mc::hex(c) : "text " + mc::hex(S(c.c_str()))); }
        at += (size_t) h.arg;
        break;
      case 4: if (h.minor == 27 || huge) { ev.push_back("error"); return at; } ev.push_back("array " + num(h.arg)); break;
      case 5: if (h.minor == 27 || huge) { ev.push_back("error"); return at; } ev.push_back("map " + num(h.arg)); break;
      case 6: ev.push_back("tag " + num(h.arg)); break;
      case 7:
        if (h.minor == 26) ev.push_back("f32 " + num(h.arg));
        else if (h.minor == 27) ev.push_back("f64 " + num(h.arg));
        else if (h.minor >= 24) ev.push_back("special " + num(h.arg));
        else ev.push_back(h.arg == 20 ? "false" : h.arg == 21 ? "true" : h.arg == 22 ? "null" : h.arg == 23 ? "undefined" : "special " + num(h.arg));
        break;
    }
    at += h.len;
  }
  return at;
}

static S show(const Events& e) { S r; for (auto& x : e) r += (r.empty() ? "" : ", ") + (x.size() > 60 ? x.substr(0, 60) + "..." : x); return "[" + r + "]"; }
static void same(const Ear& ear, const Events& want, const S& b, const char* how) {
  if (ear.ev != want) mc::fail("events", "%s of %s: events %s, the bytes encode %s", how, mc::hex(b.substr(0, 40)).c_str(), show(ear.ev).c_str(), show(want).c_str());
}

/* Decode b through each kind of input, whole and in pieces. */
static void decode(const S& b, bool pieces) {
  const int64_t base = mc::live_blocks();
  {
    Events want; expect(b, want);
    std::unique_ptr<uint8_t[]> exact(new uint8_t[b.size() + (b.empty() ? 1 : 0)]);
    memcpy(exact.get(), b.data(), b.size());
    {
      Ear ear; cbor::input_static in(exact.get(), (int) b.size()); cbor::decoder d(in, ear); d.run();
      same(ear, want, b, "reading a buffer"); mc::steps(1);
      MC_CHECK(d.failed() == (!want.empty() && want.back() == "error"), "failed", "failed() is %d after reading %s", d.failed(), mc::hex(b.substr(0, 40)).c_str());
    }
    const bool split = b.size() <= 24;
    for (unsigned mode = 0; mode < 3; mode++) for (unsigned frag = 0; frag < 2; frag++) {
      // mode 0: string left alone, 1: consumed, 2: consumed with its container
      StringBuilder* sb = new StringBuilder();
      if (frag && split) for (char c : b) sb->concat((uint8_t*) &c, 1);
      else if (!b.empty()) sb->concat((uint8_t*) b.data(), (int) b.size());
      Ear ear;
      {
        cbor::input_stringbuilder in(sb, mode > 0, mode == 2);
        cbor::decoder d(in, ear); d.run();
        same(ear, want, b, mode ? "consuming a string" : "reading a string"); mc::steps(1);
      }
      if (mode == 0) MC_CHECK(sb->length() == (int) b.size() && (b.empty() || 0 == memcmp(sb->string(), b.data(), b.size())), "input", "reading %s altered the string read from", mc::hex(b.substr(0, 40)).c_str());
      if (mode < 2) delete sb;
    }
    if (pieces && b.size() <= 24 && !b.empty()) {
      // the bytes arrive in two pieces at every point, and one at a time; the reader runs after each
      for (size_t cut = 0; cut < b.size(); cut++) for (unsigned consume = 0; consume < 2; consume++) {
        StringBuilder sb; Ear ear;
        cbor::input_stringbuilder in(&sb, consume != 0); cbor::decoder d(in, ear);
        size_t done = 0;
        while (done < b.size()) {
          size_t n = cut == 0 ? 1 : done == 0 ? cut : b.size() - done;
          sb.concat((uint8_t*) b.data() + done, (int) n); done += n;
          d.run();
          Events part; expect(b.substr(0, done), part);
          if (ear.ev != part) mc::fail("events", "reading %s in pieces, after %zu bytes: events %s, the bytes encode %s", mc::hex(b).c_str(), done, show(ear.ev).c_str(), show(part).c_str());
          mc::steps(1);
        }
      }
    }
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "reading %s: %lld blocks not released", mc::hex(b.substr(0, 40)).c_str(), (long long) (mc::live_blocks() - base));
}

static const uint64_t ARGS[] = {0, 1, 10, 20, 23, 24, 25, 31, 32, 127, 128, 129, 254, 255, 256, 257, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x7FFFFFFE, 0x7FFFFFFF, 0x80000000u, 0x80000001u, 0xFFFFFFFEu, 0xFFFFFFFFu,
  0x100000000ULL, 0x123456789ABCDEFULL, 0x7FFFFFFFFFFFFFFFULL, 0x8000000000000000ULL, 0x8000000000000001ULL, 0xFFFFFFFFFFFFFFFFULL, 0x0102, 0x01020304, 0x3F800000, 0xFFC00001u, 0x7F800000, 0x3FF0000000000000ULL};
static const int FORMS[] = {0, 1, 2, 4, 8};
static S fill(size_t n, int seed) { S r; for (size_t i = 0; i < n; i++) r += (char) (1 + (i * 7 + seed) % 255); return r; }

static void items() {                                    // one item of every kind, in every form
  const int major = (int) mc::choose(8);
  const uint64_t v = mc::pick(ARGS);
  const int form = mc::pick(FORMS);
  if (!ref::fits(v, form)) throw mc::Prune();
  S b = ref::head(major, v, form);
  if ((major == 2 || major == 3) && v == 0x7FFFFFFF) throw mc::Prune();   // at the limit of the reader's type
  if (major == 7 && form == 1 && v < 32) throw mc::Prune();   // not well-formed
  if ((major == 2 || major == 3) && v <= 0x10001) b += fill((size_t) v, major);
  const S tail = mc::flip() ? S("\x05", 1) : S();
  mc::op("reading an item of major type %d, argument %llu in form %d%s", major, (unsigned long long) v, form, tail.empty() ? "" : ", and the number 5");
  decode(b + tail, true);
}

static std::vector<S> alphabet() {
  std::vector<S> a;
  for (uint64_t v : {0ULL, 23ULL, 24ULL, 127ULL, 128ULL, 255ULL, 256ULL, 0x8000ULL, 0xFFFFULL, 0x10000ULL, 0x80000000ULL, 0xFFFFFFFFULL, 0x100000000ULL, 0xFFFFFFFFFFFFFFFFULL}) { a.push_back(ref::head(0, v)); a.push_back(ref::head(1, v)); }
  for (int m = 2; m < 4; m++) { a.push_back(ref::head(m, 0)); a.push_back(ref::head(m, 1) + "a"); a.push_back(ref::head(m, 3) + fill(3, 4)); a.push_back(ref::head(m, 2, 1) + "xy"); a.push_back(ref::head(m, 1, 2) + "z"); a.push_back(ref::head(m, 1, 4) + "\x9f"); a.push_back(ref::head(m, 1, 8)); }
  for (int m = 4; m < 7; m++) { a.push_back(ref::head(m, 0)); a.push_back(ref::head(m, 2)); a.push_back(ref::head(m, 64, 1)); a.push_back(ref::head(m, 0x1234)); a.push_back(ref::head(m, 0x12345678)); }
  a.push_back(ref::head(6, 0x123456789AULL));
  for (int s = 19; s < 24; s++) a.push_back(ref::head(7, s));
  a.push_back(ref::head(7, 255, 1)); a.push_back(ref::head(7, 0x3C01, 2)); a.push_back(ref::f32(1.5f)); a.push_back(ref::f64(-2.25));
  a.push_back(S("\x1c")); a.push_back(S("\x5f")); a.push_back(S("\xff"));
  return a;
}
static const std::vector<S> ALPHA = alphabet();

static void seq(unsigned n) {
  S b;
  for (unsigned i = 0; i < n; i++) b += mc::pick(ALPHA);
  mc::op("reading %s", mc::hex(b).c_str());
  decode(b, n < 3);
  for (size_t cut = 1; cut < b.size() && n < 3; cut++) decode(b.substr(0, cut), false);
}

static const uint8_t SET[] = {0x00, 0x01, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x20, 0x37, 0x38, 0x39, 0x3a, 0x3b, 0x40, 0x41, 0x42, 0x58, 0x59, 0x5a, 0x5f, 0x60, 0x61, 0x62, 0x78, 0x79, 0x7b, 0x7f, 0x80, 0x81, 0x98, 0x99, 0x9f, 0xa0, 0xa1, 0xb8, 0xbf, 0xc0, 0xc2, 0xd8, 0xd9, 0xda, 0xdb, 0xe0, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa, 0xfb, 0xff, 0xfe, 0xfc};
static void raw(unsigned full, unsigned reduced) {
  S b;
  for (unsigned i = 0; i < full; i++) b += (char) mc::choose(256);
  for (unsigned i = 0; i < reduced; i++) b += (char) mc::pick(SET);
  mc::op("reading %s", mc::hex(b).c_str());
  decode(b, full + reduced < 3);
}

/* The writer */
struct Fixed {                                           // a fixed output buffer, watched for overruns by the address sanitizer
  std::unique_ptr<uint8_t[]> buf; cbor::output_static out;
  Fixed(uint32_t n) : buf(new uint8_t[n ? n : 1]), out(n, buf.get()) {}
};
template <class F> static void writes(const char* what, const S& want, F f) {
  mc::steps(4);
  StringBuilder sb; cbor::output_stringbuilder so(&sb);
  { cbor::encoder e(so); f(e); }
  S got((char*) sb.string(), (size_t) sb.length());
  MC_CHECK(got == want, "encoding", "%s is written %s, the standard encoding is %s", what, mc::hex(got.substr(0, 40)).c_str(), mc::hex(want.substr(0, 40)).c_str());
  MC_CHECK(so.size() == want.size(), "encoding", "%s: the string output reports %u bytes, %zu were written", what, so.size(), want.size());
  const uint32_t caps[] = {(uint32_t) want.size(), (uint32_t) want.size() + 1, (uint32_t) want.size() - 1, 1};
  for (uint32_t c : caps) {
    if (c == 0 || want.empty()) continue;
    Fixed fx(c); { cbor::encoder e(fx.out); f(e); }
    MC_CHECK(fx.out.size() <= c, "capacity", "%s: a fixed output of %u bytes reports %u", what, c, fx.out.size());
    if (c >= want.size()) MC_CHECK(fx.out.size() == want.size() && 0 == memcmp(fx.out.data(), want.data(), want.size()), "encoding", "%s: a fixed output of %u bytes holds something else", what, c);
    cbor::output_static own(c); { cbor::encoder e(own); f(e); }
    if (c >= want.size()) MC_CHECK(own.size() == want.size() && 0 == memcmp(own.data(), want.data(), want.size()), "encoding", "%s: an allocated output of %u bytes holds something else", what, c);
  }
}
template <class T> static void wint(const char* t) {
  for (uint64_t a : ARGS) for (int neg = 0; neg < 2; neg++) {
    T v = (T) (neg ? ~a : a);
    char w[64]; snprintf(w, sizeof(w), "%s %s", t, dec(v).c_str());
    writes(w, ref::integer(v), [&](cbor::encoder& e) { e.write_int(v); });
  }
}
template <class T> static void warr(unsigned tag, const char* t) {
  std::vector<T> v;
  for (unsigned n = 0; n < 40; n++) {
    S raw((const char*) v.data(), n * sizeof(T));
    char w[64]; snprintf(w, sizeof(w), "an array of %u %s", n, t);
    int8_t r = 99;
    writes(w, n ? ref::head(6, tag) + ref::bytes(raw) : S(), [&](cbor::encoder& e) { r = e.write_typed_array(v.data(), n); });
    MC_CHECK(r == (n ? 0 : -2), "encoding", "writing %s returned %d", w, r);
    v.push_back((T) (n * 37 - 11));
  }
}
static void writer() {
  const int64_t base = mc::live_blocks();
  const unsigned k = mc::choose(14);
  mc::op("writing items of kind %u", k);
  switch (k) {
    case 0: wint<int8_t>("int8"); break;     case 1: wint<int16_t>("int16"); break;   case 2: wint<int32_t>("int32"); break;   case 3: wint<int64_t>("int64"); break;
    case 4: wint<uint8_t>("uint8"); break;   case 5: wint<uint16_t>("uint16"); break; case 6: wint<uint32_t>("uint32"); break; case 7: wint<uint64_t>("uint64"); break;
    case 8: for (uint64_t a : ARGS) { if (a > 0xFFFFFFFFu) continue; uint32_t v = (uint32_t) a;
        writes("tag", ref::head(6, v), [&](cbor::encoder& e) { e.write_tag(v); });
        writes("array head", ref::head(4, v), [&](cbor::encoder& e) { e.write_array(v); });
        writes("map head", ref::head(5, v), [&](cbor::encoder& e) { e.write_map(v); });
        if (v < 24 || (v >= 32 && v < 256)) writes("simple value", ref::head(7, v), [&](cbor::encoder& e) { e.write_special(v); });
        float f; memcpy(&f, &v, 4); writes("float", ref::head(7, v, 4), [&](cbor::encoder& e) { e.write_float(f); });
      } break;
    case 9: for (uint64_t v : ARGS) { double f; memcpy(&f, &v, 8); writes("double", ref::head(7, v, 8), [&](cbor::encoder& e) { e.write_double(f); }); }
      writes("false", S("\xf4"), [&](cbor::encoder& e) { e.write_bool(false); }); writes("true", S("\xf5"), [&](cbor::encoder& e) { e.write_bool(true); });
      break;
    case 10: for (uint64_t v : ARGS) { if (v > 0x10001) continue; S c = fill((size_t) v, 3);
        writes("byte string", ref::bytes(c), [&](cbor::encoder& e) { e.write_bytes((const uint8_t*) c.data(), (uint32_t) c.size()); });
        writes("text", ref::text(c), [&](cbor::encoder& e) { e.write_string(c.data(), (uint32_t) c.size()); });
        writes("C string", ref::text(c), [&](cbor::encoder& e) { e.write_string(c.c_str()); });
      } break;
    case 11: warr<uint8_t>(64, "uint8"); warr<int8_t>(72, "int8"); warr<uint16_t>(69, "uint16"); break;
    case 12: warr<int16_t>(77, "int16"); warr<uint32_t>(70, "uint32"); warr<int32_t>(78, "int32"); warr<float>(85, "float"); break;
    case 13: warr<uint64_t>(71, "uint64"); warr<int64_t>(79, "int64"); warr<double>(86, "double"); break;
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "writing: %lld blocks not released", (long long) (mc::live_blocks() - base));
}
/* What the writer writes, the reader reads: sequences of writes through one encoder. */
static void wseq(unsigned n) {
  StringBuilder sb; cbor::output_stringbuilder so(&sb); cbor::encoder e(so);
  S want;
  for (unsigned i = 0; i < n; i++) switch (mc::choose(10)) {
    case 0: e.write_int((uint64_t) 300); want += ref::integer(300); break;
    case 1: e.write_int((int64_t) -70000); want += ref::integer(-70000); break;
    case 2: e.write_int((int8_t) -1); want += ref::integer(-1); break;
    case 3: e.write_bytes((const uint8_t*) "ab", 2); want += ref::bytes("ab"); break;
    case 4: e.write_string("c"); want += ref::text("c"); break;
    case 5: e.write_array(2); want += ref::head(4, 2); break;
    case 6: e.write_map(1); want += ref::head(5, 1); break;
    case 7: e.write_tag(64); want += ref::head(6, 64); break;
    case 8: e.write_bool(true); want += "\xf5"; break;
    case 9: e.write_double(1.5); want += ref::f64(1.5); break;
  }
  S got((char*) sb.string(), (size_t) sb.length());
  mc::op("writing %s", mc::hex(want).c_str());
  MC_CHECK(got == want, "encoding", "a sequence is written %s, the standard encoding is %s", mc::hex(got).c_str(), mc::hex(want).c_str());
  decode(got, false);
}

int main(int argc, char** argv) {
  const bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  std::vector<mc::Config> c;
  c.push_back({"writer", writer, 1, "every writing operation on 41 arguments either side of every width boundary, typed arrays of 0..39 elements, into strings and fixed buffers of one byte less, the exact size and one more"});
  c.push_back({"write-sequences", [=]{ wseq(th ? 5 : 3); }, 2, th ? "every sequence of 5 writes of 10 kinds, written and read" : "every sequence of 3 writes of 10 kinds, written and read"});
  c.push_back({"items", items, 2, "8 major types x 41 arguments x the 5 widths they fit, contents up to 65537 bytes; from a buffer, a string, a consumed string, whole, in two pieces at every point and byte by byte"});
  c.push_back({"pairs", []{ seq(2); }, 2, "every ordered pair of 66 items of all kinds, and every truncation of it, likewise"});
  if (th) c.push_back({"triples", []{ seq(3); }, 2, "every ordered triple of 66 items of all kinds"});
  c.push_back({"bytes", [=]{ raw(2, th ? 2 : 1); }, 2, th ? "every string of two bytes and two more from 56 chosen ones" : "every string of two bytes and one more from 56 chosen ones"});
  return mc::main(argc, argv, "C19", c, {
    "the documented limits of the reader are taken as given: indefinite and 64-bit lengths of strings and containers are errors; half floats and one-byte simple values are reported as their code; text is delivered null-terminated (what follows a null in it is not compared)"});
}
