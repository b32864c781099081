/* C17: parsing hostile or truncated CBOR is safe and never invents data. */
#include "cborval.h"
#include <set>
#include <algorithm>

using val::S; using val::L;

/* Parse everything that can be parsed from b, and compare each value with what its bytes mean. */
static void parse(const S& b, unsigned frag, bool consume) {
  const int64_t base = quiet_blocks();
  {
    StringBuilder sb;
    if (frag) for (size_t i = 0; i < b.size(); i += frag) sb.concat((uint8_t*) b.data() + i, (int) std::min<size_t>(frag, b.size() - i));
    else if (!b.empty()) sb.concat((uint8_t*) b.data(), (int) b.size());
    C3PValueDecoder d(&sb);
    size_t at = 0;
    for (unsigned n = 0; n < 40; n++) {
      mc::steps(1);
      size_t end = at; L want; int r = at < b.size() ? val::read(b, end, want) : 0;
      C3PValue* v = d.next(consume);
      const size_t left = (size_t) sb.length();
      MC_CHECK(left <= b.size() - at, "consumed", "parsing %s at %zu: %zu bytes are left of %zu", mc::hex(b).c_str(), at, left, b.size() - at);
      const size_t taken = b.size() - at - left;
      MC_CHECK(left == 0 || 0 == memcmp(sb.string(), b.data() + at + taken, left), "rest", "parsing %s at %zu altered the bytes that follow", mc::hex(b).c_str(), at);
      if (v) {
        S got = val::show(v);
        if (r == 0) mc::fail("invented", "parsing %s at %zu: the bytes encode no complete value, but %s was delivered", mc::hex(b).c_str(), at, got.substr(0, 200).c_str());
        if (r == 1) MC_CHECK(got == val::join(want), "value", "parsing %s at %zu: delivered %s, the bytes encode %s", mc::hex(b).c_str(), at, got.substr(0, 200).c_str(), val::join(want).substr(0, 200).c_str());
        MC_CHECK(taken == end - at, "consumed", "parsing %s at %zu: consumed %zu bytes for an item of %zu", mc::hex(b).c_str(), at, taken, end - at);
        delete v;
        at += taken;
      }
      else {
        MC_CHECK(r != 1, "lost", "parsing %s at %zu: the bytes encode %s, but nothing was delivered", mc::hex(b).c_str(), at, val::join(want).substr(0, 200).c_str());
        if (taken) {                                     // a simple value without meaning here may be skipped, if asked for
          ref::Head h; int hr = ref::read_head(b, at, h);
          const bool simple = at < b.size() && ((uint8_t) b[at] >> 5) == 7;
          MC_CHECK(consume && simple && (hr < 0 ? taken == 1 : hr == 1 && taken == h.len), "consumed", "parsing %s at %zu: nothing delivered, but %zu bytes consumed", mc::hex(b).c_str(), at, taken);
          at += taken;
        }
        else break;
      }
    }
  }
  MC_CHECK(quiet_blocks() == base, "leak", "parsing %s: %lld blocks not released", mc::hex(b.substr(0, 60)).c_str(), (long long) (quiet_blocks() - base));
}
static void both(const S& b) { parse(b, 0, false); parse(b, 1, true); }

static S vendor(TCode tc) { return ref::head(6, val::VENDOR | (uint8_t) tc, 4); }
static S vec(TCode tc, unsigned tag, unsigned size) { S c; for (unsigned i = 0; i < size; i++) c += (char) (0x11 * (i + 1)); return vendor(tc) + ref::head(6, tag) + ref::bytes(c); }
static S map(std::initializer_list<S> kv) { S r = ref::head(5, kv.size() / 2); for (auto& x : kv) r += x; return r; }
static S arr(std::initializer_list<S> v) { S r = ref::head(4, v.size()); for (auto& x : v) r += x; return r; }
static S T(const char* s) { return ref::text(s); }
static S I(int64_t v) { return ref::integer(v); }

static std::vector<S> messages() {
  std::vector<S> m;
  m.push_back(I(0) + I(24) + I(256) + I(70000) + I(0x123456789ALL));
  m.push_back(I(-1) + I(-25) + I(-128) + I(-129) + I(-32768) + I(-32769));
  m.push_back(I(-2147483648LL) + I(-2147483649LL) + I(INT64_MIN));
  m.push_back(ref::f32(1.5f) + ref::f64(-2.5) + "\xf5\xf4\xf6\xf7");
  m.push_back(T("") + T("a") + T("hello") + ref::bytes("") + ref::bytes("xyz"));
  m.push_back(ref::head(3, 2, 1) + "ab" + ref::head(2, 3, 2) + "cde" + ref::head(3, 1, 4) + "f" + ref::head(2, 1, 8) + "g");
  m.push_back(arr({I(1), I(2), T("x")}));
  m.push_back(arr({arr({I(1), I(-2)}), arr({arr({T("q")}), ref::bytes("zz")})}));
  m.push_back(map({T("a"), I(1), T("b"), T("two")}));
  m.push_back(map({T("a"), map({T("b"), I(3), T("c"), T("d")}), T("e"), ref::f32(2.0f)}));
  m.push_back(map({T("a"), arr({I(1), I(2)}), T("b"), I(3)}));
  m.push_back(map({T(""), T(""), T("k"), "\xf6", T("z"), ref::bytes("")}));
  m.push_back(map({T("a"), arr({map({T("b"), I(1)}), I(2)}), T("c"), "\xf5"}));
  m.push_back(arr({map({T("b"), ref::bytes("pq")}), T("tail"), map({T("c"), ref::f64(1)})}));
  m.push_back(map({T("a"), map({T("b"), map({T("c"), map({T("d"), I(-1)})})})}));
  for (auto& a : val::AXES) m.push_back(vec(a.tc, a.tag_le, a.size));
  m.push_back(map({T("v"), vec(TCode::VECT_3_INT16, 77, 6), T("n"), I(5)}));
  m.push_back(arr({vec(TCode::VECT_3_FLOAT, 85, 12), vec(TCode::VECT_3_UINT8, 64, 3)}));
  m.push_back(vendor(TCode::STOPWATCH) + map({T("e"), I(3), T("t"), I(300), T("a"), I(100), T("w"), I(150), T("b"), I(50), T("l"), I(99)}));
  m.push_back(map({T("s"), vendor(TCode::STOPWATCH) + map({T("g"), I(70000), T("e"), I(1)}), T("x"), I(2)}));
  m.push_back(vendor(TCode::TIMESERIES) + map({T("tc"), I(3), T("win"), I(3), T("ttl"), I(4), T("n"), T("nm"), T("idx"), I(1), T("dat"), arr({I(7), I(8), I(9)})}));
  m.push_back(vendor(TCode::TIMESERIES) + map({T("tc"), I(1), T("win"), I(2), T("ttl"), I(2), T("idx"), I(0), T("dat"), arr({I(1), I(2)})}));
  m.push_back(vendor(TCode::KVP) + map({T("a"), I(1)}));
  m.push_back(vendor(TCode::UINT32) + ref::bytes(S("\1\2\3\4", 4)));
  m.push_back(vendor(TCode::BINARY) + ref::bytes("blob"));
  m.push_back(vendor(TCode::STR) + T("text") + vendor(TCode::IMAGE) + ref::bytes("imagebytes"));
  m.push_back(ref::head(6, 2) + ref::bytes("big") + ref::head(6, 0x123456789ULL) + I(4));
  m.push_back(vendor(TCode::VECT_3_FLOAT) + ref::head(6, 85) + ref::head(6, 85) + ref::bytes("123456789012"));
  m.push_back(ref::head(4, 0) + ref::head(5, 0) + ref::head(7, 16) + ref::head(7, 0x3C00, 2) + ref::head(7, 200, 1));
  return m;
}
static const std::vector<S> MSG = messages();

static const uint8_t SET[] = {0x00, 0x01, 0x02, 0x03, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x20, 0x37, 0x38, 0x39, 0x3a, 0x3b, 0x3d, 0x40, 0x41, 0x42, 0x44, 0x58, 0x59, 0x5a, 0x5b, 0x5f, 0x60, 0x61, 0x62, 0x66, 0x78, 0x79, 0x7a, 0x7b, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x98, 0x99, 0x9a, 0x9b, 0x9f, 0xa0, 0xa1,
  0xa2, 0xb8, 0xba, 0xbb, 0xbf, 0xc0, 0xc2, 0xd8, 0xd9, 0xda, 0xdb, 0xe0, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa, 0xfb, 0xfc, 0xfe, 0xff};

static void raw(unsigned full, unsigned reduced) {
  S b;
  for (unsigned i = 0; i < full; i++) b += (char) mc::choose(256);
  for (unsigned i = 0; i < reduced; i++) b += (char) mc::pick(SET);
  mc::op("parsing %s", mc::hex(b).c_str());
  both(b);
}
static void truncated() {
  const S& m = mc::pick(MSG);
  const S b = m.substr(0, mc::choose((uint32_t) m.size() + 1)) ;
  mc::op("parsing %s", mc::hex(b).c_str());
  for (unsigned frag = 0; frag < 4; frag++) for (int c = 0; c < 2; c++) parse(b, frag, c != 0);
}
static void mutated(unsigned times) {
  S b = mc::pick(MSG);
  for (unsigned i = 0; i < times; i++) {
    const unsigned at = mc::choose((uint32_t) b.size());
    if (times == 1) switch (mc::choose(3)) {
      case 0: b[at] = (char) mc::choose(256); break;
      case 1: b.erase(at, 1); break;
      case 2: b.insert(at, 1, (char) mc::choose(256)); break;
    }
    else b[at] = (char) mc::pick(SET);
  }
  mc::op("parsing %s", mc::hex(b).c_str());
  both(b);
}
/* Counts and lengths far beyond the input, in every width. */
static void sizes() {
  static const uint64_t N[] = {5, 23, 24, 255, 256, 65535, 65536, 0x7FFFFFFE, 0x7FFFFFFF, 0x80000000ULL, 0x80000001ULL, 0xFFFFFFF0ULL, 0xFFFFFFFCULL, 0xFFFFFFFDULL, 0xFFFFFFFEULL, 0xFFFFFFFFULL, 0x100000000ULL, 0x100000001ULL, 0x100000002ULL, 0x8000000000000000ULL, 0x8000000000000001ULL, 0xFFFFFFFFFFFFFFFFULL, 0xFFFFFFFF00000001ULL};
  static const int FORM[] = {1, 2, 4, 8};
  const uint64_t n = mc::pick(N); const int form = mc::pick(FORM);
  if (!ref::fits(n, form)) throw mc::Prune();
  const int major = 2 + (int) mc::choose(5);
  S item = ref::head(major, n, form) + mc::pick(std::vector<S>{S(), S("\x01"), S("\x61" "a\x01"), S("\x61" "a\x01\x61" "b\x02"), S("\x01\x02\x03\x04\x05")});
  switch (mc::choose(5)) {
    case 0: break;
    case 1: item = ref::head(4, 1) + item; break;
    case 2: item = ref::head(4, 2) + I(1) + item; break;
    case 3: item = ref::head(5, 1) + T("k") + item; break;
    case 4: item = ref::head(5, 1) + (major == 3 ? item : T("k") + item); break;
  }
  mc::op("parsing %s", mc::hex(item).c_str());
  both(item);
}
/* Every vector type with every typed-array tag and content length. */
static void vectors() {
  const val::Axis& a = val::AXES[mc::choose(8)];
  static const unsigned TAGS[] = {0, 23, 24, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 255, 256, 65600};
  const unsigned tag = mc::pick(TAGS), len = mc::choose(28);
  const int form = (int) mc::choose(3);
  S b = vendor(a.tc) + (form == 0 ? ref::head(6, tag) : ref::head(6, tag, form == 1 ? 4 : 8));
  S c; for (unsigned i = 0; i < len; i++) c += (char) (i * 9 + 1);
  b += mc::flip() ? ref::bytes(c) : ref::text(c);
  mc::op("parsing %s", mc::hex(b).c_str());
  both(b);
}
/* Containers nested in containers. */
static void nested() {
  static const unsigned N[] = {1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 100, 1000, 20000, 200000};
  const unsigned n = mc::pick(N); const bool m = mc::flip(), done = mc::flip();
  S b; b.reserve(n * 3 + 1);
  for (unsigned i = 0; i < n; i++) b += m ? S("\xa1\x61" "k") : S("\x81");
  if (done) b += "\x05";
  mc::op("parsing %u nested %s%s", n, m ? "maps" : "arrays", done ? "" : ", truncated");
  const int64_t base = quiet_blocks();
  {
    StringBuilder sb; sb.concat((uint8_t*) b.data(), (int) b.size());
    C3PValueDecoder d(&sb);
    C3PValue* v = d.next(false);
    if (n <= 8) MC_CHECK((v != nullptr) == done, "depth", "%u nested %s: %s delivered", n, m ? "maps" : "arrays", v ? "a value was" : "nothing was");
    if (!done) MC_CHECK(v == nullptr, "invented", "%u nested and truncated %s delivered a value", n, m ? "maps" : "arrays");
    if (v) { size_t at = 0; L want; if (n <= 100 && val::read(b, at, want) == 1) MC_CHECK(val::show(v) == val::join(want), "value", "%u nested %s: another value was delivered", n, m ? "maps" : "arrays"); delete v; }
  }
  MC_CHECK(quiet_blocks() == base, "leak", "%u nested %s: %lld blocks not released", n, m ? "maps" : "arrays", (long long) (quiet_blocks() - base));
}
static void large() {                                    // a string or blob of several megabytes does not exhaust the stack
  const bool text = mc::flip(), as_key = mc::flip(); const unsigned mb = mc::flip() ? 1 : 9;
  S c(mb << 20, 'q');
  S b = as_key ? ref::head(5, 1) + ref::text(c) + I(1) : text ? ref::text(c) : ref::bytes(c);
  mc::op("parsing %u MB of %s", mb, as_key ? "key" : text ? "text" : "bytes");
  parse(b, 0, false);
}

/* Objects whose parts are of any type, missing, doubled, or out of order. */
static void objects() {
  static const std::vector<S> V = {I(0), I(1), I(2), I(3), I(4), I(9), I(200), I(300), I(70000), I(0x123456789ALL), I(-1), I(-300), I(INT64_MIN), I(0x40000001), I(0x80000001LL), I(0xFFFFFFFFLL), ref::f32(2.0f), ref::f64(1e300), "\xf5", "\xf6", T(""), T("nm"), T("a string of more than a few characters, long enough"),
    ref::bytes(""), ref::bytes("12345678901234567890123456789012"), arr({I(1), I(2), I(3)}), arr({I(1), T("x"), ref::f64(3), map({T("y"), I(1)})}), map({T("z"), I(1)}), vec(TCode::VECT_3_DOUBLE, 86, 24), vec(TCode::VECT_3_UINT8, 64, 3)};
  const bool ts = mc::flip();
  static const char* KT[] = {"tc", "win", "ttl", "n", "u", "idx", "dat"}; static const char* KS[] = {"g", "e", "t", "a", "w", "b", "l"};
  const char** K = ts ? KT : KS;
  std::vector<std::pair<S, S>> kv;
  static const uint8_t TCS[] = {1, 2, 3, 4, 6, 7, 8, 9, 12, 13};
  for (unsigned i = 0; i < 7; i++) kv.push_back({K[i], ts ? (i == 3 ? T("nm") : i == 4 ? T("V") : i == 5 ? I(1) : i == 6 ? arr({I(7), I(8), I(9)}) : i == 2 ? I(4) : i == 1 ? I(3) : I(mc::pick(TCS))) : I(i * 100)});
  const unsigned a = mc::choose(7); const S va = mc::pick(V);
  switch (mc::choose(4)) {
    case 0: kv[a].second = va; break;                                                    // one altered, and maybe another
    case 1: { const unsigned b = mc::choose(7); kv[a].second = va; kv[b].second = mc::pick(V); break; }
    case 2: kv.insert(kv.begin() + mc::choose(8), {K[a], va}); break;                    // a second one
    case 3: kv[a].second = va; { const unsigned b = mc::choose(7); if (mc::flip()) kv.erase(kv.begin() + b); else std::rotate(kv.begin(), kv.begin() + b, kv.end()); } break;
  }
  S b = vendor(ts ? TCode::TIMESERIES : TCode::STOPWATCH) + ref::head(5, kv.size());
  for (auto& x : kv) b += T(x.first.c_str()) + x.second;
  mc::op("parsing %s", mc::hex(b).c_str());
  both(b);
}
/* Containers with very many elements, complete or short of one. */
static void many() {
  static const unsigned N[] = {255, 256, 65535, 65536, 300000};
  const unsigned n = mc::pick(N); const bool m = mc::flip(), done = mc::flip(), key = mc::flip();
  S b = key ? ref::head(5, 1) + T("k") : S();
  b += ref::head(m ? 5 : 4, n); b.reserve(n * 3 + 20);
  for (unsigned i = 0; i + (done ? 0 : 1) < n; i++) { if (m) { b += "\x61"; b += (char) ('a' + i % 26); } b += (char) (i % 24); }
  mc::op("parsing %s of %u%s", m ? "a map" : "an array", n, done ? "" : ", short of one");
  const int64_t base = quiet_blocks();
  {
    StringBuilder sb; sb.concat((uint8_t*) b.data(), (int) b.size());
    C3PValueDecoder d(&sb);
    C3PValue* v = d.next(false);
    MC_CHECK((v != nullptr) == done, done ? "lost" : "invented", "%s of %u%s: %s delivered", m ? "a map" : "an array", n, done ? "" : ", short of one", v ? "a value was" : "nothing was");
    MC_CHECK(sb.length() == (done ? 0 : (int) b.size()), "consumed", "%d bytes are left", sb.length());
    if (v) {
      C3PValue* e = v; KeyValuePair* in = nullptr;
      if (key && m) { MC_CHECK(v->has_key() && v->get_as(&in) == 0 && in, "value", "the map does not come as the value of its key"); e = in; }
      unsigned i = 0; uint8_t x = 0;
      for (; e; e = e->nextValue(), i++) if (e->get_as(&x) != 0 || x != i % 24) mc::fail("value", "element %u of %u reads %u", i, n, x);
      MC_CHECK(i == n, "value", "%u of %u elements were delivered", i, n);
      MC_CHECK((key && m ? (C3PValue*) in : v)->count() == n, "value", "the count of elements is not %u", n);
      delete v;
    }
  }
  MC_CHECK(quiet_blocks() == base, "leak", "%lld blocks not released", (long long) (quiet_blocks() - base));
}

int main(int argc, char** argv) {
  const bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  std::vector<mc::Config> c;
  c.push_back({"truncated", truncated, 2, "every truncation of 37 messages of every kind of item, in 4 fragmentations, with and without skipping"});
  c.push_back({"sizes", sizes, 3, "23 lengths and counts around every limit x 4 widths x string, text, array, map, tag x 5 contents x 5 surroundings"});
  c.push_back({"vectors", vectors, 2, "8 vector types x 31 array tags x 3 widths x 28 content lengths, bytes and text"});
  c.push_back({"nested", nested, 2, "1 to 200000 nested arrays or maps, complete and truncated"});
  c.push_back({"large", large, 2, "strings, blobs and keys of 1 and 9 MB"});
  c.push_back({"objects", objects, 3, "time series of 10 types and stopwatches, with any one or two of their parts replaced by any of 30 values of every type, doubled, left out, or in another order"});
  c.push_back({"many", many, 2, "arrays and maps of 255 to 300000 elements, complete and short of one, alone and as a map's value"});
  c.push_back({"mutated", []{ mutated(1); }, 2, "every message with any one byte replaced by any other, left out, or any byte inserted"});
  c.push_back({"bytes", [=]{ raw(2, th ? 2 : 1); }, 2, th ? "every string of two bytes and two more from 70 chosen ones" : "every string of two bytes and one more from 70 chosen ones"});
  if (th) c.push_back({"mutated-twice", []{ mutated(2); }, 3, "every message with any two bytes replaced by any of 70 chosen ones"});
  return mc::main(argc, argv, "C17", c, {
    "nested arrays are delivered as one flat chain, and the elements of an array that is a map's value follow that pair in the chain (the value model has no arrays of its own)",
    "text and keys are C strings: what follows an embedded null is not compared", "integers below -2^63, empty containers, unknown tags and simple values have no counterpart in the value model: nothing may be delivered for them",
    "nesting deeper than 8 may be refused", "the content of tagged stopwatches and time series is checked for memory safety and consumption only"});
}
