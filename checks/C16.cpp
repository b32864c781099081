/* C16: every value survives serialization and parsing. */
#include "cborval.h"
#include <map>
#include "TimerTools/TimerTools.h"
#include <functional>
#include <float.h>

using val::S; using val::L;
#ifdef __clang__
#endif
struct Item { S name; std::function<C3PValue*(const char* key)> make; S want; };       // with a key: as a pair

template <class T> static C3PValue* mk(const char* key, T v) { return key ? (C3PValue*) new KeyValuePair(key, v) : new C3PValue(v); }
template <class T> static void ints(std::vector<Item>& r, const char* t, std::initializer_list<T> vs) { for (T v : vs) r.push_back({S(t) + " " + val::dec(v), [v](const char* k){ return mk<T>(k, v); }, "i" + val::dec(v)}); }
template <class V, class E> static void vect(std::vector<Item>& r, const char* t, TCode tc, std::initializer_list<E> es) {
  std::vector<E> e(es);
  for (size_t i = 0; i + 2 < e.size(); i++) {
    E c[3] = {e[i], e[i + 1], e[i + 2]};
    S raw((const char*) c, sizeof(c));
    r.push_back({t, [raw](const char* k) -> C3PValue* { E c[3]; memcpy(c, raw.data(), sizeof(c)); V v(c[0], c[1], c[2]); return mk<V*>(k, &v); }, "v" + val::num((uint8_t) tc) + ":" + mc::hex(raw)});
  }
}
static const size_t LENS[] = {0, 1, 2, 22, 23, 24, 25, 255, 256, 257, 65535, 65536, 65537};
static S fill(size_t n, int seed) { S r; for (size_t i = 0; i < n; i++) r += (char) (1 + (i * 7 + seed) % 255); return r; }
static std::vector<S> TEXTS, BLOBS;

static std::vector<Item> table() {
  std::vector<Item> r;
  ints<uint8_t>(r, "uint8", {0, 1, 23, 24, 127, 128, 255});
  ints<uint16_t>(r, "uint16", {0, 23, 24, 255, 256, 257, 32767, 32768, 65535});
  ints<uint32_t>(r, "uint32", {0, 255, 256, 65535, 65536, 65537, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu});
  ints<uint64_t>(r, "uint64", {0, 24, 255, 256, 300, 65535, 65536, 0xFFFFFFFFu, 0x100000000ULL, 0x7FFFFFFFFFFFFFFFULL, 0x8000000000000000ULL, 0xFFFFFFFFFFFFFFFFULL});
  ints<int8_t>(r, "int8", {0, 1, 23, 24, 127, -1, -24, -25, -127, -128});
  ints<int16_t>(r, "int16", {0, 24, 256, 32767, -1, -24, -25, -128, -129, -256, -257, -32768});
  ints<int32_t>(r, "int32", {0, 65536, INT32_MAX, -1, -129, -32768, -32769, -65536, -65537, INT32_MIN});
  ints<int64_t>(r, "int64", {0, 256, 1LL << 32, INT64_MAX, -1, -257, -65537, (int64_t) INT32_MIN, (int64_t) INT32_MIN - 1, -(1LL << 32), -(1LL << 32) - 1, INT64_MIN + 1, INT64_MIN});
  for (bool b : {false, true}) r.push_back({b ? "true" : "false", [b](const char* k){ return mk<bool>(k, b); }, b ? "T" : "F"});
  for (uint32_t u : {0u, 0x80000000u, 0x3F800000u, 0xBF800001u, 1u, 0x00800000u, 0x7F7FFFFFu, 0x7F800000u, 0xFF800000u, 0x7FC00000u, 0x01020304u}) { char w[16]; snprintf(w, sizeof(w), "f%08x", u); r.push_back({S("float ") + w, [u](const char* k){ float f; memcpy(&f, &u, 4); return mk<float>(k, f); }, w}); }
  for (uint64_t u : {0ULL, 0x8000000000000000ULL, 0x3FF0000000000000ULL, 0xBFF0000000000001ULL, 1ULL, 0x7FEFFFFFFFFFFFFFULL, 0x7FF0000000000000ULL, 0x7FF8000000000000ULL, 0x0102030405060708ULL}) { char w[32]; snprintf(w, sizeof(w), "d%016llx", (unsigned long long) u); r.push_back({S("double ") + w, [u](const char* k){ double f; memcpy(&f, &u, 8); return mk<double>(k, f); }, w}); }
  for (size_t i = 0; i < TEXTS.size(); i++) {
    S t = TEXTS[i];
    r.push_back({"text of " + val::num(t.size()), [i](const char* k){ return mk<const char*>(k, TEXTS[i].c_str()); }, "s" + mc::hex(t)});
    if (!t.empty()) r.push_back({"string builder of " + val::num(t.size()), [i](const char* k) -> C3PValue* { StringBuilder* sb = new StringBuilder(); const S& t = TEXTS[i]; sb->concat((uint8_t*) t.data(), (int) (t.size() / 2)); sb->concat((uint8_t*) t.data() + t.size() / 2, (int) (t.size() - t.size() / 2)); C3PValue* v = mk<StringBuilder*>(k, sb); v->reapValue(true); return v; }, "s" + mc::hex(t)});
  }
  for (size_t i = 0; i < BLOBS.size(); i++) r.push_back({"blob of " + val::num(BLOBS[i].size()), [i](const char* k){ const S& t = BLOBS[i]; return k ? (C3PValue*) new KeyValuePair(k, (uint8_t*) t.data(), (uint32_t) t.size()) : new C3PValue((uint8_t*) t.data(), (uint32_t) t.size()); }, "b" + mc::hex(BLOBS[i])});
  vect<Vector3u8, uint8_t>(r, "vector of uint8", TCode::VECT_3_UINT8, {0, 1, 127, 128, 255, 3});
  vect<Vector3i8, int8_t>(r, "vector of int8", TCode::VECT_3_INT8, {0, -1, 127, -128, 5});
  vect<Vector3u16, uint16_t>(r, "vector of uint16", TCode::VECT_3_UINT16, {0, 0x0102, 0xFFFF, 256, 7});
  vect<Vector3i16, int16_t>(r, "vector of int16", TCode::VECT_3_INT16, {0, -2, 0x0102, INT16_MIN, INT16_MAX});
  vect<Vector3u32, uint32_t>(r, "vector of uint32", TCode::VECT_3_UINT32, {0, 0x01020304, 0xFFFFFFFF, 65536, 9});
  vect<Vector3i32, int32_t>(r, "vector of int32", TCode::VECT_3_INT32, {0, -3, 0x01020304, INT32_MIN, INT32_MAX});
  vect<Vector3f, float>(r, "vector of float", TCode::VECT_3_FLOAT, {0.0f, -1.5f, 3.25e30f, -0.0f, 1e-40f});
  vect<Vector3f64, double>(r, "vector of double", TCode::VECT_3_DOUBLE, {0.0, -1.5, 3.25e300, -0.0, 1e-310});
  // maps
  struct N { static C3PValue* kvp(const char* k, KeyValuePair* m) { C3PValue* v = mk<KeyValuePair*>(k, m); v->reapValue(true); return v; } };
  r.push_back({"map of one", [](const char* k){ return N::kvp(k, new KeyValuePair("x", (uint8_t) 7)); }, "{'78=i7}"});
  r.push_back({"map of three", [](const char* k){ KeyValuePair* m = new KeyValuePair("x", (int32_t) -70000); m->append("str", "key"); m->append(1.5f, "z"); return N::kvp(k, m); }, "{'78=i-70000;'6b6579=s737472;'7a=f3fc00000}"});
  r.push_back({"map in a map", [](const char* k){ KeyValuePair* m = new KeyValuePair("p", (uint8_t) 1); KeyValuePair* n = new KeyValuePair("q", true); n->append((uint16_t) 300, "r"); KeyValuePair* h = new KeyValuePair("n", n); h->reapValue(true); m->link(h); m->append((uint8_t) 2, "t"); return N::kvp(k, m); }, "{'70=i1;'6e={'71=T;'72=i300};'74=i2}"});
  return r;
}
static std::vector<Item> FULL;                           // with every length class
static std::vector<Item> MED;                            // without the long ones
static std::vector<Item> SMALL;                          // one or two of each kind

/* A map value is delivered as its pairs. */
static S as_parsed(const S& want, bool keyed) { return (!keyed && want[0] == '{') ? want.substr(1, want.size() - 2) : want; }

static void prime(const std::vector<Item>& t) { static bool done = false; if (done) return; done = true; for (auto& i : t) { StringBuilder s; C3PValue* v = i.make(nullptr); v->serialize(&s, TCode::CBOR); delete v; } plat::log.clear(); }

/* Serialize values one after another into one buffer; read them back one at a time. */
static void list(const std::vector<Item>& t, unsigned n, bool every_prefix) {
  prime(SMALL);
  std::vector<const Item*> pick;
  for (unsigned i = 0; i < n; i++) pick.push_back(&mc::pick(t));
  const int64_t base = quiet_blocks();
  {
    StringBuilder out; std::vector<S> enc; size_t total = 0;
    for (auto* it : pick) {
      mc::op("serializing %s", it->name.c_str());
      C3PValue* v = it->make(nullptr);
      const S before = val::show(v);
      MC_CHECK(before == it->want || (v->tcode() == TCode::KVP), "build", "%s: the value put in reads %s", it->name.c_str(), before.substr(0, 100).c_str());
      const int r = v->serialize(&out, TCode::CBOR);
      MC_CHECK(r == 0, "serialize", "serializing %s returned %d", it->name.c_str(), r);
      MC_CHECK(val::show(v) == before, "serialize", "serializing %s altered it", it->name.c_str());
      delete v;
      S all((char*) out.string(), (size_t) out.length());
      MC_CHECK(all.size() > total, "serialize", "serializing %s appended nothing", it->name.c_str());
      enc.push_back(all.substr(total)); total = all.size();
      // by an independent reading of the standard, it is one item, and this value
      const S& e = enc.back();
      MC_CHECK(ref::item_len(e, 0) == e.size(), "well-formed", "%s is written %s, which is not one CBOR item", it->name.c_str(), mc::hex(e.substr(0, 40)).c_str());
      size_t at = 0; L got; const int rr = val::read(e, at, got);
      MC_CHECK(rr && at == e.size() && val::join(got) == as_parsed(it->want, false), "encoding", "%s is written %s, which means %s", it->name.c_str(), mc::hex(e.substr(0, 40)).c_str(), val::join(got).substr(0, 100).c_str());
    }
    const S all((char*) out.string(), (size_t) out.length());
    // whole, and with the stream split in two fragments
    for (unsigned frag = 0; frag < 3; frag++) {
      StringBuilder in;
      if (frag == 0 || all.size() > 600) in.concat((uint8_t*) all.data(), (int) all.size());
      else for (size_t i = 0; i < all.size(); i += (frag == 1 ? 1 : 5)) in.concat((uint8_t*) all.data() + i, (int) std::min<size_t>(frag == 1 ? 1 : 5, all.size() - i));
      C3PValueDecoder d(&in);
      size_t left = all.size();
      for (unsigned i = 0; i < n; i++) {
        C3PValue* v = d.next(frag == 2);
        MC_CHECK(v != nullptr, "lost", "%s does not come back", pick[i]->name.c_str());
        const S got = val::show(v);
        MC_CHECK(got == as_parsed(pick[i]->want, false), "value", "%s comes back as %s", pick[i]->name.c_str(), got.substr(0, 200).c_str());
        left -= enc[i].size();
        MC_CHECK((size_t) in.length() == left, "consumed", "reading %s left %d bytes, not %zu", pick[i]->name.c_str(), in.length(), left);
        MC_CHECK(left == 0 || 0 == memcmp(in.string(), all.data() + all.size() - left, left), "rest", "reading %s altered what follows", pick[i]->name.c_str());
        // and survives being written again
        if (v->nextValue() == nullptr || v->has_key()) {
          StringBuilder again; const int r = v->serialize(&again, TCode::CBOR);
          size_t at = 0; L g2; S e2((char*) again.string(), (size_t) again.length());
          MC_CHECK(r == 0 && val::read(e2, at, g2) && at == e2.size() && val::join(g2) == got, "again", "%s, written again, means %s", pick[i]->name.c_str(), val::join(g2).substr(0, 100).c_str());
        }
        delete v;
        mc::steps(1);
      }
      MC_CHECK(d.next() == nullptr, "invented", "a value comes out of nothing");
    }
    if (every_prefix && all.size() <= 60) for (size_t cut = 0; cut < all.size(); cut++) {
      StringBuilder in; if (cut) in.concat((uint8_t*) all.data(), (int) cut);
      C3PValueDecoder d(&in); size_t at = 0;
      for (unsigned i = 0; i < n; i++) {
        C3PValue* v = d.next(); const bool whole = at + enc[i].size() <= cut;
        MC_CHECK((v != nullptr) == whole, "prefix", "%zu bytes of %s: value %u %s", cut, mc::hex(all).c_str(), i, v ? "was delivered early" : "was not delivered");
        if (!v) { MC_CHECK((size_t) in.length() == cut - at, "prefix", "an incomplete value was consumed"); break; }
        delete v; at += enc[i].size();
      }
      // the rest arrives later
      in.concat((uint8_t*) all.data() + cut, (int) (all.size() - cut));
      for (unsigned i = 0; i < n; i++) { size_t end = 0; for (unsigned j = 0; j <= i; j++) end += enc[j].size(); if (end <= cut) continue; C3PValue* v = d.next(); MC_CHECK(v && val::show(v) == as_parsed(pick[i]->want, false), "resume", "after %zu of the bytes of %s and then the rest, value %u does not come", cut, mc::hex(all).c_str(), i); delete v; }
      mc::steps(1);
    }
  }
  MC_CHECK(quiet_blocks() == base, "leak", "%lld blocks not released", (long long) (quiet_blocks() - base));
}
/* A map with n values. */
static void maps(const std::vector<Item>& t, unsigned n) {
  prime(SMALL);
  static const char* KEYS[] = {"a", "bb", "a key that is longer than twenty-three bytes"};
  std::vector<const Item*> pick;
  for (unsigned i = 0; i < n; i++) pick.push_back(&mc::pick(t));
  const int64_t base = quiet_blocks();
  {
    KeyValuePair* m = nullptr; S want;
    for (unsigned i = 0; i < n; i++) {
      mc::op("pair %s: %s", KEYS[i], pick[i]->name.c_str());
      KeyValuePair* k = (KeyValuePair*) pick[i]->make(KEYS[i]);
      if (m) m->link(k); else m = k;
      want += S(i ? ";" : "") + "'" + mc::hex(S(KEYS[i])) + "=" + pick[i]->want;
    }
    MC_CHECK(val::show(m) == want, "build", "the map built reads %s", val::show(m).substr(0, 100).c_str());
    StringBuilder out; const int r = m->serialize(&out, TCode::CBOR);
    MC_CHECK(r == 0, "serialize", "serializing the map returned %d", r);
    const S e((char*) out.string(), (size_t) out.length());
    MC_CHECK(ref::item_len(e, 0) == e.size(), "well-formed", "the map is written %s, which is not one CBOR item", mc::hex(e.substr(0, 60)).c_str());
    size_t at = 0; L got; val::read(e, at, got);
    MC_CHECK(at == e.size() && val::join(got) == want, "encoding", "the map is written %s, which means %s", mc::hex(e.substr(0, 60)).c_str(), val::join(got).substr(0, 100).c_str());
    delete m;
    out.concat((uint8_t*) "\x05", 1);
    C3PValueDecoder d(&out);
    C3PValue* v = d.next();
    MC_CHECK(v && val::show(v) == want, "value", "the map comes back as %s", v ? val::show(v).substr(0, 200).c_str() : "nothing");
    MC_CHECK(out.length() == 1, "consumed", "reading the map left %d bytes, not 1", out.length());
    delete v;
    mc::steps(2);
  }
  MC_CHECK(quiet_blocks() == base, "leak", "%lld blocks not released", (long long) (quiet_blocks() - base));
}
static void stopwatch() {
  static const uint32_t D[] = {0, 1, 23, 24, 255, 256, 65535, 65536, 1000000, 0x7FFFFFFF};
  static const uint32_t TAG[] = {0, 1, 24, 256, 65536, 0xFFFFFFFFu};
  prime(SMALL);
  const int64_t base = quiet_blocks();
  {
    plat::set_ms(5);
    StopWatch* w = new StopWatch(mc::pick(TAG));
    const unsigned n = mc::choose(3);
    for (unsigned i = 0; i < n; i++) { w->markStart(); uint32_t d = mc::pick(D); mc::op("a run of %u us", d); plat::advance_us(d); w->markStop(); }
    C3PValue v(w); v.reapValue(true);
    StringBuilder out; MC_CHECK(v.serialize(&out, TCode::CBOR) == 0, "serialize", "serializing a stopwatch failed");
    const S e((char*) out.string(), (size_t) out.length());
    MC_CHECK(ref::item_len(e, 0) == e.size(), "well-formed", "a stopwatch is written %s, which is not one CBOR item", mc::hex(e).c_str());
    C3PValueDecoder d(&out); C3PValue* p = d.next();
    MC_CHECK(p && p->tcode() == TCode::STOPWATCH && out.length() == 0, "lost", "a stopwatch does not come back whole");
    StopWatch* q = nullptr; MC_CHECK(p->get_as(&q) == 0 && q, "lost", "the stopwatch read back is not there");
    MC_CHECK(q->executions() == w->executions() && q->totalTime() == w->totalTime() && q->meanTime() == w->meanTime() && q->worstTime() == w->worstTime() && q->bestTime() == w->bestTime() && q->lastTime() == w->lastTime() && q->tag() == w->tag(),
      "value", "a stopwatch with %u runs, total %u, best %u, worst %u comes back with %u, %u, %u, %u", w->executions(), w->totalTime(), w->bestTime(), w->worstTime(), q->executions(), q->totalTime(), q->bestTime(), q->worstTime());
    delete p;
    mc::steps(1);
  }
  MC_CHECK(quiet_blocks() == base, "leak", "%lld blocks not released", (long long) (quiet_blocks() - base));
}

int main(int argc, char** argv) {
  const bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  for (size_t n : LENS) { TEXTS.push_back(fill(n, 3)); BLOBS.push_back(fill(n, 200)); }
  for (auto& b : BLOBS) for (size_t i = 0; i < b.size(); i += 3) b[i] = 0;
  FULL = table();
  for (auto& i : FULL) if (th || i.want.size() < 1000) MED.push_back(i);
  std::string last;
  for (auto& i : FULL) { if (i.want.size() > 140) continue; S kind = i.name.substr(0, i.name.find(' ')); static std::map<S, int> seen; if (seen[kind]++ < 3 || i.name.size() % 4 == 0) SMALL.push_back(i); }
  std::vector<mc::Config> c;
  const std::string nf = std::to_string(FULL.size()), ns = std::to_string(SMALL.size());
  c.push_back({"single", []{ list(FULL, 1, true); }, 1, nf + " values: boundaries of every type, strings and blobs at every length class up to 65537, maps; alone, in three fragmentations, every prefix of it"});
  c.push_back({"pairs", []{ list(MED, 2, false); }, 2, "every ordered pair of " + std::to_string(MED.size()) + " values in one stream"});
  c.push_back({"lists", [=]{ list(SMALL, 3, false); }, 3, "every ordered triple of " + ns + " values in one stream"});
  c.push_back({"prefixes", [=]{ list(SMALL, 2, true); }, 2, "every ordered pair of " + ns + " values, every prefix of the stream, then the rest"});
  c.push_back({"map-1", []{ maps(FULL, 1); }, 1, "every one of the " + nf + " values in a map"});
  c.push_back({"map-2", []{ maps(MED, 2); }, 2, "every ordered pair of " + std::to_string(MED.size()) + " values in a map"});
  if (th) c.push_back({"map-3", []{ maps(SMALL, 3); }, 3, "every ordered triple of " + ns + " values in a map"});
  c.push_back({"stopwatch", stopwatch, 2, "stopwatches after 0 to 2 runs of 10 durations, 6 tags"});
  return mc::main(argc, argv, "C16", c, {
    "numbers come back with their value, in whatever width CBOR's shortest form names; a map value comes back as its chain of pairs; a string builder as text",
    "text has no embedded null (a C string to the value model)", "images and identities are outside this property (an image is written as two byte strings, which CBOR does not read as one item)"});
}
