/* C29: configuration records against a map of settings: every conversion, every setting through its stored form, altered stored forms, and histories of two records and one stored image. */
#include "../mc/mc.h"
#include "Storage/RecordTypes/ConfRecord.h"
#include "nums.h"
#include "cborval.h"
#include <memory>
#include <vector>
#include <string>

typedef std::string Bytes;
enum class K : uint8_t { A, B, C, D, E, F, G, H, I, J, L, S, T, V, INVALID };
/* By number of key: 0..10 the numeric types in the order of nums.h, 11 and 12 strings, 13 a vector. */
static const unsigned NK = 14;
static const K KEYS[] = {K::A, K::B, K::C, K::D, K::E, K::F, K::G, K::H, K::I, K::J, K::L, K::S, K::T, K::V};
static const char* const KNAME[] = {"a", "an-int16", "c", "d", "e", "f", "g", "h", "flag", "j", "k", "string", "text", "vector"};
#define D(k, n, t) { K::k, KNAME[n], 0, (uint8_t) TCode::t }
static const EnumDef<K> DEFS[] = { D(A, 0, INT8), D(B, 1, INT16), D(S, 11, STR), D(C, 2, INT32), D(D, 3, INT64), D(E, 4, UINT8), D(F, 5, UINT16), D(V, 13, VECT_3_FLOAT), D(G, 6, UINT32), D(H, 7, UINT64), D(I, 8, BOOLEAN), D(J, 9, FLOAT), D(L, 10, DOUBLE), D(T, 12, STR),
  { K::INVALID, "INVALID", ENUM_FLAG_MASK_INVALID_CATCHALL, (uint8_t) TCode::NONE } };
#undef D
static const EnumDef<K> OLDER[] = { { K::V, "vector", 0, (uint8_t) TCode::VECT_3_FLOAT }, { K::G, "g", 0, (uint8_t) TCode::UINT64 }, { K::S, "string", 0, (uint8_t) TCode::STR }, { K::T, "elsewhere", 0, (uint8_t) TCode::INT8 }, { K::A, "a", 0, (uint8_t) TCode::INT16 },
  { K::INVALID, "INVALID", ENUM_FLAG_MASK_INVALID_CATCHALL, (uint8_t) TCode::NONE } };
static const EnumDef<K> ALIEN[] = { { K::G, "g", 0, (uint8_t) TCode::STR }, { K::S, "string", 0, (uint8_t) TCode::UINT32 }, { K::V, "vector", 0, (uint8_t) TCode::UINT8 }, { K::INVALID, "INVALID", ENUM_FLAG_MASK_INVALID_CATCHALL, (uint8_t) TCode::NONE } };
static const EnumDefList<K> PLAN(DEFS, NK + 1, "Conf"), PLAN_OLDER(OLDER, 6, "Conf"), PLAN_ALIEN(ALIEN, 4, "Conf"), PLAN_OTHER(DEFS, NK + 1, "Other");
typedef ConfRecordValidation<K> Rec;
static Rec& on(Rec& r, K) { return r; }
static ConfRecord& on(Rec& r, const char*) { return r; }

struct V3 { float x, y, z; };
struct M { uint8_t num[11][8]; bool has[2]; Bytes str[2]; V3 v; M() { memset(num, 0, sizeof(num)); has[0] = has[1] = false; v = {0, 0, 0}; } };
static Num read(unsigned t, const uint8_t* b) {
  if (t == 9) { float f; memcpy(&f, b, 4); return F(f); }
  if (t == 10) { double d; memcpy(&d, b, 8); return F(d); }
  uint64_t u = 0; memcpy(&u, b, SIZE[t]);
  if (is_sgn(t)) { const unsigned bits = SIZE[t] * 8; const bool neg = u >> (bits - 1) & 1; if (bits < 64 && neg) u |= ~0ULL << bits; return I(neg, neg ? 0 - u : u); }
  return I(false, u);
}
template <class Q> static int put(Rec& r, Q k, unsigned s, const uint8_t* b) {
  #define G(n, T) case n: { T x; memcpy(&x, b, sizeof(x)); return on(r, k).setConf(k, x); }
  switch (s) { G(0, int8_t) G(1, int16_t) G(2, int32_t) G(3, int64_t) G(4, uint8_t) G(5, uint16_t) G(6, uint32_t) G(7, uint64_t) G(8, bool) G(9, float) G(10, double) }
  #undef G
  return -99;
}
template <class Q> static int get(Rec& r, Q k, unsigned d, uint8_t* b) {
  #define G(n, T) case n: { T x; memset(&x, 0, sizeof(x)); int e = on(r, k).getConf(k, &x); memcpy(b, &x, sizeof(x)); return e; }
  switch (d) { G(0, int8_t) G(1, int16_t) G(2, int32_t) G(3, int64_t) G(4, uint8_t) G(5, uint16_t) G(6, uint32_t) G(7, uint64_t) G(8, bool) G(9, float) G(10, double) }
  #undef G
  return -99;
}
static Bytes text_of(Rec& r, unsigned i, bool* set) { const char* s = nullptr; const int e = ((ConfRecord&) r).getConf(KNAME[11 + i], &s); *set = e == 0 && s; return *set ? Bytes(s) : Bytes(); }
static void is(Rec& r, const M& m, const char* after) {
  for (unsigned t = 0; t < 11; t++) { uint8_t b[8]; const int e = get(r, KNAME[t], t, b), e2 = get(r, KEYS[t], t, b); mc::steps(1); MC_CHECK(e == 0 && e2 == 0 && !memcmp(b, m.num[t], SIZE[t]), "number", "after %s: '%s' (%s) is %s (answers %d, %d), not %s", after, KNAME[t], NAME[t], mc::hex(b, SIZE[t]).c_str(), e, e2, mc::hex(m.num[t], SIZE[t]).c_str()); }
  for (unsigned i = 0; i < 2; i++) { bool set; const Bytes s = text_of(r, i, &set); MC_CHECK(set == m.has[i] && s == m.str[i], "string", "after %s: '%s' is %s '%s', not %s '%s'", after, KNAME[11 + i], set ? "set" : "unset", s.c_str(), m.has[i] ? "set" : "unset", m.str[i].c_str()); }
  Vector3f v(9, 9, 9); const int e = r.getConf(K::V, &v); MC_CHECK(e == 0 && v.x == m.v.x && v.y == m.v.y && v.z == m.v.z, "vector", "after %s: 'vector' is %g,%g,%g (answer %d), not %g,%g,%g", after, v.x, v.y, v.z, e, m.v.x, m.v.y, m.v.z);
}
static void refuses_strangers(Rec& r) {
  uint32_t u = 5; for (const char* k : {"INVALID", "", "A", "aa", "An-int16", "<NO ENUM>", "meta", "Conf"}) MC_CHECK(((ConfRecord&) r).getConf(k, &u) < 0 && ((ConfRecord&) r).setConf(k, u) < 0 && u == 5, "stranger", "the key '%s', which is not of the record, was read or written", k);
  MC_CHECK(r.getConf(K::INVALID, &u) < 0 && r.setConf(K::INVALID, u) < 0, "stranger", "the invalid key was read or written");
  MC_CHECK(r.keyCount() == NK, "keys", "there are %u keys", r.keyCount()); StringBuilder l; r.keyList(&l); MC_CHECK(l.count() == NK, "keys", "%u keys are listed", l.count());
  for (unsigned i = 0; i < NK; i++) { const char* k = l.position(i); MC_CHECK(!strcmp(k, DEFS[i].STR), "keys", "key %u is listed as %s", i, k); }
}
static const std::vector<Num>& some(unsigned t) {
  static std::vector<Num> V[11]; auto& v = V[t]; if (!v.empty()) return v;
  if (is_fp(t) || is_bool(t)) return v = values(t);
  for (const Num& n : values(t)) { bool edge = n.mag <= 2; for (unsigned s : {7, 8, 15, 16, 31, 32, 63}) for (int d = -1; d <= 1; d++) edge |= n.mag == (1ULL << s) + d; edge |= !n.neg && n.mag > ~0ULL - 2; if (edge) v.push_back(n); }
  return v;
}
static void conversions() {
  plat::reset(); const unsigned t = mc::choose(11), s = mc::choose(11); const bool by_name = mc::flip(); mc::op("'%s' (%s) from %s", KNAME[t], NAME[t], NAME[s]); some(s); values(s); const int64_t base = quiet_blocks();
  for (const Num& n : mc::thorough ? values(s) : some(s)) {
    Rec r(1, &PLAN); M m; uint8_t b[8] = {0}, was[8]; const Num first = t == 9 || t == 10 ? F(1.0) : I(false, 1); encode(first, t, m.num[t]); put(r, KEYS[t], t, m.num[t]); memcpy(was, m.num[t], 8);
    encode(n, s, b); const int e = by_name ? put(r, KNAME[t], s, b) : put(r, KEYS[t], s, b); mc::steps(1);
    uint8_t got[8] = {0}; get(r, KEYS[t], t, got); const bool must = required(s, t) && (is_fp(s) || is_fp(t) || is_bool(t) || fits(n, t));
    if (e == 0) MC_CHECK(result_ok(n, t, got), "set", "'%s' (%s) set to %s %s is %s", KNAME[t], NAME[t], NAME[s], text(n).c_str(), mc::hex(got, SIZE[t]).c_str());
    else MC_CHECK(e == -3 && !must && !memcmp(got, was, SIZE[t]), "set", "'%s' (%s) set to %s %s was answered %d; it is %s", KNAME[t], NAME[t], NAME[s], text(n).c_str(), e, mc::hex(got, SIZE[t]).c_str());
    memcpy(m.num[t], got, SIZE[t]); is(r, m, "a conversion");
    const Num h = read(t, got);
    for (unsigned d = 0; d < 11; d++) { uint8_t o[8]; const int g = get(r, KNAME[t], d, o); const bool mustg = required(t, d) && (is_fp(t) || is_fp(d) || is_bool(d) || fits(h, d));
      MC_CHECK(g == 0 ? result_ok(h, d, o) : (g == -3 && !mustg), "get", "'%s' (%s %s) read as %s was answered %d: %s", KNAME[t], NAME[t], text(h).c_str(), NAME[d], g, mc::hex(o, SIZE[d]).c_str()); }
    Vector3f v; MC_CHECK(r.getConf(KEYS[t], &v) < 0 && r.setConf(KEYS[t], &v) < 0 && r.setConf(KEYS[t], "text") < 0, "set", "'%s' was used as a vector or a string", KNAME[t]);
    MC_CHECK(put(r, KNAME[11], s, b) < 0 && put(r, K::V, s, b) < 0, "set", "a string or a vector was set to %s", NAME[s]); is(r, m, "refusals"); if (n.mag <= 1) refuses_strangers(r);
  }
  MC_CHECK(quiet_blocks() == base, "leak", "%lld blocks were not released", (long long) (quiet_blocks() - base));
}
static const char* TEXTS[] = {"", "x", "some text", "a text of more than twenty-three characters"};
static const V3 VECS[] = {{0, 0, 0}, {1.5f, -2.25f, 1e30f}, {-0.0f, 3.14159265f, 1e-40f}};
static void vary(Rec& r, M& m) {
  const unsigned k = mc::choose(NK);
  if (k < 11) { const Num n = mc::pick(some(k)); encode(n, k, m.num[k]); mc::op("'%s' := %s", KNAME[k], text(n).c_str()); MC_CHECK(put(r, KEYS[k], k, m.num[k]) == 0, "set", "it was refused"); }
  else if (k < 13) { const unsigned i = k - 11, w = mc::choose(5); mc::op("'%s' := %s", KNAME[k], w < 4 ? TEXTS[w] : "(none)"); m.has[i] = w < 4; m.str[i] = w < 4 ? TEXTS[w] : ""; MC_CHECK(((ConfRecord&) r).setConf(KNAME[k], w < 4 ? TEXTS[w] : (const char*) nullptr) == 0, "set", "it was refused"); }
  else { m.v = VECS[mc::choose(3)]; Vector3f v(m.v.x, m.v.y, m.v.z); mc::op("'vector' := %g,%g,%g", m.v.x, m.v.y, m.v.z); MC_CHECK(r.setConf(K::V, &v) == 0, "set", "it was refused"); }
}
static Bytes bytes(StringBuilder& s) { return s.length() ? Bytes((char*) s.string(), s.length()) : Bytes(); }
static Bytes pack(Rec& r) { StringBuilder s; const int e = r.serialize(&s, TCode::CBOR); mc::steps(1); MC_CHECK(e == 0, "serialize:answer", "serialize was answered %d", e); return bytes(s); }
static int unpack(Rec& r, const Bytes& b) { StringBuilder s; s.concat((uint8_t*) b.data(), b.size()); mc::steps(1); return r.deserialize(&s, TCode::CBOR); }
/* What the other record has set wins; what it has not, stays. */
static M over(const M& onto, const M& from) { M r = from; for (unsigned i = 0; i < 2; i++) if (!from.has[i]) { r.has[i] = onto.has[i]; r.str[i] = onto.str[i]; } return r; }
static void fill(Rec& r, M& m) { for (unsigned k = 0; k < 11; k++) { encode(some(k).back(), k, m.num[k]); put(r, KEYS[k], k, m.num[k]); } r.setConf(K::S, "mine"); m.has[0] = true; m.str[0] = "mine"; m.v = VECS[1]; Vector3f v(m.v.x, m.v.y, m.v.z); r.setConf(K::V, &v); }
static void trip(unsigned changes) {
  plat::reset(); for (unsigned t = 0; t < 11; t++) some(t); const int64_t base = quiet_blocks();
  {
    Rec* a = new Rec(7, &PLAN); M m; is(*a, m, "construction"); const bool full = mc::flip(); if (full) fill(*a, m); for (unsigned i = 0; i < changes; i++) vary(*a, m); is(*a, m, "setting");
    StringBuilder img; MC_CHECK(a->save(7, "conf", &img) == 0 && !a->isDirty(), "save", "it could not be saved, or is still dirty"); const Bytes packed = pack(*a), image = bytes(img);
    MC_CHECK(packed == image.substr(40), "serialize:same", "it serializes as %s, but is saved as %s", mc::hex(packed).c_str(), mc::hex(image.substr(40)).c_str()); is(*a, m, "saving"); delete a;
    for (unsigned onto = 0; onto < 2; onto++) for (unsigned how = 0; how < 3; how++) {
      Rec b(7, &PLAN); M mb; if (onto) fill(b, mb); if (onto) { b.setConf(K::T, "theirs"); mb.has[1] = true; mb.str[1] = "theirs"; }
      int e; if (how == 0) { Bytes c = image; e = b.load(7, (uint8_t*) &c[0], c.size()); std::fill(c.begin(), c.end(), 'Z'); } else if (how == 1) { StringBuilder s; s.concat((uint8_t*) image.data(), image.size()); e = b.load(7, &s); } else e = unpack(b, packed);
      const M want = over(mb, m); MC_CHECK(e == 0, "load:answer", "loading what was saved was answered %d", e); is(b, want, "loading");
      MC_CHECK(how == 2 || b.isDirty() == (pack(b) != packed), "load:dirty", "after loading it is dirty %d", b.isDirty()); if (!onto) MC_CHECK(pack(b) == packed && (how == 2 || (!b.isDirty() && b.wasLoaded())), "load:same", "after loading it serializes as %s", mc::hex(pack(b)).c_str());
      Bytes again = pack(b); MC_CHECK(unpack(b, again) == 0, "load:again", "it does not take what it serialized"); is(b, want, "loading its own"); b.setConf(K::S, "other"); b.setConf(K::S, "mine"); M w = want; w.has[0] = true; w.str[0] = "mine"; is(b, w, "setting a string that was loaded"); refuses_strangers(b);
      StringBuilder d; b.printConfRecord(&d); const Bytes shown = bytes(d); for (unsigned i = 0; i < NK; i++) MC_CHECK(shown.find(KNAME[i]) != Bytes::npos, "shown", "'%s' is not shown", KNAME[i]);
    }
    { Rec o(7, &PLAN_OTHER); M mo; fill(o, mo); MC_CHECK(unpack(o, packed) != 0, "load:other", "a record of another plan took it"); is(o, mo, "refusing another plan's"); }
    { Rec o(7, &PLAN_OLDER); M mo; int16_t sh = 5; o.setConf(K::A, sh); o.setConf(K::T, (int8_t) -7); const int e = unpack(o, packed); MC_CHECK(e == 0, "load:older", "a record of fewer keys was answered %d", e);
      int16_t x; uint64_t g; int8_t el; Vector3f v; const char* s = nullptr; o.getConf(K::A, &x); o.getConf(K::G, &g); o.getConf(K::T, &el); o.getConf(K::V, &v); o.getConf(K::S, &s); uint32_t gm; memcpy(&gm, m.num[6], 4);
      MC_CHECK(x == (int8_t) m.num[0][0] && g == gm && el == -7 && v.x == m.v.x && v.y == m.v.y && v.z == m.v.z && (s != nullptr) == m.has[0] && (!s || m.str[0] == s), "load:older", "a record of fewer keys took %d, %llu, %d, '%s'", x, (unsigned long long) g, el, s ? s : "");
      const Bytes ob = pack(o); Rec b(7, &PLAN); M mb; fill(b, mb); const int e2 = unpack(b, ob); memcpy(mb.num[0], m.num[0], 1); memcpy(mb.num[6], m.num[6], 4); mb.v = m.v; if (m.has[0]) mb.str[0] = m.str[0]; MC_CHECK(e2 == 0, "load:older", "one of more keys was answered %d", e2); is(b, mb, "loading one of fewer keys"); }
    { Rec o(7, &PLAN_ALIEN); uint32_t u = 99; o.setConf(K::S, u); o.setConf(K::G, "kept"); o.setConf(K::V, (uint8_t) 3); const int e = unpack(o, packed); const char* s = nullptr; uint8_t v8 = 0; o.getConf(K::S, &u); o.getConf(K::G, &s); o.getConf(K::V, &v8); MC_CHECK(e != 0 && u == 99 && s && !strcmp(s, "kept") && v8 == 3, "load:alien", "settings of other kinds were answered %d, and gave %u, '%s' and %u", e, u, s ? s : "", v8); }
  }
  MC_CHECK(quiet_blocks() == base, "leak", "%lld blocks were not released", (long long) (quiet_blocks() - base));
}
static void bent() {
  plat::reset(); for (unsigned t = 0; t < 11; t++) some(t); const unsigned which = mc::choose(3); static Bytes B[3]; const int64_t slack = 0; { Rec a(7, &PLAN); M m; is(a, m, "construction"); if (which) fill(a, m); if (which == 2) a.setConf(K::T, "and another"); B[which] = pack(a); }
  const Bytes& b = B[which]; const unsigned at = mc::choose((uint32_t) b.size()); mc::op("image %u, from byte %u on", which, at); const int64_t base = quiet_blocks();
  auto harmless = [&](const Bytes& x) {
    Rec r(7, &PLAN); M m; fill(r, m); const int e = unpack(r, x);
    if (e != 0 && e != -2) mc::fail("bent:answer", "%s was answered %d", mc::hex(x).c_str(), e);
    uint8_t o[8]; for (unsigned t = 0; t < 11; t++) MC_CHECK(get(r, KEYS[t], t, o) == 0, "bent:get", "after %s, '%s' cannot be read", mc::hex(x).c_str(), KNAME[t]);
    refuses_strangers(r); M n; fill(r, n); if (r.setConf(K::T, "x") == 0) { n.has[1] = true; n.str[1] = "x"; } is(r, n, "altered bytes, and setting all again");
  };
  harmless(b.substr(0, at));
  for (unsigned v = 0; v < 256; v++) if (v != (uint8_t) b[at]) { Bytes x = b; x[at] = (char) v; harmless(x); }
  MC_CHECK(quiet_blocks() == base + slack, "leak", "%lld blocks were not released", (long long) (quiet_blocks() - base));
}
static void histories(unsigned depth) {
  plat::reset(); const int64_t base = quiet_blocks();
  {
    std::unique_ptr<Rec> r[2]; M m[2]; bool used[2] = {}; for (auto& p : r) p.reset(new Rec(7, &PLAN)); Bytes img[2]; M mi[2]; bool there[2] = {};
    static const unsigned KS[] = {4, 1, 9}; static const char* TS[] = {"p", "qq"};
    for (unsigned d = 0; d < depth; d++) {
      const unsigned w = mc::choose(2); char how[64] = "";
      switch (mc::choose(7)) {
        case 0: { const unsigned k = mc::pick(std::vector<unsigned>(KS, KS + 3)); const Num n = k == 9 ? F(mc::flip() ? 1.5 : -7.0) : I(k == 1, mc::flip() ? 255 : 17); uint8_t b[8]; encode(n, k, b); memcpy(m[w].num[k], b, 8); snprintf(how, sizeof how, "record %u: '%s' := %s", w, KNAME[k], text(n).c_str()); MC_CHECK(put(*r[w], KEYS[k], k, b) == 0, "set", "%s was refused", how); used[w] = true; } break;
        case 1: { snprintf(how, sizeof how, "record %u: 'e' := 256, refused", w); MC_CHECK(r[w]->setConf(K::E, (uint16_t) 256) == -3, "set", "256 was accepted for a byte"); used[w] = true; } break;
        case 2: { const unsigned i = mc::choose(2), t = mc::choose(3); snprintf(how, sizeof how, "record %u: '%s' := %s", w, KNAME[11 + i], t < 2 ? TS[t] : "(none)"); m[w].has[i] = t < 2; m[w].str[i] = t < 2 ? TS[t] : ""; MC_CHECK(((ConfRecord&) *r[w]).setConf(KNAME[11 + i], t < 2 ? TS[t] : (const char*) nullptr) == 0, "set", "%s was refused", how); used[w] = true; } break;
        case 3: { const unsigned i = mc::choose(2); snprintf(how, sizeof how, "save record %u as %u", w, i); StringBuilder s; const int e = r[w]->save(1 + i, "n", &s); if (!used[w]) { MC_CHECK(e == 0 || e == -2, "save:answer", "%s was answered %d", how, e); if (e) throw mc::Prune(); } MC_CHECK(e == 0 && !r[w]->isDirty(), "save:answer", "%s was answered %d, dirty %d", how, e, r[w]->isDirty()); img[i] = bytes(s); mi[i] = m[w]; there[i] = true; } break;
        case 4: case 5: { const unsigned i = mc::choose(2); if (!there[i]) throw mc::Prune(); const unsigned bad = mc::choose(4); Bytes b = img[i]; if (bad == 1) b[b.size() - 3] ^= 1; if (bad == 2) b.pop_back(); snprintf(how, sizeof how, "record %u loads %s%u", w, bad == 1 ? "altered " : bad == 2 ? "truncated " : bad == 3 ? "with the wrong tag " : "", i);
          StringBuilder s; s.concat((uint8_t*) b.data(), b.size()); const int e = r[w]->load(bad == 3 ? 9 : 1 + i, &s); MC_CHECK((e == 0) == (bad == 0), "load:answer", "%s: answered %d", how, e); if (!bad) { m[w] = over(m[w], mi[i]); used[w] = true; } else throw mc::Prune(); } break;
        case 6: { snprintf(how, sizeof how, "record %u made anew", w); r[w].reset(new Rec(7, &PLAN)); m[w] = M(); used[w] = false; } break;
      }
      mc::op("%s", how); std::string key; for (unsigned i = 0; i < 2; i++) {
        if (used[i] || d + 1 == depth) is(*r[i], m[i], how);
        for (const M* x : {&m[i], &mi[i]}) { for (unsigned k : KS) key += Bytes((char*) x->num[k], 4); for (unsigned j = 0; j < 2; j++) key += x->has[j] ? "'" + x->str[j] : "-"; } key += used[i] ? 'u' : '.'; key += there[i] ? 't' : '.'; }
      mc::state(key, depth - d);
    }
  }
  MC_CHECK(quiet_blocks() == base, "leak", "%lld blocks were not released", (long long) (quiet_blocks() - base));
}
int main(int argc, char** argv) {
  const bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  std::vector<mc::Config> c;
  c.push_back({"conversions", conversions, 2, "every numeric key set from every numeric type at its boundary values (thorough: and all of 16 bits), by key and by name, and read as every type"});
  c.push_back({"trip", [=]{ trip(th ? 2 : 1); }, 2, "every boundary value of every setting (thorough: of every two) of an otherwise default or full record, loaded three ways onto a new and a full record, and by records of other plans"});
  c.push_back({"bent", bent, 2, "three stored forms: every truncation, every value of every byte"});
  c.push_back({"histories", [=]{ histories(th ? 6 : 4); }, 3, "every history of 4 (thorough 6) settings, refusals, saves, loads and refused loads of two records over two stored images"});
  return mc::main(argc, argv, "C29", c, {"settings by strings keep the caller's pointer; blobs have no setter", "a setting never made is not stored, and loading leaves it as it was", "a record not used yet may refuse to be saved"});
}
