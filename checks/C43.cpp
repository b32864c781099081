/* C43: type codes, enum tables, flags, unit and terminator names. */
#include "../mc/mc.h"
#include "CppPotpourri.h"
#include "StringBuilder.h"
#include "FlagContainer.h"
#include "EnumWrapper.h"
#include "C3PValue/C3PValue.h"
#include "C3PValue/KeyValuePair.h"
#include "C3PValue/C3PType.h"
#include "Vector3.h"
#include "TimerTools/TimerTools.h"
#include <map>
typedef std::string S;

/* Flags: from every value, every operation, every set of flags. */
template <class F, class T> static void flags(const char* t, const std::vector<T>& v) {
  const T a = v[mc::choose((uint32_t) v.size())];
  mc::op("%s flags %llx, with every set", t, (unsigned long long) a);
  for (T b : v) {
    F f(a); MC_CHECK(f.raw == a, "reset", "flags start as %llx, not %llx", (unsigned long long) f.raw, (unsigned long long) a);
    MC_CHECK(f.value(b) == ((a & b) != 0), "value", "%s: any of %llx in %llx reads %d", t, (unsigned long long) b, (unsigned long long) a, f.value(b));
    MC_CHECK(f.all_set(b) == ((a & b) == b), "all", "%s: all of %llx in %llx reads %d", t, (unsigned long long) b, (unsigned long long) a, f.all_set(b));
    MC_CHECK(f.raw == a, "reading", "reading flags changes them");
    #define OP(WHAT, CALL, WANT) { F g(a); g.CALL; MC_CHECK(g.raw == (T) (WANT), "flags", "%s: %llx in %llx makes %llx, not %llx", WHAT, (unsigned long long) b, (unsigned long long) a, (unsigned long long) g.raw, (unsigned long long) (T) (WANT)); }
    OP("setting", set(b), a | b) OP("clearing", clear(b), a & ~b) OP("flipping", flip(b), a ^ b) OP("setting to true", set(b, true), a | b) OP("setting to false", set(b, false), a & ~b)
    #undef OP
  }
  F z; MC_CHECK(z.raw == 0, "reset", "flags do not start cleared");
  mc::steps(v.size());
}
template <class T> static std::vector<T> sets() {
  std::vector<T> r;
  if (sizeof(T) == 1) { for (int i = 0; i < 256; i++) r.push_back((T) i); return r; }
  r.push_back(0); r.push_back((T) ~(T) 0);
  for (unsigned i = 0; i < sizeof(T) * 8; i++) { r.push_back((T) ((T) 1 << i)); r.push_back((T) ~((T) 1 << i)); r.push_back((T) (((T) 1 << i) - 1)); if (i) r.push_back((T) ((T) 3 << (i - 1))); }
  r.push_back((T) 0xAAAAAAAAAAAAAAAAULL); r.push_back((T) 0x5555555555555555ULL);
  return r;
}
static void all_flags() {
  switch (mc::choose(4)) {
    case 0: flags<FlagContainer8, uint8_t>("8", sets<uint8_t>()); break;
    case 1: flags<FlagContainer16, uint16_t>("16", sets<uint16_t>()); break;
    case 2: flags<FlagContainer32, uint32_t>("32", sets<uint32_t>()); break;
    default: flags<FlagContainer64, uint64_t>("64", sets<uint64_t>()); break;
  }
}

/* Enum tables: every table of up to four entries. */
enum class E : uint8_t { A = 0, B = 7, C = 128, D = 255, X = 9 };
static void tables(unsigned most) {
  static const char* NAME[] = {"ONE", "ONETWO", "two", ""};
  static const E VAL[] = {E::A, E::B, E::C, E::D};
  struct Row { E v; const char* s; uint8_t f, c; };
  std::vector<Row> rows; const unsigned n = 1 + mc::choose(most);
  unsigned usedv = 0, useds = 0;
  for (unsigned i = 0; i < n; i++) {
    const unsigned v = mc::choose(4), s = mc::choose(4);
    if (usedv >> v & 1 || useds >> s & 1) throw mc::Prune();
    usedv |= 1u << v; useds |= 1u << s;
    rows.push_back({VAL[v], NAME[s], (uint8_t) mc::choose(4), (uint8_t) (i * 50 + 1)});
  }
  S d; for (auto& r : rows) d += S(r.s) + "/" + std::to_string((int) r.v) + "/" + std::to_string(r.f) + " ";
  mc::op("table %s", d.c_str());
  std::vector<EnumDef<E>> defs; for (auto& r : rows) defs.push_back(EnumDef<E>(r.v, r.s, r.f, r.c));
  const EnumDefList<E> list(defs.data(), n, "list");
  MC_CHECK(list.COUNT == n && !strcmp(list.LIST_NAME, "list"), "table", "the table of %u counts %u", n, list.COUNT);
  static const E PROBE[] = {E::A, E::B, E::C, E::D, E::X};
  for (E p : PROBE) {
    const Row* w = nullptr; size_t at = 0; for (size_t i = 0; i < rows.size(); i++) if (rows[i].v == p) { w = &rows[i]; at = i; break; }
    MC_CHECK(list.enumValid(p) == (w && !(w->f & ENUM_WRAPPER_FLAG_IS_INVALID)), "valid", "value %d reads %s", (int) p, list.enumValid(p) ? "valid" : "invalid");
    MC_CHECK(list.enumDef(p) == (w ? &defs[at] : nullptr), "definition", "value %d has %s definition", (int) p, list.enumDef(p) ? "the wrong" : "no");
    if (w) MC_CHECK(!strcmp(list.enumStr(p), w->s), "name", "value %d is called %s, not %s", (int) p, list.enumStr(p), w->s);
    else MC_CHECK(list.enumStr(p) != nullptr, "name", "an unknown value has no name at all");
    MC_CHECK(list.enumExtra(p) == (w ? w->c : 0), "context", "value %d has context %d", (int) p, list.enumExtra(p));
  }
  static const char* SAY[] = {"ONE", "one", "oNe", "ONETWO", "OneTwo", "ON", "ONET", "TWO", "two", "", "ONE ", "tw", "three"};
  for (const char* s : SAY) {
    const Row* w = nullptr; const Row* all = nullptr; size_t at = 0, alla = 0;
    for (size_t i = 0; i < rows.size(); i++) { if (!w && !strcasecmp(rows[i].s, s)) { w = &rows[i]; at = i; } if (rows[i].f & ENUM_WRAPPER_FLAG_CATCHALL) { all = &rows[i]; alla = i; } }
    int8_t found = 9; const E g = list.getEnumByStr(s, &found), g2 = list.getEnumByStr(s);
    const E want = w ? w->v : all ? all->v : rows.back().v;
    MC_CHECK(found == (w ? 1 : 0), "found", "\"%s\" is reported %s", s, found == 1 ? "found" : found == 0 ? "missing" : "neither found nor missing");
    MC_CHECK(g == want && g2 == want, "by name", "\"%s\" means %d, not %d", s, (int) g, (int) want);
    MC_CHECK(list.getEnumDefByStr(s) == (w ? &defs[at] : all ? &defs[alla] : nullptr), "by name", "\"%s\" finds the wrong definition", s);
  }
  StringBuilder keys; list.exportKeys(&keys); std::vector<S> want; for (auto& r : rows) if (!(r.f & ENUM_WRAPPER_FLAG_IS_INVALID)) want.push_back(r.s);
  MC_CHECK(list.exportCount() == want.size(), "export", "%u keys are announced of %zu", list.exportCount(), want.size());
  size_t k = 0; S all; for (auto& s : want) { all += s; if (!s.empty()) { MC_CHECK(k < (size_t) keys.count() && s == (char*) keys.position((int) k), "export", "key %zu is exported as %s", k, keys.position((int) k)); k++; } }
  MC_CHECK((size_t) keys.length() == all.size(), "export", "the keys exported have %d bytes, not %zu", keys.length(), all.size());
  mc::steps(1);
}

/* Type codes. */
static void codes() {
  const unsigned code = mc::choose(256); const TCode tc = IntToTcode((uint8_t) code);
  mc::op("type code %02x", code);
  MC_CHECK((uint8_t) tc == code, "code", "code %u becomes %u", code, (uint8_t) tc);
  struct T { int size; bool numeric, sign, whole; };
  static const std::map<int, T> K = {
    {0x01, {1, 1, 0, 1}}, {0x02, {2, 1, 0, 1}}, {0x03, {4, 1, 0, 1}}, {0x04, {8, 1, 0, 1}}, {0x06, {1, 1, 1, 1}}, {0x07, {2, 1, 1, 1}}, {0x08, {4, 1, 1, 1}}, {0x09, {8, 1, 1, 1}},
    {0x0B, {1, 1, 0, 1}}, {0x0C, {4, 1, 1, 0}}, {0x0D, {8, 1, 1, 0}}, {0x38, {12, 0, 0, 0}}, {0x39, {24, 0, 0, 0}}, {0x3A, {3, 0, 0, 0}}, {0x3B, {3, 0, 0, 0}}, {0x3C, {6, 0, 0, 0}}, {0x3D, {6, 0, 0, 0}},
    {0x3E, {12, 0, 0, 0}}, {0x3F, {12, 0, 0, 0}}, {0x50, {0, 0, 0, 0}}, {0x51, {0, 0, 0, 0}}, {0xE0, {0, 0, 0, 0}}, {0xE1, {0, 0, 0, 0}}};
  C3PType* h = getTypeHelper(tc); const int size = sizeOfType(tc);
  MC_CHECK((h != nullptr) == (size >= 0), "size", "type %02x is %s, and its size is %d", code, h ? "supported" : "not supported", size);
  MC_CHECK(typeIsFixedLength(tc) == (size > 0), "fixed", "type %02x of size %d reads %s", code, size, typeIsFixedLength(tc) ? "fixed" : "variable");
  auto k = K.find((int) code);
  if (k != K.end()) {
    MC_CHECK(h && h->TCODE == tc, "helper", "type %02x is handled as %02x", code, h ? (unsigned) h->TCODE : 0);
    MC_CHECK(size == k->second.size, "size", "type %02x has size %d, not %d", code, size, k->second.size);
    MC_CHECK(C3PType::is_numeric(tc) == k->second.numeric && C3PType::is_signed(tc) == k->second.sign && C3PType::is_integral(tc) == k->second.whole, "kind", "type %02x is judged wrongly", code);
  }
  // names: one for each supported type, and no two alike
  const S name = typecodeToStr(tc);
  MC_CHECK(h ? name == h->NAME && !name.empty() && name != "UNKNOWN" : name == "UNKNOWN", "name", "type %02x is called %s", code, name.c_str());
  if (h && h->TCODE == tc) for (unsigned o = 0; o < 256; o++) { C3PType* g = getTypeHelper(IntToTcode((uint8_t) o)); if (o != code && g && (unsigned) g->TCODE == o) MC_CHECK(name != g->NAME && g != h, "name", "types %02x and %02x are both called %s", code, o, name.c_str()); }
  mc::steps(1);
  // the code of each native type
  Vector3<uint8_t>* a = nullptr; Vector3<int16_t>* b = nullptr; Vector3<double>* c = nullptr; Vector3<int8_t>* d = nullptr; Vector3<uint16_t>* e = nullptr; Vector3<int32_t>* f = nullptr; Vector3<uint32_t>* g = nullptr; Vector3<float>* q = nullptr; KeyValuePair* kv = nullptr; StringBuilder* sb = nullptr; StopWatch* sw = nullptr; char* s = nullptr;
  const TCode got[] = {tcodeForType((uint8_t) 0), tcodeForType((uint16_t) 0), tcodeForType((uint32_t) 0), tcodeForType((uint64_t) 0), tcodeForType((int8_t) 0), tcodeForType((int16_t) 0), tcodeForType((int32_t) 0), tcodeForType((int64_t) 0), tcodeForType(true), tcodeForType(0.5f), tcodeForType((double) 0.5), tcodeForType("x"), tcodeForType(s),
    tcodeForType(q), tcodeForType(c), tcodeForType(d), tcodeForType(a), tcodeForType(b), tcodeForType(e), tcodeForType(f), tcodeForType(g), tcodeForType(kv), tcodeForType(sb), tcodeForType(sw)};
  static const unsigned want[] = {1, 2, 3, 4, 6, 7, 8, 9, 0x0B, 0x0C, 0x0D, 0x51, 0x51, 0x38, 0x39, 0x3A, 0x3B, 0x3C, 0x3D, 0x3E, 0x3F, 0xE0, 0xE1, 0xE6};
  for (size_t i = 0; i < sizeof(want) / sizeof(*want); i++) MC_CHECK((unsigned) got[i] == want[i], "native", "native type %zu has code %02x, not %02x", i, (unsigned) got[i], want[i]);
}

/* Units, prefixes and terminators. */
static void names() {
  const int i = (int) mc::choose(256) - 128; mc::op("order of magnitude %d", i);
  static const std::map<int, std::pair<const char*, const char*>> P = {{-15, {"f", "femto"}}, {-12, {"p", "pico"}}, {-9, {"n", "nano"}}, {-6, {"u", "micro"}}, {-3, {"m", "milli"}}, {-2, {"c", "centi"}}, {-1, {"d", "deci"}}, {1, {"da", "deca"}}, {2, {"h", "hecto"}}, {3, {"k", "kilo"}}, {6, {"M", "mega"}}, {9, {"G", "giga"}}, {12, {"T", "tera"}}, {15, {"P", "peta"}}};
  auto p = P.find(i);
  const uint8_t u = (uint8_t) (i + 128);
  MC_CHECK(SIUnitToStr((SIUnit) u, true) && SIUnitToStr((SIUnit) u, false), "unit", "unit %u has no name", u);
  static const std::pair<SIUnit, const char*> UNITS[] = {{SIUnit::SECONDS, "s"}, {SIUnit::METERS, "m"}, {SIUnit::GRAMS, "g"}, {SIUnit::AMPERES, "A"}, {SIUnit::KELVIN, "K"}, {SIUnit::MOLES, "mol"}, {SIUnit::CANDELAS, "cd"}, {SIUnit::RADIANS, "rad"}, {SIUnit::VOLTS, "V"}, {SIUnit::FARADS, "F"}, {SIUnit::TESLAS, "T"}, {SIUnit::LUMENS, "lm"}, {SIUnit::HERTZ, "Hz"}, {SIUnit::NEWTONS, "N"}, {SIUnit::PASCALS, "Pa"}, {SIUnit::JOULES, "J"}, {SIUnit::WATTS, "W"}};
  for (auto& x : UNITS) {
    MC_CHECK(!strcmp(SIUnitToStr(x.first, true), x.second), "unit", "the unit %s is written %s", x.second, SIUnitToStr(x.first, true));
    // a prefixed unit: marker, order, unit, end
    {
      const SIUnit seq[] = {SIUnit::UNIT_GRAMMAR_MARKER, SIUnit::META_ORDER_OF_MAGNITUDE, (SIUnit) (uint8_t) i, x.first, SIUnit::UNITLESS};
      StringBuilder out; SIUnitToStr(seq, &out, true);
      MC_CHECK(S((char*) out.string()) == S(p == P.end() ? "" : p->second.first) + x.second, "prefix", "10^%d %s is written %s", i, x.second, (char*) out.string());
    }
  }
  static const struct { LineTerm t; const char* n; S l; } L[] = {{LineTerm::ZEROBYTE, "ZEROBYTE", S(1, 0)}, {LineTerm::CR, "CR", "\r"}, {LineTerm::LF, "LF", "\n"}, {LineTerm::CRLF, "CRLF", "\r\n"}, {LineTerm::INVALID, "", ""}};
  for (auto& l : L) MC_CHECK(lineTerminatorLength(l.t) == l.l.size() && S(lineTerminatorLiteralStr(l.t), l.l.size()) == l.l && !strcmp(lineTerminatorNameStr(l.t), l.n), "terminator", "terminator %s is wrong", l.n);
  mc::steps(1);
}

int main(int argc, char** argv) {
  const bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  std::vector<mc::Config> c;
  c.push_back({"flags", all_flags, 2, "every value and every set of 8 flags; single, all-but-one, adjacent and lower flags for 16, 32 and 64"});
  c.push_back({"tables", [=]{ tables(th ? 4 : 3); }, 4, "every table of up to 3 (4) entries: 4 values, 4 names, 4 flags; looked up by 5 values and 13 names"});
  c.push_back({"codes", codes, 1, "all 256 type codes"});
  c.push_back({"names", names, 1, "all 256 orders of magnitude, 17 units with each prefix, all terminators"});
  return mc::main(argc, argv, "C43", c, {"names within one table differ"});
}
