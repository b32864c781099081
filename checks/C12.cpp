/* C12: numeric conversion between types is value-preserving or refused. */
#include "mc.h"
#include "nums.h"
#include "StringBuilder.h"

static void pair(bool set) {
  unsigned s = mc::choose(NT), d = mc::choose(NT);
  C3PType* hs = getTypeHelper(TYPES[s]); C3PType* hd = getTypeHelper(TYPES[d]);
  MC_CHECK(hs && hd, "helper", "no helper for %s or %s", NAME[s], NAME[d]);
  const int8_t risk = C3PType::conversionRisk(TYPES[s], TYPES[d]);
  const char* api = set ? "set_from" : "get_as";
  unsigned nok = 0, nbad = 0;
  for (const Num& n : values(s)) {
    const unsigned off = (unsigned) (n.mag + s + d) % 2 * (mc::thorough ? 1 : 0) ;
    alignas(8) uint8_t src_[16], dst_[32];
    uint8_t* src = src_ + off; uint8_t* dst = dst_ + 8 + off;
    memset(src_, 0xEE, sizeof(src_)); memset(dst_, 0xA5, sizeof(dst_));
    encode(n, s, src);
    uint8_t keep[16]; memcpy(keep, src_, 16);
    int r = set ? hd->set_from(dst, TYPES[s], src) : hs->get_as(src, TYPES[d], dst);
    mc::steps(1);
    MC_CHECK(0 == memcmp(keep, src_, 16), "source", "%s of %s %s to %s changed its source", api, NAME[s], text(n).c_str(), NAME[d]);
    for (int i = 0; i < 32; i++) {
      bool inside = dst_ + i >= dst && dst_ + i < dst + SIZE[d];
      if (!inside || r != 0) MC_CHECK(dst_[i] == 0xA5, inside ? "refused-but-wrote" : "overrun", "%s of %s %s to %s returned %d and wrote byte %d: %s", api, NAME[s], text(n).c_str(), NAME[d], r, i - 8 - (int) off, mc::hex(dst_, 32).c_str());
    }
    MC_CHECK(r == 0 || r == -1, "return", "%s of %s %s to %s returned %d", api, NAME[s], text(n).c_str(), NAME[d], r);
    if (r == 0) { nok++; MC_CHECK(result_ok(n, d, dst), "value", "%s of %s %s to %s succeeded with %s", api, NAME[s], text(n).c_str(), NAME[d], mc::hex(dst, SIZE[d]).c_str()); }
    else {
      nbad++;
      bool must = required(s, d) && (is_fp(s) || is_fp(d) || is_bool(d) || fits(n, d));
      MC_CHECK(!must, "refused", "%s of %s %s to %s was refused", api, NAME[s], text(n).c_str(), NAME[d]);
      MC_CHECK(risk != 0, "risk", "conversionRisk(%s, %s) promises success, but %s of %s was refused", NAME[s], NAME[d], api, text(n).c_str());
    }
    mc::count_state(mc::hash(dst, SIZE[d], mc::hash(src, SIZE[s], s * 100 + d * 2 + set)));
  }
  mc::op("%s from %s to %s: %u succeed, %u refused, risk %d", api, NAME[s], NAME[d], nok, nbad, risk);
  if (!set && risk < 0) MC_CHECK(nok == 0, "risk", "conversionRisk(%s, %s) is %d, but %s succeeded %u times", NAME[s], NAME[d], risk, api, nok);
  if (!is_fp(s) && !is_fp(d) && risk > 0) MC_CHECK(nbad > 0, "risk", "conversionRisk(%s, %s) is %d, but %s never failed", NAME[s], NAME[d], risk, api);
  if (!is_fp(s) && !is_fp(d)) {                          // risk bits: 1 by magnitude, 2 by sign
    MC_CHECK((risk == 0) == (nbad == 0), "risk", "conversionRisk(%s, %s) is %d, and %u conversions were refused", NAME[s], NAME[d], risk, nbad);
  }
}

/* What one type wrote, the other reads back: there and back is the identity. */
static void there_and_back() {
  unsigned s = mc::choose(NT), d = mc::choose(NT);
  if (is_bool(d) && !is_bool(s)) throw mc::Prune();
  C3PType* hs = getTypeHelper(TYPES[s]); C3PType* hd = getTypeHelper(TYPES[d]);
  for (const Num& n : values(s)) {
    alignas(8) uint8_t a[8] = {0}, b[8] = {0}, c[8] = {0};
    encode(n, s, a);
    mc::steps(2);
    if (0 != hs->get_as(a, TYPES[d], b)) continue;
    if (0 != hs->set_from(c, TYPES[d], b)) { MC_CHECK(is_fp(d) || is_fp(s), "back", "%s %s went to %s and was refused on its way back", NAME[s], text(n).c_str(), NAME[d]); continue; }
    if (!is_fp(d) || is_fp(s)) MC_CHECK(0 == memcmp(a, c, SIZE[s]), "back", "%s %s went to %s and came back as %s", NAME[s], text(n).c_str(), NAME[d], mc::hex(c, SIZE[s]).c_str());
  }
  mc::op("%s to %s and back", NAME[s], NAME[d]);
}

static void texts() {
  unsigned s = mc::choose(NT);
  C3PType* h = getTypeHelper(TYPES[s]);
  MC_CHECK(TYPES[s] == h->TCODE && h->FIXED_LEN == SIZE[s] && sizeOfType(TYPES[s]) == (int) SIZE[s], "size", "the size of %s is %u", NAME[s], (unsigned) h->FIXED_LEN);
  for (const Num& n : values(s)) {
    alignas(8) uint8_t a[8] = {0};
    encode(n, s, a);
    if (n.fp && !(fabs(n.d) <= 1e15)) continue;
    StringBuilder out; h->to_string(a, &out); mc::steps(1);
    MC_CHECK(h->length(a) == SIZE[s], "length", "length() of a %s is %u", NAME[s], h->length(a));
    std::string got((char*) out.string(), out.length());
    if (!n.fp) {
      std::string want = is_bool(s) ? (n.mag ? "true" : "false") : text(n);
      MC_CHECK(got == want, "to_string", "%s %s renders as '%s'", NAME[s], text(n).c_str(), got.c_str());
    }
    else {
      char* e = 0; double back = strtod(got.c_str(), &e);
      MC_CHECK(e && !*e && fabs(back - n.d) <= 0.00006 + fabs(n.d) * 1e-15, "to_string", "%s %s renders as '%s'", NAME[s], text(n).c_str(), got.c_str());
    }
  }
  mc::op("the text of every %s", NAME[s]);
}

int main(int argc, char** argv) {
  std::vector<mc::Config> c;
  c.emplace_back("set_from", [] { pair(true); }, 2, "every ordered pair of 11 numeric types x every 8 and 16 bit value, boundary-dense wider values");
  c.emplace_back("get_as", [] { pair(false); }, 2, "the same, by the source's converter");
  c.emplace_back("back", [] { there_and_back(); }, 2, "there and back");
  c.emplace_back("text", [] { texts(); }, 1, "text and length of each");
  return mc::main(argc, argv, "C12", c, {
    "values wider than 16 bits are taken near m*2^k for every k and odd m below 8, not all of them",
    "conversions from floating point to integers are optional; where one is offered it must truncate in range",
    "128-bit integers are not implemented by the library"});
}
