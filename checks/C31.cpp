/* C31: UUIDs as bytes and as text. */
#include "../mc/mc.h"
#include "uuid.h"
#include "StringBuilder.h"
#include <string>
#include <vector>
#include <string.h>
typedef std::string S;
typedef uint8_t u8;

static UUID of(const u8* b) { UUID u; memcpy(u.id, b, 16); return u; }
static S text(const u8* b, bool upper = false, bool dashes = true) {
  S r; char t[4];
  for (int i = 0; i < 16; i++) { if (dashes && (i == 4 || i == 6 || i == 8 || i == 10)) r += '-'; snprintf(t, sizeof(t), upper ? "%02X" : "%02x", b[i]); r += t; }
  return r;
}
/* Pairs of hexadecimal digits fill bytes in turn; anything else in between is passed over. */
static void reference(const S& s, u8* b) {
  unsigned n = 0; int half = -1;
  for (char c : s) {
    const char* d = "0123456789abcdef"; const char* p = c ? strchr(d, c >= 'A' && c <= 'F' ? c + 32 : c) : nullptr;
    if (!p) continue;
    if (half < 0) half = (int) (p - d); else { if (n < 16) b[n++] = (u8) (half * 16 + (p - d)); half = -1; }
    if (n == 16) return;
  }
}
static const u8 FILL[16] = { 0xA5, 0x5A, 0x3C, 0xC3, 0x96, 0x69, 0x0F, 0xF0, 0x12, 0x34, 0x56, 0x78, 0x9A, 0xBC, 0xDE, 0xF1 };
static void check_parse(const S& s) {
  u8 want[16]; memcpy(want, FILL, 16); reference(s, want);
  char* copy = new char[s.size() + 1]; memcpy(copy, s.c_str(), s.size() + 1);      // (its own block: reading past its end shows)
  UUID u = of(FILL); uuid_from_str(copy, &u);
  delete[] copy;
  MC_CHECK(!memcmp(u.id, want, 16), "uuid:parse", "'%s' is read as %s, not %s", s.c_str(), text(u.id).c_str(), text(want).c_str());
}
static void check(const u8* b) {
  mc::steps(1);
  const UUID u = of(b);
  const S want = text(b);
  char buf[37]; memset(buf, '#', sizeof(buf));
  uuid_to_str(&u, buf, 37);
  MC_CHECK(!memcmp(buf, want.c_str(), 37), "uuid:text", "%s is written as %.36s", want.c_str(), buf);
  StringBuilder sb; sb.concat("x"); uuid_to_sb(&u, &sb);
  MC_CHECK(S((const char*) sb.string(), (size_t) sb.length()) == "x" + want, "uuid:sb", "%s is appended as %s", want.c_str(), (char*) sb.string());
  MC_CHECK(!memcmp(u.id, b, 16), "uuid:const", "writing %s changed it", want.c_str());
  UUID v = of(FILL); uuid_from_str(buf, &v);
  MC_CHECK(!memcmp(v.id, b, 16), "uuid:round-trip", "%s comes back as %s", want.c_str(), text(v.id).c_str());
  check_parse(text(b, true)); check_parse(text(b, false, false)); check_parse("{" + text(b, true, false) + "}"); check_parse(want + "ffff");
  UUID w = of(b), x = of(FILL);
  MC_CHECK(0 == uuid_compare(&w, &v) && 0 == uuid_compare(&w, &w), "uuid:equal", "%s does not equal itself", want.c_str());
  const bool same = !memcmp(b, FILL, 16);
  MC_CHECK((0 == uuid_compare(&w, &x)) == same && (0 == uuid_compare(&x, &w)) == same, "uuid:differ", "%s compared with %s", want.c_str(), text(FILL).c_str());
  uuid_copy(&w, &x);
  MC_CHECK(!memcmp(x.id, b, 16) && !memcmp(w.id, b, 16), "uuid:copy", "%s is copied as %s", want.c_str(), text(x.id).c_str());
}
/* Every value of every byte, over three backgrounds. */
static void bytes() {
  u8 b[16]; const int bg = mc::choose(4);
  for (int i = 0; i < 16; i++) b[i] = bg == 0 ? 0 : bg == 1 ? 0xFF : bg == 2 ? FILL[i] : (u8) (i * 17);
  const int at = mc::choose(16); for (int v = 0; v < 256; v++) { b[at] = (u8) v; check(b); }
}
static void pairs() {
  u8 b[16]; memcpy(b, FILL, 16);
  const int i = mc::choose(15), j = i + 1 + mc::choose(15 - i);
  static const u8 V[] = { 0, 1, 9, 0x0A, 0x0F, 0x10, 0x7F, 0x80, 0x90, 0x9A, 0xA0, 0xA9, 0xAF, 0xF0, 0xFA, 0xFF };
  for (u8 x : V) for (u8 y : V) { b[i] = x; b[j] = y; check(b); }
}
/* Two that differ in one bit, anywhere; and in two. */
static void differ() {
  u8 a[16], b[16]; memcpy(a, FILL, 16); memcpy(b, FILL, 16);
  const int i = mc::choose(128), j = mc::choose(128);
  b[i / 8] ^= (u8) (1 << i % 8); a[j / 8] ^= (u8) (1 << j % 8);
  UUID u = of(a), v = of(b);
  mc::steps(1);
  MC_CHECK((0 == uuid_compare(&u, &v)) == (i == j), "uuid:bits", "%s and %s compare as %d", text(a).c_str(), text(b).c_str(), uuid_compare(&u, &v));
}
/* Every buffer size. */
static void room() {
  const int n = mc::choose(64);
  const UUID u = of(FILL); const S want = text(FILL);
  char* b = new char[n + 1]; memset(b, '#', n + 1);
  uuid_to_str(&u, b, n);
  S got(b, (size_t) n); delete[] b;
  const S expect = n < 37 ? S(n, '#') : want + S(1, 0) + S(n - 37, '#');
  mc::steps(1);
  MC_CHECK(got == expect, "uuid:room", "with room for %d: %s", n, mc::hex(got).c_str());
}
/* Text of every length, and with every character spoiled by every other kind. */
static void texts() {
  const S full = text(FILL, mc::flip(), mc::flip());
  static const char C[] = "09aAfFgG-{} /:@`\x7f\x80\xff\t";
  const unsigned n = mc::choose((int) full.size() + 1);
  check_parse(full.substr(0, n));
  for (const char* c = C; *c; c++) { S s = full; if (n < s.size()) s[n] = *c; else s += *c; mc::steps(1); check_parse(s); s = full; s.insert(n, 1, *c); check_parse(s); s = full.substr(0, n) + *c; check_parse(s); }
}
static void scraps() {
  static const char C[] = "09aAfF-g@`";
  const unsigned n = mc::choose(mc::thorough ? 7 : 6); S s;
  for (unsigned i = 0; i < n; i++) s += C[mc::choose(10)];
  mc::steps(1); check_parse(s);
}
/* Generated: version 4, variant 1, and everything else is whatever was drawn. */
static void generated() {
  static const uint32_t V[] = { 0, 0xFFFFFFFFu, 0x01020304u, 0x80C040F0u, 0x7F3FBF0Fu };
  uint32_t d[4]; for (auto& x : d) x = V[mc::choose(5)];
  int k = 0; plat::rng = [&] { return d[k++ & 3]; };
  UUID u = of(FILL); uuid_gen(&u);
  k = 0; UUID w; uuid_gen(&w);
  mc::steps(1);
  MC_CHECK((u.id[6] & 0xF0) == 0x40 && (u.id[8] & 0xC0) == 0x80, "uuid:version", "%s was generated", text(u.id).c_str());
  MC_CHECK(0 == uuid_compare(&u, &w), "uuid:gen-drawn", "the same draws give %s and %s", text(u.id).c_str(), text(w.id).c_str());
  // Each bit that is not fixed follows the draw: complemented draws give its complement.
  uint32_t e[4]; for (int i = 0; i < 4; i++) e[i] = ~d[i];
  k = 0; plat::rng = [&] { return e[k++ & 3]; }; UUID x; uuid_gen(&x);
  for (int i = 0; i < 16; i++) { const u8 fixed = i == 6 ? 0xF0 : i == 8 ? 0xC0 : 0; MC_CHECK((u8) (u.id[i] ^ x.id[i]) == (u8) ~fixed, "uuid:gen-bits", "byte %d: opposite draws give %02x and %02x", i, u.id[i], x.id[i]); }
  check(u.id);
}
int main(int argc, char** argv) {
  std::vector<mc::Config> c;
  c.emplace_back("bytes", bytes, 2, "every value of every byte over 4 backgrounds");
  c.emplace_back("pairs", pairs, 2, "16 values of every two bytes");
  c.emplace_back("differ", differ, 2, "every two UUIDs one bit away from a third");
  c.emplace_back("room", room, 1, "buffers of 0..63 bytes");
  c.emplace_back("texts", texts, 2, "every prefix of a text in 4 forms, every character replaced by, and preceded by, 18 others");
  c.emplace_back("scraps", scraps, 2, "every text of up to 5 (thorough 6) of 10 characters");
  c.emplace_back("generated", generated, 2, "every four draws of 5 values");
  return mc::main(argc, argv, "C31", c, {"the random number generator is a stand-in"});
}
