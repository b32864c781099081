/* C07: numbers render to text and are read back exactly; hex dumps and letter case. */
#include "mc.h"
#include "CppPotpourri.h"
#include "StringBuilder.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <limits.h>
#include <float.h>

typedef std::string S;

static S flat(StringBuilder& b) { S r; for (int i = 0; i < b.count(); i++) { int n; uint8_t* p = b.position(i, &n); r.append((char*) p, n); } return r; }

static S ref(const char* fmt, ...) {
  va_list a; va_start(a, fmt);
  va_list c; va_copy(c, a);
  int n = vsnprintf(nullptr, 0, fmt, a);
  S r(n + 1, 0);
  vsnprintf(&r[0], n + 1, fmt, c);
  va_end(a); va_end(c);
  r.resize(n);
  return r;
}

/* Values around every power of two and ten. */
static std::vector<int>      ints()  { std::vector<int> v; for (int k = 0; k < 32; k++) for (int d = -2; d <= 2; d++) { long long p = (1LL << k) + d; for (int s = -1; s <= 1; s += 2) if (p * s >= INT_MIN && p * s <= INT_MAX) v.push_back((int) (p * s)); }
  long long t = 1; for (int k = 0; k < 10; k++, t *= 10) for (int m = 1; m < 10; m++) for (int d = -1; d <= 1; d++) for (int s = -1; s <= 1; s += 2) { long long x = (t * m + d) * s; if (x >= INT_MIN && x <= INT_MAX) v.push_back((int) x); }
  v.push_back(INT_MIN); v.push_back(INT_MAX); return v; }
static std::vector<uint64_t> u64s()  { std::vector<uint64_t> v; for (int k = 0; k < 64; k++) for (int d = -2; d <= 2; d++) v.push_back((1ULL << k) + d);
  uint64_t t = 1; for (int k = 0; k < 20; k++, t *= 10) for (int m = 1; m < 10; m++) for (int d = -1; d <= 1; d++) v.push_back(t * m + d);
  for (int i = 0; i < 16; i++) for (int d = 1; d < 16; d++) v.push_back((uint64_t) d << (4 * i));
  return v; }
static std::vector<double> dbls() {
  std::vector<double> v = {0.0, -0.0, 0.5, 1.5, 2.5, 0.1, 1.0 / 3, 0.0000005, 0.00000049999, 0.9999995, 0.99999949, 123456.789, -98765.4321, 1e15, 1e16, 1e17, 1e22, 1e23, 1e100, -1e200, DBL_MAX, -DBL_MAX, DBL_MIN, 4.9e-324, (double) FLT_MAX, (double) FLT_MIN, 1e300};
  for (int k = -40; k < 130; k += 3) { v.push_back(__builtin_ldexp(1.0, k)); v.push_back(-__builtin_ldexp(3.0, k)); v.push_back(__builtin_ldexp(1.0, k) + 1); }
  for (int k = 0; k < 1024; k += 31) v.push_back(-__builtin_ldexp(1.9, k));
  return v;
}

#define EXPECT(b, want, ...) do { S g_ = flat(b), w_ = (want); if (g_ != w_) { \
  S d_ = ref(__VA_ARGS__); mc::fail("render", "%s appended \"%.80s\" (%d bytes), the C library renders \"%.80s\" (%d bytes)", d_.c_str(), g_.c_str(), (int) g_.size(), w_.c_str(), (int) w_.size()); } } while (0)

/* The plain append operations, one value per execution and prefix. */
static void render_ints() {
  static const std::vector<int> V = ints();
  int v = mc::pick(V);
  const char* pre = mc::flip() ? "x:" : "";
  mc::op("concat(%d) after \"%s\"", v, pre);
  { StringBuilder b(pre); b.concat(v);            EXPECT(b, pre + ref("%d", v), "concat(int %d)", v);
    S before = flat(b); b.concat((unsigned) v);   EXPECT(b, before + ref("%u", (unsigned) v), "concat(unsigned %u)", (unsigned) v); }
  { StringBuilder b(pre); int r = b.concatf("%d|%u|%x|%X|%o", v, v, v, v, v); S w = ref("%d|%u|%x|%X|%o", v, v, v, v, v); EXPECT(b, pre + w, "concatf(%d)", v); MC_CHECK(r == (int) w.size(), "render-ret", "concatf(%d) returned %d", v, r); }
  { StringBuilder b(pre); int r = b.concatf("%ld%lu", (long) v, (unsigned long) v); S w = ref("%ld%lu", (long) v, (unsigned long) v); EXPECT(b, pre + w, "concatf(%d)", v); MC_CHECK(r == (int) w.size(), "render-ret", "concatf(%d) returned %d", v, r); }
  { StringBuilder b(pre); b.concatf("%08x %5d %-5d| %+d %04d %.9d", v, v, v, v, v, v); EXPECT(b, pre + ref("%08x %5d %-5d| %+d %04d %.9d", v, v, v, v, v, v), "concatf(%d)", v); }
  { StringBuilder b(pre); b.concatf("%*d", 40, v);  EXPECT(b, pre + ref("%*d", 40, v), "concatf(%%*d, 40, %d)", v); }
  // and read back
  { StringBuilder b; b.concat("first"); b.concat(v); b.concat("77");
    MC_CHECK(b.position_as_int(1) == v, "int-back", "\"%d\" reads back as %d", v, b.position_as_int(1));
    MC_CHECK(b.position_as_int(2) == 77, "int-back", "the following token reads as %d", b.position_as_int(2));
    MC_CHECK(b.position_as_int(0) == 0 && b.position_as_int(3) == 0, "int-none", "a token which is no number, or not there, reads as %d, %d", b.position_as_int(0), b.position_as_int(3));
    if (v >= 0) MC_CHECK(b.position_as_uint64(1) == (uint64_t) v, "u64-back", "\"%d\" reads back as %llu", v, (unsigned long long) b.position_as_uint64(1));
    MC_CHECK(b.position_as_double(1) == (double) v, "double-back", "\"%d\" reads back as %f", v, b.position_as_double(1)); }
  for (int style = 0; style < 3; style++) {
    StringBuilder b; b.concat("first"); b.concatf(style == 0 ? "0x%x" : (style == 1 ? "0x%X" : "0x%08x"), v);
    MC_CHECK(b.position_as_int(1) == v, "int-hex", "0x%x reads as %x", v, b.position_as_int(1));
    MC_CHECK(b.position_as_uint64(1) == (uint64_t) (uint32_t) v, "u64-hex", "0x%x reads as %llx", v, (unsigned long long) b.position_as_uint64(1));
  }
  mc::count_state(mc::hash(&v, sizeof(v), pre[0]));
}
static void render_u64() {
  static const std::vector<uint64_t> V = u64s();
  uint64_t v = mc::pick(V);
  unsigned long long u = v;
  mc::op("uint64 %llu", u);
  { StringBuilder b; int r = b.concatf("%llu|%lld|%llx", u, (long long) u, u); S w = ref("%llu|%lld|%llx", u, (long long) u, u); EXPECT(b, w, "concatf(%llu)", u); MC_CHECK(r == (int) w.size(), "render-ret", "returned %d", r); }
  { StringBuilder b; b.concat("z"); b.concatf("%llu", u); b.concat("9"); MC_CHECK(b.position_as_uint64(1) == v, "u64-back", "\"%llu\" reads back as %llu", u, (unsigned long long) b.position_as_uint64(1)); }
  for (int style = 0; style < 3; style++) {
    StringBuilder b; b.concatf(style == 0 ? "0x%llx" : (style == 1 ? "0x%llX" : "0x%016llx"), u);
    MC_CHECK(b.position_as_uint64(0) == v, "u64-hex", "0x%llx reads as %llx", u, (unsigned long long) b.position_as_uint64(0));
  }
  mc::count_state(mc::hash(&v, sizeof(v)));
}
static void render_double() {
  static const std::vector<double> V = dbls();
  double v = mc::pick(V);
  mc::op("double %g", v);
  { StringBuilder b("d "); b.concat(v);         EXPECT(b, "d " + ref("%f", v), "concat(double %g)", v); }
  { StringBuilder b; b.concat((float) v);       EXPECT(b, ref("%f", (double) (float) v), "concat(float %g)", v); }
  { StringBuilder b; int r = b.concatf("%f %.3f %g %e %10.2f", v, v, v, v, v); S w = ref("%f %.3f %g %e %10.2f", v, v, v, v, v); EXPECT(b, w, "concatf(%g)", v); MC_CHECK(r == (int) w.size(), "render-ret", "returned %d", r); }
  { StringBuilder b; b.concatf("%.17g", v); MC_CHECK(b.position_as_double(0) == v, "double-back", "\"%.17g\" reads back as %.17g", v, b.position_as_double(0)); }
  mc::count_state(mc::hash(&v, sizeof(v)));
}

/* Strings of every length through the formatter, across the size of its working buffer. */
static int call_va(StringBuilder& b, const char* fmt, ...) { va_list a; va_start(a, fmt); int r = b.vconcatf(fmt, a); va_end(a); return r; }
static void render_strings() {
  static const int MAX = mc::thorough ? 2600 : 1400;
  int n = (int) mc::choose(MAX);
  int f = (int) mc::choose(6);
  S s; for (int i = 0; i < n; i++) s += (char) ('!' + (i * 7 + n) % 94);
  const char* p = s.c_str();
  StringBuilder b("@");
  S w; int r = 0;
  switch (f) {
    case 0: r = b.concatf("%s", p); w = s; r += b.concatf("%s", (char*) p); w += s; break;
    case 1: r = b.concatf("<%s>%d%%", p, n); w = ref("<%s>%d%%", p, n); break;
    case 2: r = b.concatf("%-600s|", p); w = ref("%-600s|", p); break;
    case 3: r = b.concatf("%.5s%c", p, 'k'); w = ref("%.5s%c", p, 'k'); break;
    case 4: r = b.concatf("%s%s%s", p, p, p); w = s + s + s; break;
    case 5: r = call_va(b, "%d-%s", n, p); w = ref("%d-%s", n, p); break;
  }
  mc::op("concatf() format %d with a string of %d", f, n);
  EXPECT(b, "@" + w, "concatf() format %d with a string of %d", f, n);
  MC_CHECK(r == (int) w.size(), "render-ret", "concatf() format %d with a string of %d returned %d", f, n, r);
  mc::count_state((uint64_t) n * 8 + f);
}
/* A literal format of every length. */
static void render_literal() {
  int n = (int) mc::choose(mc::thorough ? 1500 : 700);
  S s; for (int i = 0; i < n; i++) s += (char) ('A' + (i + n) % 26);
  StringBuilder b; b.concat("pre"); int r = b.concatf(s.c_str()); b.concat(s.c_str());
  mc::op("concatf() of a literal of %d", n);
  EXPECT(b, "pre" + s + s, "concatf() of a literal of %d", n);
  MC_CHECK(r == n, "render-ret", "concatf() of a literal of %d returned %d", n, r);
  StringBuilder c; c.concat(true); c.concat(false); c.concat('q'); c.concat((uint8_t) 0xA5);
  EXPECT(c, "TFq\xA5", "bool, char and byte");
  mc::count_state((uint64_t) n);
}

/* Every short token. */
static void tokens() {
  static const char al[] = "019aFx-+ .gX";
  const int len = 1 + (int) mc::choose(mc::thorough ? 6 : 5);
  char t[8] = {0};
  t[0] = al[mc::choose(sizeof(al) - 1)];
  if (len > 1) t[1] = al[mc::choose(sizeof(al) - 1)];
  int inner = 1; for (int i = 2; i < len; i++) inner *= sizeof(al) - 1;
  mc::op("tokens of %d beginning \"%s\"", len, t);
  for (int k = 0; k < inner; k++) {
    int x = k; for (int i = 2; i < len; i++) { t[i] = al[x % (sizeof(al) - 1)]; x /= sizeof(al) - 1; }
    long long wi; unsigned long long wu; bool ucheck = true;
    if (len > 2 && t[0] == '0' && t[1] == 'x') { wu = strtoull(t + 2, nullptr, 16); wi = (long long) wu;
      if (t[2] == '-' || t[2] == '+' || t[2] == ' ' || (t[2] == '0' && (t[3] == 'x' || t[3] == 'X'))) wu = wi = 0; }      // no hex digits follow
    else { wi = atoi(t); wu = strtoull(t, nullptr, 10); ucheck = !strchr(t, '-'); }
    StringBuilder b; b.concat("5"); b.concat(t);
    MC_CHECK(b.position_as_int(1) == (int) wi, "int-token", "token \"%s\" reads as %d, it denotes %lld", t, b.position_as_int(1), wi);
    if (ucheck) MC_CHECK(b.position_as_uint64(1) == wu, "u64-token", "token \"%s\" reads as %llu, it denotes %llu", t, (unsigned long long) b.position_as_uint64(1), wu);
    if (!(t[0] == '0' && (t[1] == 'x' || t[1] == 'X'))) MC_CHECK(b.position_as_double(1) == strtod(t, nullptr), "double-token", "token \"%s\" reads as %g", t, b.position_as_double(1));
    mc::steps(3); mc::count_state(mc::hash(t, len));
  }
}

/* Letter case: every byte in every position of a fragmented string. */
static void letters() {
  const int pos = (int) mc::choose(5), cut = (int) mc::choose(6);
  const bool up = mc::flip();
  mc::op("%s with position %d cut %d", up ? "toUpper" : "toLower", pos, cut);
  for (int c = 0; c < 256; c++) {
    S s = "aZ@[`"; s[pos] = (char) c;
    StringBuilder b;
    b.concat((uint8_t*) s.data(), cut > 5 ? 5 : cut); b.concat((uint8_t*) s.data() + cut, 5 - cut);
    S w = s; for (auto& x : w) { if (up && x >= 'a' && x <= 'z') x -= 32; if (!up && x >= 'A' && x <= 'Z') x += 32; }
    if (up) b.toUpper(); else b.toLower();
    MC_CHECK(flat(b) == w, "case", "%s of %s gives %s", up ? "toUpper" : "toLower", mc::hex(s).c_str(), mc::hex(flat(b)).c_str());
    mc::steps(1); mc::count_state(mc::hash(s.data(), 5, up * 8 + cut));
  }
}
/* The static caseless helpers. */
static void caseless() {
  static const char al[] = "aAbB1_";
  char h[8] = {0}, n[4] = {0};
  int hl = (int) mc::choose(6), nl = (int) mc::choose(4);
  int inner = 1; for (int i = 0; i < hl; i++) inner *= 6;
  for (int i = 0; i < nl; i++) n[i] = al[mc::choose(6)];
  mc::op("haystacks of %d, needle \"%s\"", hl, n);
  for (int k = 0; k < inner; k++) {
    int x = k; for (int i = 0; i < hl; i++) { h[i] = al[x % 6]; x /= 6; }
    int r = StringBuilder::strcasecmp(h, n);
    MC_CHECK((r == 0) == (0 == ::strcasecmp(h, n)), "strcasecmp", "strcasecmp(\"%s\", \"%s\") is %d", h, n, r);
    if (nl > 0) { char* w = ::strcasestr(h, n); char* g = StringBuilder::strcasestr(h, n);
      MC_CHECK(w == g, "strcasestr", "strcasestr(\"%s\", \"%s\") finds offset %d, want %d", h, n, g ? (int) (g - h) : -1, w ? (int) (w - h) : -1); }
    for (unsigned lim = 0; lim < 7; lim++) {
      char* d = StringBuilder::deep_copy(h, lim); S w(h); if (lim && w.size() > lim) w.resize(lim);
      MC_CHECK(d && w == d, "deep_copy", "deep_copy(\"%s\", %u) is \"%s\"", h, lim, d ? d : "NULL");
      free(d);
    }
    mc::steps(9); mc::count_state(mc::hash(h, hl, mc::hash(n, nl)));
  }
}

/* Hex dumps: each byte of every length, and every byte value, with its offset. */
static void dumps() {
  const int len = (int) mc::choose(mc::thorough ? 300 : 90);
  const char* ind = mc::flip() ? "\t" : "";
  mc::op("dump of %d", len);
  for (int seed = 0; seed < (len < 20 ? 256 : 8); seed++) {
    std::vector<uint8_t> d(len + 1); for (int i = 0; i < len; i++) d[i] = (uint8_t) (seed + i * 37);
    uint8_t* exact = (uint8_t*) malloc(len ? len : 1); memcpy(exact, d.data(), len);
    StringBuilder o; StringBuilder::printBuffer(&o, exact, len, ind);
    free(exact);
    S t = flat(o);
    if (len == 0) { MC_CHECK(t == S(ind) + "(NULL BUFFER)\n", "dump-null", "the dump of nothing is \"%s\"", t.c_str()); continue; }
    std::vector<uint8_t> back; unsigned long at = 0;
    const char* p = t.c_str();
    while (*p) {
      MC_CHECK(0 == strncmp(p, ind, strlen(ind)), "dump-indent", "a line of the dump lacks the indentation: %s", t.c_str());
      p += strlen(ind);
      char* e; unsigned long off = strtoul(p, &e, 16);
      MC_CHECK(off == at && *e == ':' && p[0] == '0' && p[1] == 'x', "dump-offset", "a dump line begins with offset %lx, not %lx: %s", off, at, t.c_str());
      p = e + 1;
      int row = 0;
      while (*p && *p != '\n') { if (*p == ' ') { p++; continue; } unsigned v; MC_CHECK(1 == sscanf(p, "%2x", &v), "dump-byte", "no byte in the dump at \"%.10s\"", p); back.push_back((uint8_t) v); p += 2; row++; at++; }
      MC_CHECK(*p == '\n' && row <= 16, "dump-row", "a dump line is malformed");
      p++;
    }
    d.resize(len);
    MC_CHECK(back == d, "dump", "the dump of %d bytes does not read back: %s", len, t.c_str());
    mc::steps(1); mc::count_state(((uint64_t) len << 10) | seed);
  }
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, "C07", {
    {"ints", render_ints, 1, "every int within 2 of a power of two, or 1 of a decimal digit times a power of ten, both signs: append operations and formats against the C library, and read back in decimal and hexadecimal"},
    {"u64", render_u64, 1, "as above for 64 bits unsigned, and every single non-zero hexadecimal digit at every position"},
    {"doubles", render_double, 1, "boundary-dense doubles up to the largest (309 digits), appended, formatted and read back"},
    {"strings", render_strings, 1, "strings of every length up to 1399 (thorough 2599) through six formats, across the formatter's working buffer"},
    {"literals", render_literal, 1, "literal formats of every length up to 699 (thorough 1499)"},
    {"tokens", tokens, 2, "every token of up to 5 (thorough 6) characters over {0 1 9 a F x X - + space . g}, as int, unsigned and double"},
    {"letters", letters, 2, "every byte value in every position of a 5-byte string with every cut into two fragments"},
    {"caseless", caseless, 2, "every haystack of up to 5 and needle of up to 3 characters over {a A b B 1 _}"},
    {"dumps", dumps, 1, "hex dumps of every length up to 89 (thorough 299), read back"},
  }, {"the C locale", "decimal tokens whose value does not fit the result type are outside of the property (the C library's atoi() is undefined there)"});
}
