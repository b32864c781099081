/* C42: arithmetic helpers, timestamps, reference counts and the bundled generator. */
#include "../mc/mc.h"
#include "CppPotpourri.h"
#include "StringBuilder.h"
#include "AbstractPlatform.h"
#include <limits>
#include <set>
#include <time.h>
typedef std::string S;

/* Every value of a narrow type; of a wide one, those around each power of two. */
template <class T> static const std::vector<T>& values() {
  static const std::vector<T> r = [] {
    std::set<T> s;
    if (sizeof(T) == 1) { for (int i = 0; i < 256; i++) s.insert((T) i); }
    else {
      for (unsigned b = 0; b < sizeof(T) * 8; b++) for (int d = -2; d <= 2; d++) { const T p = (T) ((uint64_t) 1 << b); s.insert((T) ((uint64_t) p + (uint64_t) (int64_t) d)); s.insert((T) (0 - ((uint64_t) p + (uint64_t) (int64_t) d))); }
      s.insert(std::numeric_limits<T>::max()); s.insert(std::numeric_limits<T>::min());
    }
    return std::vector<T>(s.begin(), s.end());
  }();
  return r;
}
template <> const std::vector<float>& values<float>() { static const std::vector<float> r = {-INFINITY, -3.4e38f, -65536.5f, -2, -1.5f, -1, -1e-30f, -1e-45f, 0.0f, 1e-45f, 1e-30f, 0.5f, 1, 1.0000001f, 1.5f, 2, 65536.5f, 3.4e38f, INFINITY}; return r; }
template <> const std::vector<double>& values<double>() { static const std::vector<double> r = {-INFINITY, -1.7e308, -65536.5, -2, -1.5, -1, -1e-300, -5e-324, 0.0, 5e-324, 1e-300, 0.5, 1, 1.0000000000000002, 1.5, 2, 65536.5, 1.7e308, INFINITY}; return r; }
static S str(double d) { char b[64]; snprintf(b, sizeof(b), "%.17g", d); return b; }
static S str(float d) { return str((double) d); }
template <class T> static S str(T v) { char b[32]; snprintf(b, sizeof(b), "%lld", (long long) v); return b; }

/* |a - b| as the type itself can hold it, or nothing. */
template <class T> static bool distance(T a, T b, T& r) {
  const T hi = a > b ? a : b, lo = a > b ? b : a;
  if (std::numeric_limits<T>::is_integer) {
    const uint64_t d = (uint64_t) hi - (uint64_t) lo;
    if (d > (uint64_t) std::numeric_limits<T>::max()) return false;
    r = (T) d; return true;
  }
  r = hi - lo; return r == r;
}
template <class T> static void pairs(const char* t) {
  const std::vector<T>& v = values<T>();
  const T a = v[mc::choose((uint32_t) v.size())];
  mc::op("%s %s against every other", t, str(a).c_str());
  for (T b : v) {
    MC_CHECK(strict_max(a, b) == (b < a ? a : b), "max", "the larger %s of %s and %s is given as %s", t, str(a).c_str(), str(b).c_str(), str(strict_max(a, b)).c_str());
    MC_CHECK(strict_min(a, b) == (b < a ? b : a), "min", "the smaller %s of %s and %s is given as %s", t, str(a).c_str(), str(b).c_str(), str(strict_min(a, b)).c_str());
    T d; if (distance(a, b, d)) MC_CHECK(strict_abs_delta(a, b) == d, "delta", "between the %s %s and %s lies %s", t, str(a).c_str(), str(b).c_str(), str(strict_abs_delta(a, b)).c_str());
    T x = a, y = b; strict_swap(&x, &y);
    MC_CHECK(x == b && y == a, "swap", "swapping %s and %s gives %s and %s", str(a).c_str(), str(b).c_str(), str(x).c_str(), str(y).c_str());
  }
  mc::steps(v.size());
}
template <class T> static void bounds(const char* t) {
  const std::vector<T>& v = values<T>(); const T a = v[mc::choose((uint32_t) v.size())];
  mc::op("%s %s bound to every range", t, str(a).c_str());
  const size_t step = v.size() > 128 ? v.size() / 97 : 1;
  for (size_t i = 0; i < v.size(); i += step) for (size_t j = i; j < v.size(); j += step) {
    const T w = a < v[i] ? v[i] : v[j] < a ? v[j] : a, g = strict_range_bind(a, v[i], v[j]);
    MC_CHECK(g == w, "bind", "the %s %s bound to %s..%s is %s", t, str(a).c_str(), str(v[i]).c_str(), str(v[j]).c_str(), str(g).c_str());
  }
  mc::steps(v.size());
}
template <class T> static void wraps(const char* t) {
  const std::vector<T>& v = values<T>(); const T a = v[mc::choose((uint32_t) v.size())];
  mc::op("%s %s against every other, wrapping", t, str(a).c_str());
  for (T b : v) MC_CHECK(delta_assume_wrap(a, b) == (T) (a - b), "wrap", "from the %s %s to %s is %s", t, str(b).c_str(), str(a).c_str(), str(delta_assume_wrap(a, b)).c_str());
  mc::steps(v.size());
}
static void all_pairs() {
  switch (mc::choose(10)) {
    case 0: pairs<uint8_t>("uint8"); break;  case 1: pairs<int8_t>("int8"); break;  case 2: pairs<uint16_t>("uint16"); break;  case 3: pairs<int16_t>("int16"); break;  case 4: pairs<uint32_t>("uint32"); break;
    case 5: pairs<int32_t>("int32"); break;  case 6: pairs<uint64_t>("uint64"); break;  case 7: pairs<int64_t>("int64"); break;  case 8: pairs<float>("float"); break;  default: pairs<double>("double"); break;
  }
}
static void all_bounds() {
  switch (mc::choose(10)) {
    case 0: bounds<uint8_t>("uint8"); break;  case 1: bounds<int8_t>("int8"); break;  case 2: bounds<uint16_t>("uint16"); break;  case 3: bounds<int16_t>("int16"); break;  case 4: bounds<uint32_t>("uint32"); break;
    case 5: bounds<int32_t>("int32"); break;  case 6: bounds<uint64_t>("uint64"); break;  case 7: bounds<int64_t>("int64"); break;  case 8: bounds<float>("float"); break;  default: bounds<double>("double"); break;
  }
}
static void all_wraps() { switch (mc::choose(4)) { case 0: wraps<uint8_t>("uint8"); break; case 1: wraps<uint16_t>("uint16"); break; case 2: wraps<uint32_t>("uint32"); break; default: wraps<uint64_t>("uint64"); break; } }
static void wide16() {                                   // every pair of 16 bits
  const uint16_t a = (uint16_t) mc::choose(65536); mc::op("%u against every other", a);
  for (unsigned b = 0; b < 65536; b++) {
    const uint16_t c = (uint16_t) b; const int16_t x = (int16_t) a, y = (int16_t) c;
    if (delta_assume_wrap(a, c) != (uint16_t) (a - c) || strict_abs_delta(a, c) != (a > c ? a - c : c - a) || strict_max(a, c) != (a > c ? a : c) || strict_min(a, c) != (a > c ? c : a) || strict_max(x, y) != (x > y ? x : y) || strict_min(x, y) != (x > y ? y : x))
      mc::fail("wide", "the helpers are wrong about %u and %u", a, c);
  }
  mc::steps(65536);
}

/* The civil calendar. */
static int64_t days(int64_t y, int m, int d) { y -= m <= 2; const int64_t era = y / 400; const int yoe = (int) (y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468; }
static const int LEN[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
static uint64_t parse(const char* fmt, int y, int mo, int d, int h, int mi, int s) { char b[40]; snprintf(b, sizeof(b), fmt, y, mo, d, h, mi, s); return stringToTimestamp(b); }
static void calendar() {
  const int y = 1970 + (int) mc::choose(130), mo = 1 + (int) mc::choose(12);
  mc::op("every day of %d-%02d", y, mo);
  const bool leap = y % 4 == 0;                          // (1970 to 2099)
  for (int d = 1; d <= LEN[mo - 1] + (mo == 2 && leap); d++) for (int t = 0; t < 6; t++) {
    static const int T[6][3] = {{0, 0, 0}, {23, 59, 59}, {12, 0, 0}, {0, 0, 1}, {0, 59, 0}, {19, 8, 57}};
    const uint64_t w = (uint64_t) days(y, mo, d) * 86400 + (uint64_t) (T[t][0] * 3600 + T[t][1] * 60 + T[t][2]);
    const uint64_t g = parse("%04d-%02d-%02dT%02d:%02d:%02dZ", y, mo, d, T[t][0], T[t][1], T[t][2]);
    MC_CHECK(g == w, "calendar", "%04d-%02d-%02dT%02d:%02d:%02dZ is second %llu, not %llu", y, mo, d, T[t][0], T[t][1], T[t][2], (unsigned long long) w, (unsigned long long) g);
    mc::steps(1);
    if (w < 0x7FFFFFFFULL) {
      StringBuilder out; timestampToString(&out, w); char e[40]; snprintf(e, sizeof(e), "%02d:%02d:%02d %04d-%02d-%02d", T[t][0], T[t][1], T[t][2], y, mo, d);
      MC_CHECK(!strcmp((char*) out.string(), e), "print", "second %llu prints as %s, not %s", (unsigned long long) w, (char*) out.string(), e);
    }
  }
}
static void fields() {                                   // each field through its range and beyond
  const int f = (int) mc::choose(6); int v[6] = {2016, 11, 16, 21, 44, 7}; static const char* N[] = {"year", "month", "day", "hour", "minute", "second"};
  static const int LO[] = {1970, 1, 1, 0, 0, 0}, HI[] = {2099, 12, 31, 23, 59, 59};
  const int n = f ? 100 : 10000;
  for (int x = 0; x < n; x++) {
    if (f == 0 && x > 2099) continue;
    if (f == 2 && x == 31) continue;                     // (November has thirty days: what becomes of the 31st is not specified)
    v[f] = x; const uint64_t g = parse("%04d-%02d-%02dT%02d:%02d:%02dZ", v[0], v[1], v[2], v[3], v[4], v[5]);
    const uint64_t w = x < LO[f] || x > HI[f] ? 0 : (uint64_t) days(v[0], v[1], v[2]) * 86400 + (uint64_t) (v[3] * 3600 + v[4] * 60 + v[5]);
    MC_CHECK(g == w, "field", "with %s %d, the time is %llu, not %llu", N[f], x, (unsigned long long) g, (unsigned long long) w);
    mc::steps(1);
  }
}

/* Reference counts, from any count, over any history. */
static void refs(unsigned depth) {
  static const unsigned START[] = {0, 1, 2, 63998, 63999, 64000};
  unsigned w = mc::pick(START); C3PRefCounter c((uint16_t) w);
  for (unsigned i = 0; i < depth; i++) {
    mc::state(std::to_string(w), depth - i);
    MC_CHECK(c.refCount() == w, "refs", "%u references count as %u", w, c.refCount());
    if (mc::flip()) { mc::op("taking at %u", w); const bool r = c.refTake(); MC_CHECK(r == (w < 64000), "refs", "taking a reference at %u returned %d", w, r); if (r) w++; }
    else { mc::op("releasing at %u", w); const bool r = c.refRelease(); if (w) w--; MC_CHECK(r == (w == 0), "refs", "releasing a reference, with %u left, returned %d", w, r); }
    MC_CHECK(c.refCount() == w, "refs", "%u references count as %u", w, c.refCount());
  }
}

/* The generator: PCG, stream 7, four bytes a draw. */
struct Pcg { uint64_t s, inc; Pcg(uint64_t seed, uint64_t seq) { s = 0; inc = seq << 1 | 1; draw(); s += seed; draw(); } uint32_t draw() { const uint64_t o = s; s = o * 6364136223846793005ULL + inc; const uint32_t x = (uint32_t) (((o >> 18) ^ o) >> 27), r = (uint32_t) (o >> 59); return x >> r | x << ((32 - r) & 31); } };
static void generator() {
  static const uint64_t SEEDS[] = {1, 2, 42, 0xFFFFFFFF, 0x100000000ULL, 0xFFFFFFFFFFFFFFFFULL, 0x8000000000000000ULL, 12345678901234567ULL};
  const uint64_t seed = mc::pick(SEEDS); const unsigned n = mc::choose(70), at = mc::choose(4);
  mc::op("%u bytes from seed %llu", n, (unsigned long long) seed);
  C3P_pRNG a, b; a.init(seed); b.init(seed); Pcg p(seed, 7);
  std::vector<uint8_t> x(n + 12, 0xEE), y(n, 0);
  a.fill(x.data() + 4 + at, n); b.fill(y.data(), n);
  for (unsigned i = 0; i < n; i++) MC_CHECK(x[i + 4 + at] == y[i], "seed", "byte %u differs between equal generators", i);
  for (unsigned i = 0; i < 4 + at; i++) MC_CHECK(x[i] == 0xEE, "outside", "filling %u bytes wrote before them", n);
  for (size_t i = 4 + at + n; i < x.size(); i++) MC_CHECK(x[i] == 0xEE, "outside", "filling %u bytes wrote behind them", n);
  for (unsigned i = 0; i + 4 <= n; i += 4) { uint32_t w; memcpy(&w, &y[i], 4); const uint32_t e = p.draw(); MC_CHECK(w == e, "stream", "word %u of the stream of seed %llu is %08x, not %08x", i / 4, (unsigned long long) seed, w, e); }
  C3P_pRNG c, d; c.init(seed); d.init(seed); MC_CHECK(c.randomUInt32() == d.randomUInt32() && c.randomUInt64() == d.randomUInt64() && c.randomUInt8() == d.randomUInt8() && c.randomUInt16() == d.randomUInt16() && c.randomBool() == d.randomBool(), "seed", "equal generators differ");
  mc::steps(n);
}

/* The picture of a digest: a walk over 17x9 places, two bits a step, which walls divert. */
static void picture(const std::vector<uint8_t>& d) {
  int visits[9][17] = {}; int x = 8, y = 4;
  for (uint8_t b : d) for (int i = 0; i < 8; i += 2) {
    const int px = x, py = y; x += (b >> i & 1) ? 1 : -1; y += (b >> i & 2) ? 1 : -1;
    x = x < 0 ? 0 : x > 16 ? 16 : x; y = y < 0 ? 0 : y > 8 ? 8 : y;
    if (x != px || y != py) visits[y][x]++;
  }
  visits[y][x] = 16; visits[4][8] = 15;
  std::string w = "+--[      name ]--+\n";
  for (auto& r : visits) { w += '|'; for (int v : r) w += " .-:+=R^v<>*&#XoO"[(v & 0xFF) % 17]; w += "|\n"; }
  w += "+-----------------+\n";
  std::vector<uint8_t> in = d; in.shrink_to_fit(); StringBuilder out("before\n");
  const int r = randomArt(in.data(), in.size(), "name", &out); const std::string got = out.length() > 0 ? (char*) out.string() : "";
  MC_CHECK(in == d, "art", "the digest was changed");
  if (d.empty()) { MC_CHECK(r != 0 && got == "before\n", "art", "no digest at all was drawn"); return; }
  MC_CHECK(r == 0 && got == "before\n" + w && (size_t) out.length() == got.size(), "art", "%s is drawn as\n%s, not\n%s", mc::hex(std::string(d.begin(), d.end())).c_str(), got.c_str(), w.c_str());
  mc::steps(1);
}
static void art() {
  std::vector<uint8_t> d;
  if (mc::flip()) { const unsigned n = mc::choose(3); for (unsigned i = 0; i < n; i++) d.push_back((uint8_t) mc::choose(256)); }
  else { static const unsigned N[] = {3, 8, 16, 32, 64, 255, 256, 257, 300}; const unsigned n = mc::pick(N), k = mc::choose(256), m = mc::choose(4); for (unsigned i = 0; i < n; i++) d.push_back((uint8_t) (k + (m == 1 ? i : m == 2 ? i * i * 77 : m == 3 ? (i & 1) * 0xE1 : 0))); }
  mc::op("drawing %u bytes: %s", (unsigned) d.size(), mc::hex(std::string(d.begin(), d.begin() + (d.size() < 4 ? d.size() : 4))).c_str());
  picture(d);
}

int main(int argc, char** argv) {
  const bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  setenv("TZ", "UTC", 1); tzset();
  std::vector<mc::Config> c;
  c.push_back({"pairs", all_pairs, 2, "every pair of 8-bit values, and of those within 2 of a power of two for the wider types; floats and doubles of every magnitude"});
  c.push_back({"bounds", all_bounds, 2, "the same values bound to every range of them (of some 100 of them, for the wider types)"});
  c.push_back({"wraps", all_wraps, 2, "the same pairs, on the circle"});
  if (th) c.push_back({"wide", wide16, 1, "every pair of 16-bit values"});
  c.push_back({"calendar", calendar, 2, "six times of every day from 1970 to 2099, read and (to 2038) printed"});
  c.push_back({"fields", fields, 1, "every value of each field of a time"});
  c.push_back({"refs", [=]{ refs(th ? 20 : 12); }, 2, "every history of 12 (20) takes and releases from six counts"});
  c.push_back({"generator", generator, 2, "0..69 bytes at 4 alignments from 8 seeds"});
  c.push_back({"art", art, 2, "every digest of up to two bytes; four progressions from each byte, of 3 to 300 bytes"});
  return mc::main(argc, argv, "C42", c, {
    "distances that the type cannot hold are not checked", "time zone UTC for printing", "a time string has at least 20 bytes; the 31st of a shorter month is not checked"});
}
