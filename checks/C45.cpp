/* C45: every NMEA sentence is judged once, by its own content, however the bytes arrive. */
#include "mc.h"
#include "CppPotpourri.h"
#include "Pipes/BufferAccepter/GPSWrapper/GPSWrapper.h"
#include <string.h>
#include <stdlib.h>
#include <math.h>

typedef std::string S;

/*----------------------------------------------------------------------------*/
/* An independent reading of the sentences.                                   */
struct Loc { double lat, lon, hdop, vdop, mag; int64_t ts; double alt, speed; int sats; };
static bool same(double a, double b, double tol) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); return fabs(a - b) <= tol; }
static bool near(double a, double w) { return same(a, w, 1e-6 + fabs(w) * 2e-7); }   // single precision

struct Model {
  Loc l{0, 0, 0, 0, 0, 0, 0, 0, 0};
  uint32_t ok = 0, bad = 0;
  std::vector<Loc> calls;
  bool free_pos = false;     // after a void RMC, the position is not specified until the next valid one
};

static std::vector<S> fields(const S& body) { std::vector<S> r(1); for (char c : body) { if (',' == c) r.push_back(S()); else r.back() += c; } return r; }
static bool f_num(const S& f, double* v) {      // false: malformed
  size_t i = 0; while (i < f.size() && f[i] == ' ') i++;
  if (i == f.size()) { *v = NAN; return true; }
  double sg = 1; bool sign = false; if (f[i] == '+' || f[i] == '-') { sign = true; if (f[i] == '-') sg = -1; i++; }
  bool dot = false, dig = false; double x = 0, sc = 1; int64_t iv = 0; bool full = false;
  for (; i < f.size(); i++) {
    if (f[i] == '.' && !dot) { dot = true; continue; }
    if (f[i] < '0' || f[i] > '9') return false;
    dig = true;
    if (full) continue;
    int64_t nv = iv * 10 + (f[i] - '0');
    if (nv > 2147483647LL) { if (!dot) return false; full = true; break; }      // no more digits are wanted
    iv = nv; if (dot) sc *= 10;
  }
  x = (double) iv;
  if (!dig) { if (sign || dot) return false; *v = NAN; return true; }
  *v = sg * x / sc; return true;
}
static bool f_int(const S& f, int* v) {
  size_t i = 0; while (i < f.size() && f[i] == ' ') i++;
  size_t st = i; if (i < f.size() && (f[i] == '+' || f[i] == '-')) i++;
  size_t d = i; while (i < f.size() && isdigit((unsigned char) f[i])) i++;
  if (d == i) { *v = 0; return f.empty(); }       // no number at all: only an empty field will do
  if (i != f.size()) return false;
  *v = (int) strtoll(f.c_str() + st, nullptr, 10); return true;
}
static bool f_dir(const S& f, int* v) { *v = 0; if (f.empty()) return true; if (f[0] == 'N' || f[0] == 'E') *v = 1; else if (f[0] == 'S' || f[0] == 'W') *v = -1; else return false; return true; }
static bool digits(const S& f, size_t n) { if (f.size() < n) return false; for (size_t i = 0; i < n; i++) if (!isdigit((unsigned char) f[i])) return false; return true; }
static int two(const S& f, int at) { return (f[at] - '0') * 10 + (f[at + 1] - '0'); }
static int64_t days(int y, int m, int d) { y -= m <= 2; int64_t era = y / 400; unsigned yoe = (unsigned) (y - era * 400); unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (int64_t) doe - 719468; }
static double coord(double raw, int dir) { double v = raw * dir; double dg = trunc(v / 100); return dg + (v - dg * 100) / 60; }

/* formats: t id, f number, i integer, d direction, c character, T time, D date, _ anything; optional after ';' */
static bool read(const std::vector<S>& f, const char* fmt, std::vector<double>& num, std::vector<S>& raw) {
  bool opt = false; size_t k = 0;
  for (; *fmt; fmt++) {
    if (';' == *fmt) { opt = true; continue; }
    bool have = k < f.size();
    if (!have && !opt) return false;
    S x = have ? f[k] : S(); k++;
    double v = NAN; int iv = 0;
    switch (*fmt) {
      case 'f': if (have && !f_num(x, &v)) return false; num.push_back(v); break;
      case 'i': if (have && !f_int(x, &iv)) return false; num.push_back(iv); break;
      case 'd': if (have && !f_dir(x, &iv)) return false; num.push_back(iv); break;
      case 'T': case 'D': if (!x.empty() && !digits(x, 6)) return false; num.push_back(0); break;
      default: num.push_back(0); break;
    }
    raw.push_back(x);
  }
  return true;
}

static void judge(Model& m, const S& line) {
  if (line.empty()) return;
  bool ok = false, call = false;
  do {
    if (line.find('\0') != S::npos) break;
    if (line.size() > 143 || line[0] != '$') break;
    size_t e = 1; uint8_t x = 0;
    while (e < line.size() && line[e] != '*' && line[e] >= 32 && line[e] < 127) x ^= (uint8_t) line[e++];
    if (e < line.size() && line[e] == '*') {
      if (e + 2 >= line.size() + 0 && e + 2 > line.size() - 1) break;
      auto hex = [](char c) { return (c >= '0' && c <= '9') ? c - '0' : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : -1; };
      int h = hex(line[e + 1]), l = hex(line[e + 2]);
      if (h < 0 || l < 0 || (h * 16 + l) != x) break;
    }
    else if (!(e == line.size() || line[e] == '\r')) break;
    std::vector<S> f = fields(line.substr(0, e));
    if (f[0].size() < 6) break;
    S id = f[0].substr(3, 3); std::vector<double> n; std::vector<S> r;
    if (id == "RMC") {
      if (!(ok = read(f, "tTcfdfdffDfd", n, r))) break;
      if (!r[2].empty() && r[2][0] == 'A' && !std::isnan(n[3]) && !std::isnan(n[5])) { m.free_pos = false; m.l.lat = coord(n[3], (int) n[4]); m.l.lon = coord(n[5], (int) n[6]); }
      else m.free_pos = true;
      if (!r[1].empty() && !r[9].empty()) m.l.ts = days(2000 + two(r[9], 4), two(r[9], 2), two(r[9], 0)) * 86400 + two(r[1], 0) * 3600 + two(r[1], 2) * 60 + two(r[1], 4);
    }
    else if (id == "GGA") { if (!(ok = read(f, "tTfdfdiiffcfci_", n, r))) break; m.l.sats = (int) n[7]; if (!r[10].empty() && r[10][0] == 'M' && !std::isnan(n[9])) m.l.alt = n[9] * 1000; }
    else if (id == "GSA") { if (!(ok = read(f, "tciiiiiiiiiiiiifff", n, r))) break; m.l.hdop = n[16]; m.l.vdop = n[17]; }
    else if (id == "GLL") ok = read(f, "tfdfdTc;c", n, r);
    else if (id == "GST") ok = read(f, "tTfffffff", n, r);
    else if (id == "GSV") ok = read(f, "tiii;iiiiiiiiiiiiiiii", n, r);
    else if (id == "VTG") {
      if (!read(f, "tfcfcfcfc;c", n, r)) break;
      if (!(ok = (r[2][0] == 'T' && r[4][0] == 'M' && r[6][0] == 'N' && r[8][0] == 'K'))) break;
      m.l.mag = n[3]; if (!std::isnan(n[7])) m.l.speed = n[7] * 1000000 / 3600; call = true;
    }
  } while (0);
  if (ok) m.ok++; else m.bad++;
  if (call) { Loc c = m.l; if (m.free_pos) c.sats |= 0x1000; m.calls.push_back(c); }
}
static void judge_all(Model& m, const S& s) { size_t at = 0, nl; while ((nl = s.find('\n', at)) != S::npos) { judge(m, s.substr(at, nl - at)); at = nl + 1; } }

/*----------------------------------------------------------------------------*/
static std::vector<Loc> g_calls;
static int8_t got(LocationFrame* f) {
  Loc l; l.lat = f->lat; l.lon = f->lon; l.hdop = f->dop_horiz; l.vdop = f->dop_vert; l.mag = f->mag_bearing; l.ts = (int64_t) f->timestamp; l.alt = f->altitude; l.speed = f->speed; l.sats = f->sat_count;
  g_calls.push_back(l); return 0;
}
static S sum(const S& body) { uint8_t x = 0; for (char c : body) x ^= (uint8_t) c; char t[4]; snprintf(t, sizeof(t), "*%02X", x); return "$" + body + t; }

static void push(GPSWrapper& g, const S& s) {
  if (s.empty()) return;
  StringBuilder b; b.concat((const uint8_t*) s.data(), (int) s.size());
  int8_t r = g.pushBuffer(&b);
  MC_CHECK((1 == r) && b.isEmpty(true), "take", "pushBuffer() returned %d and left %d bytes", r, b.length());
}
static S vis(const S& s) { S r; for (char c : s) { if (c >= 32 && c < 127) r += c; else { char t[6]; snprintf(t, sizeof(t), "\\x%02x", (uint8_t) c); r += t; } } return r; }

static void verdict(GPSWrapper& g, const Model& m, const S& what) {
  MC_CHECK(g.sentencesParsed() == m.ok, "parsed", "%s: %u sentences parsed, should be %u", what.c_str(), g.sentencesParsed(), m.ok);
  MC_CHECK(g.sentencesRejected() == m.bad, "rejected", "%s: %u sentences rejected, should be %u", what.c_str(), g.sentencesRejected(), m.bad);
  MC_CHECK(g_calls.size() == m.calls.size(), "calls", "%s: %u callbacks, should be %u", what.c_str(), (unsigned) g_calls.size(), (unsigned) m.calls.size());
  for (size_t i = 0; i < m.calls.size(); i++) {
    const Loc& a = g_calls[i]; const Loc& w = m.calls[i];
    if (!(w.sats & 0x1000)) MC_CHECK(same(a.lat, w.lat, 2e-6) && same(a.lon, w.lon, 2e-6), "position", "%s: callback %u is at %.7f %.7f, should be %.7f %.7f", what.c_str(), (unsigned) i, a.lat, a.lon, w.lat, w.lon);
    MC_CHECK(near(a.hdop, w.hdop) && near(a.vdop, w.vdop), "dop", "%s: callback %u has dop %f %f, should be %f %f", what.c_str(), (unsigned) i, a.hdop, a.vdop, w.hdop, w.vdop);
    MC_CHECK(near(a.mag, w.mag), "bearing", "%s: callback %u has bearing %f, should be %f", what.c_str(), (unsigned) i, a.mag, w.mag);
    MC_CHECK(a.ts == w.ts, "time", "%s: callback %u has time %lld, should be %lld", what.c_str(), (unsigned) i, (long long) a.ts, (long long) w.ts);
    MC_CHECK(same(a.alt, w.alt, 1 + w.alt * 2e-7), "altitude", "%s: callback %u has altitude %f, should be %f", what.c_str(), (unsigned) i, a.alt, w.alt);
    MC_CHECK(same(a.speed, w.speed, 1 + w.speed * 2e-7), "speed", "%s: callback %u has speed %f, should be %f", what.c_str(), (unsigned) i, a.speed, w.speed);
    MC_CHECK(a.sats == (w.sats & 0xFFF), "satellites", "%s: callback %u has %d satellites, should be %d", what.c_str(), (unsigned) i, a.sats, w.sats & 0xFFF);
  }
}

static const S FLUSH = S(150, '\n');
static const S REPORT = "GPVTG,156.1,T,140.9,M,0.0,N,7.2,K";
static int64_t quiet_base() { std::vector<Loc>().swap(g_calls); std::vector<std::string>().swap(plat::log); return mc::live_blocks(); }

static void stream(const std::vector<S>& pushes, const Model& m, const S& what) {
  mc::steps(1);
  g_calls.clear();
  GPSWrapper g; g.init(); g.setCallback(got);
  for (auto& p : pushes) {
    push(g, p);
    int32_t room = g.bufferAvailable();
    MC_CHECK((room >= 0) && (room <= 1024), "room", "%s: bufferAvailable() is %d", what.c_str(), room);
    MC_CHECK((g.sentencesParsed() <= m.ok) && (g.sentencesRejected() <= m.bad), "early", "%s: %u parsed and %u rejected part-way, of %u and %u", what.c_str(), g.sentencesParsed(), g.sentencesRejected(), m.ok, m.bad);
  }
  push(g, FLUSH);
  MC_CHECK(1024 == g.bufferAvailable(), "residue", "%s: only %d bytes of room when everything has been dealt with", what.c_str(), g.bufferAvailable());
  verdict(g, m, what);
}

/* Sentences as receivers send them. */
static std::vector<S> catalogue() {
  std::vector<S> c = {
    sum("GPRMC,081836,A,3751.65,S,14507.36,E,000.0,360.0,130918,011.3,E") + "\r\n",
    sum("GPVTG,054.7,T,034.4,M,005.5,N,010.2,K") + "\r\n",
    sum("GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,") + "\r\n",
    sum("GPGSA,A,3,04,05,,09,12,,,24,,,,,2.5,1.3,2.1") + "\r\n",
    "$GPGLL,3723.2475,N,12158.3416,W,161229.487,A,A*42\r\n",               // checksum is wrong
    "$GPVTG,188.36,T,012.5,M,0.820,N,1.519,K,A\n",                          // no checksum
    sum("GPGSV,4,4,13,39,31,170,27") + "\n",
    "noise\r\n",
    sum("GPZDA,201530.00,04,07,2002,00,00") + "\r\n",                        // unknown
    S("$GP\0MC,0818", 12) + "\r\n",
  };
  return c;
}

static void cuts(int nsent, int ncuts) {
  static const std::vector<S> cat = catalogue();
  const int64_t base = quiet_base();
  {
    S s, names;
    for (int i = 0; i < nsent; i++) { int k = mc::choose((unsigned) cat.size()); s += cat[k]; names += " " + std::to_string(k); }
    mc::op("sentences%s", names.c_str());
    mc::count_state(names);
    Model m; judge_all(m, s);
    const int n = (int) s.size();
    stream({s}, m, names + " whole");
    for (int i = 1; i < n; i++) {
      stream({s.substr(0, i), s.substr(i)}, m, names + " cut at " + std::to_string(i));
      if (ncuts > 1) for (int j = i + 1; j < n; j++) stream({s.substr(0, i), s.substr(i, j - i), s.substr(j)}, m, names + " cut at " + std::to_string(i) + "," + std::to_string(j));
    }
    for (int w = 1; w <= 9; w += 2) { std::vector<S> p; for (int i = 0; i < n; i += w) p.push_back(s.substr(i, w)); stream(p, m, names + " by " + std::to_string(w)); }
    std::vector<S>().swap(plat::log); std::vector<Loc>().swap(g_calls);
  }
  MC_CHECK(quiet_base() == base, "leak", "%ld blocks were not released", (long) (mc::live_blocks() - base));
}

/* One line, followed by a report. */
static const S lead = sum("GPRMC,010203,A,0130.00,N,00215.00,W,000.0,360.0,010220,011.3,E") + "\r\n" + sum("GPGGA,123519,4807.038,N,01131.000,E,1,05,0.9,12.5,M,46.9,M,,") + "\r\n" + sum("GPGSA,A,3,04,05,,09,12,,,24,,,,,2.5,3.3,4.1") + "\r\n" + sum("GPVTG,054.7,T,034.4,M,005.5,N,3.6,K") + "\r\n";
static void one(const S& line, const S& what) {
  S s = lead + line + "\n" + sum(REPORT) + "\r\n";
  Model m; judge_all(m, s);
  stream({s}, m, what);
}

static const char* BODIES[] = {
  "GPRMC,081836.75,A,3751.65,S,14507.36,E,000.0,360.0,130918,011.3,E", "GPVTG,054.7,T,034.4,M,005.5,N,010.2,K", "GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,",
  "GPGSA,A,3,04,05,,09,12,,,24,,,,,2.5,1.3,2.1", "GPGLL,3723.2475,N,12158.3416,W,161229.487,A,A", "GPGST,024603.00,3.2,6.6,4.7,47.3,5.8,5.6,22.0",
  "GPGSV,3,1,11,03,03,111,00,04,15,270,00,06,01,010,00,13,06,292,00", "GPVTG,188.36,T,,M,0.820,N,1.519,K,A", "GNRMC,000000,V,,,,,,,010124,,"};

/* Every single-byte corruption of every kind of sentence. */
static void corrupt(bool two_bytes) {
  const S body = BODIES[mc::choose(9)];
  const S line = sum(body) + "\r";
  mc::op("corrupt %s", line.c_str());
  const int i = mc::range(0, (int) line.size() - 1);
  const int64_t base = quiet_base();
  {
    for (int v = 0; v < 256; v++) {
      if (v == (uint8_t) line[i] || '\n' == v || '\r' == v) continue;
      S x = line; x[i] = (char) v;
      mc::count_state(x);
      one(x, "byte " + std::to_string(i) + " of " + vis(line) + " is " + std::to_string(v));
      if (i > 0 && i <= (int) body.size() && v >= 32 && v < 127 && v != '*') {
        Model m; judge(m, x); MC_CHECK(0 == m.ok, "reference", "the reference accepts a corrupted %s", vis(x).c_str());
      }
    }
    one(line.substr(0, i), "cut to " + std::to_string(i));
    one(line.substr(0, i) + line.substr(i + 1), "without byte " + std::to_string(i));
    if (two_bytes) for (int j = i + 1; j < (int) line.size(); j++) for (int bit = 0; bit < 7; bit++) {
      S x = line; x[i] ^= 1 << bit; x[j] ^= 1 << bit;           // passes the checksum
      if (x.find('\n') != S::npos || x.find('\r') != line.size() - 1) continue;
      bool sane = true; for (char c : x) if ((c < 32 || c > 126) && c != '\r') sane = false;
      if (!sane) continue;
      /* Numbers that are dates or counts may become anything: keep to the verdict of form. */
      Model m; judge(m, x); g_calls.clear(); GPSWrapper g; push(g, x + "\n"); push(g, FLUSH); mc::steps(1);
      MC_CHECK(g.sentencesParsed() == m.ok && g.sentencesRejected() == m.bad, "twobyte", "%s is %saccepted", vis(x).c_str(), m.ok ? "not " : "");
    }
    std::vector<S>().swap(plat::log); std::vector<Loc>().swap(g_calls);
  }
  MC_CHECK(quiet_base() == base, "leak", "%ld blocks were not released", (long) (mc::live_blocks() - base));
}

/* Every field of every kind of sentence takes every shape, one or two at a time; and every number of fields. */
static void shapes(bool pairs) {
  static const char* V[] = {"", "0", "1", "7.5", "-2.25", "+3", ".5", "4.", " 6", "6 ", "x", "1x", "-", ".", "1.2.3", "2147483647", "2147483648", "1.23456789012", "00.12345678", "N", "W", "T", "M", "K", "A", "081836", "081836.5", "0818", "310120", "12:30:"};
  const int NV = sizeof(V) / sizeof(*V);
  std::vector<S> f = fields(BODIES[mc::choose(9)]);
  const int i = mc::range(1, (int) f.size() - 1);
  mc::op("%s field %d", f[0].c_str(), i);
  const int64_t base = quiet_base();
  auto join = [](const std::vector<S>& x, size_t n) { S r; for (size_t k = 0; k < n; k++) r += (k ? "," : "") + x[k]; return r; };
  /* Values whose result is out of the frame's range are judged for form alone. */
  auto run = [&](const std::vector<S>& g, const S& what) {
    S body = join(g, g.size()); S id = g[0].substr(2);
    bool odd = false;
    for (size_t k = 1; k < g.size(); k++) if (g[k] != f[k]) {
      if (id == "GGA" && (k == 7 || k == 9)) { double v; if (f_num(g[k], &v) && (v < 0 || v > (k == 7 ? 255 : 2000000))) odd = true; if (k == 7 && g[k].size() >= 10) odd = true; }
      if (id == "VTG" && k == 7) { double v; if (f_num(g[k], &v) && (v < 0 || v > 1000000)) odd = true; }
      if (id == "RMC" && (k == 1 || k == 9) && !(g[k].empty() || g[k].substr(0, 6) == "081836" || (k == 9 && g[k] == "310120"))) odd = true;
      if (id == "RMC" && (k == 9) && g[k].substr(0, 4) == "0818") odd = true;
    }
    mc::count_state(body);
    if (!odd) one(sum(body) + "\r", what + ": " + body);
    else { S x = sum(body) + "\r"; Model m; judge(m, x); g_calls.clear(); GPSWrapper w; push(w, x + "\n"); push(w, FLUSH); mc::steps(1); MC_CHECK(w.sentencesParsed() == m.ok && w.sentencesRejected() == m.bad, "form", "%s is %saccepted", body.c_str(), m.ok ? "not " : ""); }
  };
  {
    for (int v = 0; v < NV; v++) {
      std::vector<S> g = f; g[i] = V[v];
      run(g, "one field");
      if (pairs) for (int j = i + 1; j < (int) f.size(); j++) for (int u = 0; u < NV; u++) { std::vector<S> h = g; h[j] = V[u]; run(h, "two fields"); }
    }
    one(sum(join(f, i)) + "\r", "first " + std::to_string(i) + " fields");
    one("$" + join(f, i), "first " + std::to_string(i) + " fields, no checksum");
    std::vector<S> g = f; g.push_back("9"); g.push_back("E"); one(sum(join(g, g.size())) + "\r", "two more fields");
    S low = sum(join(f, f.size())); for (size_t k = low.size() - 2; k < low.size(); k++) low[k] = (char) tolower(low[k]); one(low, "small letters in the checksum");
    std::vector<S>().swap(plat::log); std::vector<Loc>().swap(g_calls);
  }
  MC_CHECK(quiet_base() == base, "leak", "%ld blocks were not released", (long) (mc::live_blocks() - base));
}

/* Positions from every hemisphere and precision. */
static void positions(int step) {
  int dec = mc::range(0, 8); const char* ns = mc::flip() ? "S" : "N"; const char* ew = mc::flip() ? "W" : "E";
  mc::op("%d decimals %s %s", dec, ns, ew);
  const int64_t base = quiet_base();
  {
    static const int lats[] = {0, 1, 9, 45, 89}, lons[] = {0, 1, 10, 99, 179};
    for (int la : lats) for (int lo : lons) for (int mn = 0; mn < 60; mn += step) {
      char t[128], fa[24], fo[24];
      double frac = 0.12345678; snprintf(fa, sizeof(fa), "%02d%0*.*f", la, dec ? dec + 3 : 2, dec, mn + (dec ? frac : 0)); snprintf(fo, sizeof(fo), "%03d%0*.*f", lo, dec ? dec + 3 : 2, dec, (59 - mn) + (dec ? frac : 0));
      snprintf(t, sizeof(t), "GPRMC,081836,A,%s,%s,%s,%s,000.0,360.0,130918,011.3,E", fa, ns, fo, ew);
      mc::count_state(t);
      one(sum(t) + "\r", t);
    }
    std::vector<S>().swap(plat::log); std::vector<Loc>().swap(g_calls);
  }
  MC_CHECK(quiet_base() == base, "leak", "%ld blocks were not released", (long) (mc::live_blocks() - base));
}

/* Every day of some years and every hour. */
static void dates(int years) {
  int y = mc::range(0, years); int mo = mc::range(1, 12);
  static const int dim[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  mc::op("20%02d-%02d", y, mo);
  const int64_t base = quiet_base();
  for (int d = 1; d <= dim[mo - 1] + ((2 == mo) && (0 == y % 4)); d++) {
    char t[128]; int h = (d * 7) % 24, mi = (d * 13) % 60, s = (d * 29) % 60;
    snprintf(t, sizeof(t), "GPRMC,%02d%02d%02d,A,3751.65,S,14507.36,E,000.0,360.0,%02d%02d%02d,011.3,E", h, mi, s, d, mo, y);
    mc::count_state(t);
    one(sum(t) + "\r", t);
  }
  MC_CHECK(quiet_base() == base, "leak", "%ld blocks were not released", (long) (mc::live_blocks() - base));
}

/* Lines of every length, and streams that never break the line. */
static void lengths() {
  const int64_t base = quiet_base();
  {
    int k = mc::choose(3);
    if (0 == k) {
      for (int pad = 0; pad < 140; pad++) { S b = "GPGSV,4,4,13"; for (int i = 0; i < pad; i++) b += (i % 2) ? '1' : ','; mc::op("padded %d", pad); mc::count_state(b); S l = sum(b) + "\r"; one(l, "padded by " + std::to_string(pad)); }
    }
    else {
      int len = (1 == k) ? mc::range(1000, 1300) : mc::range(130, 150);
      mc::op("noise %d", len);
      mc::count_state("noise" + std::to_string(len));
      int by = mc::flip() ? len : 100;
      GPSWrapper g; g.setCallback(got); g_calls.clear();
      S noise(len, 'x'); for (int i = 0; i < len; i += by) push(g, noise.substr(i, by));
      MC_CHECK(0 == g.sentencesParsed() + g.sentencesRejected(), "early", "an unbroken line was judged");
      int w = 1024 - (len > 1024 ? 1024 : len);
      MC_CHECK(g.bufferAvailable() == w, "room", "bufferAvailable() is %d after %d bytes, should be %d", g.bufferAvailable(), len, w);
      push(g, "\n" + sum(REPORT) + "\r\n"); push(g, FLUSH);
      MC_CHECK((1 == g.sentencesParsed()) && (1 == g.sentencesRejected()), "recover", "%u parsed and %u rejected after %d bytes of noise", g.sentencesParsed(), g.sentencesRejected(), len);
      /* A long push that ends part-way through a sentence. */
      S big; while ((int) big.size() < len) big += sum(REPORT) + "\r\n";
      Model m; judge_all(m, big); size_t tail = mc::range(1, 30);
      GPSWrapper h; h.setCallback(got); g_calls.clear(); push(h, big.substr(0, big.size() - tail)); push(h, big.substr(big.size() - tail)); push(h, FLUSH);
      verdict(h, m, "a push of " + std::to_string(big.size() - tail));
      StringBuilder o; h.printDebug(&o); S txt((char*) o.string(), o.length());
      MC_CHECK(txt.find("Parsed " + std::to_string(m.ok)) != S::npos, "debug", "printDebug() does not say what was parsed");
    }
    std::vector<S>().swap(plat::log); std::vector<Loc>().swap(g_calls);
  }
  MC_CHECK(quiet_base() == base, "leak", "%ld blocks were not released", (long) (mc::live_blocks() - base));
}

/* Distances over a grid of the globe. */
static void distances(int step) {
  int la = mc::range(0, 180 / step) * step - 90, lb = mc::range(0, 180 / step) * step - 90;
  mc::op("%d to %d", la, lb);
  mc::count_state(std::to_string(la) + "," + std::to_string(lb));
  const double R = 6371009.0, P = acos(-1.0L) / (double) 180.0L;
  for (int a = -180; a <= 180; a += step) for (int b = -180; b <= 180; b += step) for (int tiny = 0; tiny < 3; tiny++) {
    LocationFrame x, y; x.lat = la; x.lon = a; y.lat = lb; y.lon = b + tiny * (double) 0.001L; if (tiny == 2) y.lat += (lb > 0 ? -1 : 1) * (double) 0.0005L;
    /* The angle between the two directions, by their cross and dot products. */
    auto vec = [&](const LocationFrame& f, double v[3]) { v[0] = cos(f.lat * P) * cos(f.lon * P); v[1] = cos(f.lat * P) * sin(f.lon * P); v[2] = sin(f.lat * P); };
    double u[3], v[3]; vec(x, u); vec(y, v);
    double c[3] = {u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]};
    double w = R * atan2(sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]), u[0] * v[0] + u[1] * v[1] + u[2] * v[2]);
    int32_t d = GPSWrapper::haversineDistance(&x, &y), e = GPSWrapper::haversineDistance(&y, &x);
    mc::steps(1);
    MC_CHECK(fabs(d - w) < 3 + w * (double) 2e-7L || (w > R * 3 && fabs(d - w) < 30), "distance", "from %f %f to %f %f is said to be %d m, is %.1f", x.lat, x.lon, y.lat, y.lon, d, w);
    MC_CHECK(abs(d - e) <= 1, "symmetry", "from %f %f to %f %f is %d m, and %d m back", x.lat, x.lon, y.lat, y.lon, d, e);
  }
}

int main(int argc, char** argv) {
  setenv("TZ", "UTC", 1); tzset();
  const char* tier = getenv("VERIF_TIER"); const bool T = tier && !strcmp(tier, "thorough");
  std::vector<mc::Config> c;
  c.push_back({"two sentences, in two pushes cut anywhere or many", []() { cuts(2, 1); }, 2, "10 kinds of sentence, every cut"});
  c.push_back({"three sentences, in two pushes cut anywhere or many", []() { cuts(3, 1); }, 2, "10 kinds of sentence, every cut"});
  c.push_back({"two sentences, in three pushes cut anywhere", [T]() { if (T) cuts(2, 2); else { cuts(1, 2); } }, 2, T ? "10 kinds of sentence, every two cuts" : "1 sentence of 10 kinds, every two cuts"});
  if (T) c.push_back({"four sentences, in two pushes cut anywhere or many", []() { cuts(4, 1); }, 3, "10 kinds of sentence, every cut"});
  c.push_back({"every byte of every kind of sentence corrupted", [T]() { corrupt(T); }, 2, T ? "9 sentences, 256 values, and every two bits that pass the checksum" : "9 sentences, 256 values"});
  c.push_back({"every shape of every field", []() { shapes(false); }, 2, "9 sentences, 30 shapes, every number of fields"});
  if (T) c.push_back({"every shape of every two fields", []() { shapes(true); }, 2, "9 sentences, 30 x 30 shapes"});
  c.push_back({"positions", [T]() { positions(T ? 1 : 7); }, 2, "4 hemispheres, 0..8 decimals"});
  c.push_back({"dates", [T]() { dates(T ? 37 : 8); }, 2, T ? "every day of 2000..2037" : "every day of 2000..2008"});
  c.push_back({"line lengths and unbroken streams", []() { lengths(); }, 2, "lines of 16..160 bytes, pushes of up to 1300"});
  c.push_back({"distances", [T]() { distances(T ? 5 : 15); }, 2, T ? "a grid of 5 degrees" : "a grid of 15 degrees"});
  return mc::main(argc, argv, "C45", c, {});
}
