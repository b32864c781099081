/* C33: a time series put into CBOR and read back. */
#include "cborval.h"
#include <algorithm>
#include <math.h>

using val::S;
template <typename T> static std::vector<T> alphabet() {
  typedef std::numeric_limits<T> L;
  if (!L::is_integer) return {(T) -1e30L, (T) -0.75L, (T) 0, (T) 1e-3L, L::max(), L::denorm_min(), L::infinity()};
  return {L::max(), L::min(), (T) (L::max() / 2 + 1), (T) 24, (T) 23, (T) 0, (T) (0 - 25)};
}
struct Setup { uint32_t win, fed; unsigned name, units; };
static const char* const NAMES[] = {nullptr, "n", "a name of more than twenty-three letters"};
static SIUnit UNITS[3][4] = {{(SIUnit) 0}, {SIUnit::METERS, (SIUnit) 0}, {SIUnit::METERS, SIUnit::SECONDS, SIUnit::KELVIN, (SIUnit) 0}};

template <typename T> static void compare(TimeSeries<T>& a, TimeSeriesBase* b0, const std::vector<T>& all, const Setup& u, const char* when) {
  MC_CHECK(b0->tcode() == a.tcode(), "type", "%s: %s comes back as %s", when, typecodeToStr(a.tcode()), typecodeToStr(b0->tcode()));
  TimeSeries<T>& b = *(TimeSeries<T>*) b0;
  MC_CHECK(b.initialized() && b.windowSize() == u.win, "window", "%s: the window of %u comes back as %u", when, u.win, b.windowSize());
  MC_CHECK(b.totalSamples() == all.size() && b.windowFull() == (all.size() >= u.win), "count", "%s: %zu samples come back as %u, full %d", when, all.size(), b.totalSamples(), b.windowFull());
  MC_CHECK(S(b.name()) == S(NAMES[u.name] ? NAMES[u.name] : ""), "name", "%s: the name comes back as '%s'", when, b.name());
  MC_CHECK(S((char*) b.units()) == S((char*) UNITS[u.units]), "units", "%s: the units come back as %s", when, mc::hex(S((char*) b.units())).c_str());
  const uint32_t n = std::min<uint32_t>(u.win, (uint32_t) all.size());
  T buf[16];
  for (uint32_t k = n; k && k + 1 > n; k--) {
    MC_CHECK(b.copyValues(buf, k, false) == 0, "samples", "%s: the %u samples do not read back", when, k);
    for (uint32_t i = 0; i < k; i++) MC_CHECK(buf[i] == all[all.size() - k + i], "samples", "%s: window %u after %zu: sample %u comes back as %.9g, not %.9g", when, u.win, all.size(), i, (double) buf[i], (double) all[all.size() - k + i]);
  }
  for (uint32_t i = 0; i < n; i++) {
    const uint32_t k = b.indexIsWhichSample(i);
    MC_CHECK(k < all.size() && k + n >= all.size() && b.memPtr()[i] == all[k], "which", "%s: place %u says it holds sample %u of %zu", when, i, k, all.size());
  }
  MC_CHECK(b.minValue() == a.minValue() && b.maxValue() == a.maxValue() && b.median() == a.median(), "statistics", "%s: minimum, maximum or median differ", when);
  const double big = std::max(fabs(a.rms()), fabs(a.mean()));
  auto near = [=](double x, double y) { return x == y || (x != x && y != y) || fabs(x - y) <= 1e-6 * big; };
  MC_CHECK(near(a.mean(), b.mean()) && near(a.rms(), b.rms()) && near(a.stdev(), b.stdev()), "statistics", "%s: mean %g %g, RMS %g %g, standard deviation %g %g", when, a.mean(), b.mean(), a.rms(), b.rms(), a.stdev(), b.stdev());
  const T v = b.value(); MC_CHECK(v == a.value(), "value", "%s: the latest value comes back as %.9g", when, (double) v);
  mc::steps(1);
}
static TimeSeriesBase* parse(StringBuilder* sb, TimeSeriesBase* into) {
  C3PValue* v = C3PValue::deserialize(sb, TCode::CBOR);
  MC_CHECK(v && v->tcode() == TCode::TIMESERIES && !v->nextValue(), "parse", "the series does not parse: %s", v ? typecodeToStr(v->tcode()) : "nothing");
  MC_CHECK(sb->length() == 0, "parse", "%d bytes are left", sb->length());
  TimeSeriesBase* r = nullptr;
  MC_CHECK(v->get_as(&r) == 0 && r && r != into, "parse", "no series in the value");
  v->reapValue(false); delete v;                         // (the series is handed over)
  return r;
}
/* Also by way of the object's type, onto a series that exists. */
static void onto(StringBuilder* sb, TimeSeriesBase* target) {
  S raw((char*) sb->string(), (size_t) sb->length());
  size_t at = 0; ref::Head h; MC_CHECK(ref::read_head(raw, at, h) == 1 && h.major == 6, "parse", "no tag");
  StringBuilder rest((uint8_t*) raw.data() + h.len, (int) (raw.size() - h.len)); sb->clear();
  C3PValue* v = C3PValue::deserialize(&rest, TCode::CBOR);
  MC_CHECK(v && v->has_key(), "parse", "the content of the tag is no map");
  KeyValuePair* kvp = (KeyValuePair*) v;
  TimeSeriesBase* p = target;
  MC_CHECK(getTypeHelper(TCode::TIMESERIES)->construct(&p, kvp) == 0 && p == target, "onto", "the update is refused");
  delete v;
}
template <typename T> static void trip(Setup u, unsigned mode) {
  const std::vector<T> A = alphabet<T>();
  const unsigned shift = mc::choose((uint32_t) A.size());
  const int64_t base = quiet_blocks();
  {
    std::vector<T> all; TimeSeries<T> a(u.win); a.init();
    if (NAMES[u.name]) a.name((char*) NAMES[u.name]);
    if (u.units) a.units(UNITS[u.units]);
    auto next = [&]() { T v = A[(all.size() * 3 + shift) % A.size()]; all.push_back(v); return v; };
    for (uint32_t i = 0; i < u.fed; i++) a.feedSeries(next());
    mc::op("%s, window %u, %u samples from %u, name %u, units %u, mode %u", typecodeToStr(a.tcode()), u.win, u.fed, shift, u.name, u.units, mode);
    const bool dirty = a.dirty();
    StringBuilder sb;
    const int r = a.serialize(&sb, TCode::CBOR);
    MC_CHECK(a.dirty() == dirty && a.totalSamples() == all.size(), "serialize", "serializing altered the series");
    if (!a.windowFull() && r != 0) return;               // only full windows travel
    MC_CHECK(r == 0, "serialize", "serializing returned %d", r);
    if (mode < 2) {
      TimeSeriesBase* b = parse(&sb, &a);
      compare(a, b, all, u, "parsed");
      for (unsigned more = 0; more <= u.win; more++) {   // it is as good as the original, over and over
        const T v = next(); a.feedSeries(v); const int fr = ((TimeSeries<T>*) b)->feedSeries(v);
        MC_CHECK(fr == 1, "feed", "feeding the parsed series returned %d", fr);
        compare(a, b, all, u, "fed again");
        if (mode == 1) {
          MC_CHECK(b->serialize(&sb, TCode::CBOR) == 0, "serialize", "serializing the parsed series failed");
          TimeSeriesBase* c = parse(&sb, b); compare(a, c, all, u, "parsed again"); delete b; b = c;
        }
      }
      delete b;
    }
    else {                                               // onto a series with a history of its own
      const uint32_t w2 = mode == 2 ? u.win : mode == 3 ? u.win + 1 : u.win - 1, pre = mc::choose(2 * w2 + 1);
      TimeSeries<T> b(w2); b.init();
      for (uint32_t i = 0; i < pre; i++) b.feedSeries(A[(i * 2 + 1) % A.size()]);
      if (mc::flip()) { b.mean(); b.minValue(); b.median(); b.rms(); b.stdev(); }
      mc::op("onto a series of window %u with %u samples", w2, pre);
      onto(&sb, &b); compare(a, &b, all, u, "updated");
      for (unsigned more = 0; more <= u.win; more++) { const T v = next(); a.feedSeries(v); b.feedSeries(v); compare(a, &b, all, u, "updated and fed"); }
    }
  }
  MC_CHECK(quiet_blocks() == base, "leak", "%lld blocks were not released", (long long) (quiet_blocks() - base));
}
#define EVERY_TYPE(CALL) switch (mc::choose(10)) { case 0: CALL(uint8_t); break; case 1: CALL(int8_t); break; case 2: CALL(uint16_t); break; case 3: CALL(int16_t); break; case 4: CALL(uint32_t); break; \
  case 5: CALL(int32_t); break; case 6: CALL(uint64_t); break; case 7: CALL(int64_t); break; case 8: CALL(float); break; default: CALL(double); }
static Setup any(bool plain) {
  Setup u; u.win = 1 + mc::choose(mc::thorough ? 9 : 6); u.fed = mc::choose((mc::thorough ? 3 : 2) * u.win + 2);
  if (plain) { u.name = 1; u.units = 1; } else { u.name = mc::choose(3); u.units = mc::choose(3); }
  return u;
}
#define TRIP(T)   { Setup u = any(false); trip<T>(u, mc::choose(2)); }
#define UPDATE(T) { Setup u = any(true); trip<T>(u, 2 + mc::choose(3)); }
/* Altered bytes must not do harm. */
template <typename T> static void altered() {
  const int64_t base = quiet_blocks();
  {
    const std::vector<T> A = alphabet<T>();
    TimeSeries<T> a(3); a.init(); a.name((char*) "nm"); a.units(UNITS[1]);
    for (unsigned i = 0; i < 4; i++) a.feedSeries(A[i]);
    StringBuilder sb; a.serialize(&sb, TCode::CBOR);
    S raw((char*) sb.string(), (size_t) sb.length());
    const unsigned at = mc::choose((uint32_t) raw.size()); const int what = (int) mc::choose(3);
    mc::op("%s, byte %u %s", typecodeToStr(a.tcode()), at, what == 0 ? "altered" : what == 1 ? "removed" : "cut here");
    for (int v = 0; v < (what ? 1 : 256); v++) {
      S s = raw; if (what == 0) s[at] = (char) v; else if (what == 1) s.erase(at, 1); else s.resize(at);
      StringBuilder in((uint8_t*) s.data(), (int) s.size());
      C3PValue* w = C3PValue::deserialize(&in, TCode::CBOR);
      if (w) {
        if (w->tcode() == TCode::TIMESERIES) {
          TimeSeriesBase* b = nullptr;
          if (w->get_as(&b) == 0 && b && b->windowSize() && b->windowSize() < 10000) { StringBuilder txt; b->printSeries(&txt); StringBuilder again; b->serialize(&again, TCode::CBOR); }
        }
        delete w;
      }
      mc::steps(1);
    }
  }
  MC_CHECK(quiet_blocks() == base, "leak", "%lld blocks were not released", (long long) (quiet_blocks() - base));
}
#define ALTERED(T) altered<T>()

int main(int argc, char** argv) {
  std::vector<mc::Config> c;
  c.push_back({"trip", []{ EVERY_TYPE(TRIP) }, 4, "all ten sample types, windows of 1..6 (thorough 9), 0..2 windows + 1 samples (every place of the wrap), 3 names, 3 units; then fed on for more than a window, and parsed again after each sample"});
  c.push_back({"update", []{ EVERY_TYPE(UPDATE) }, 4, "the same onto a series of the same type with 0..2 windows of samples of its own, statistics asked for or not, same or other window"});
  c.push_back({"altered", []{ EVERY_TYPE(ALTERED) }, 2, "every byte replaced by every other, removed, or the text cut there: no harm"});
  return mc::main(argc, argv, "C33", c, {
    "a series whose window is not full carries no samples, and serialize() answers -1; where it answers 0 the comparison is made", "NaN samples are not compared"});
}
