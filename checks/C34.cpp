/* C34: sensor filters against the list of their inputs since they were last reset. */
#include "../mc/mc.h"
#include "TimeSeries/SensorFilter.h"
#include <vector>
#include <string>
#include <limits>
#include <algorithm>
#include <math.h>

typedef long double LD;
typedef FilteringStrategy FS;
static const FS ALL[] = {FS::MOVING_AVG, FS::MOVING_MED, FS::RAW, FS::HARMONIC_MEAN, FS::GEOMETRIC_MEAN, FS::QUANTIZER};
enum Stat { MIN, MAX, MEAN, RMS, STDEV, MEDIAN, NSTATS };
static const char* const STATS[] = { "minimum", "maximum", "mean", "RMS", "standard deviation", "median" };

static LD midst(std::vector<LD> w) { std::sort(w.begin(), w.end()); const LD lo = w[(w.size() - 1) / 2], hi = w[w.size() / 2]; return lo + (hi - lo) / 2; }
static LD statistic(const std::vector<LD>& w, int k) {
  LD sum = 0, sq = 0, dev = 0;
  for (LD x : w) { sum += x; sq += x * x; }
  for (LD x : w) { const LD d = x - sum / w.size(); dev += d * d; }
  switch (k) {
    case MIN:   return *std::min_element(w.begin(), w.end());
    case MAX:   return *std::max_element(w.begin(), w.end());
    case MEAN:  return sum / w.size();
    case RMS:   return sqrtl(sq / w.size());
    case STDEV: return sqrtl(dev / w.size());
    default:    return midst(w);
  }
}
static LD biggest(const std::vector<LD>& w) { LD b = 0; for (LD x : w) b = std::max(b, fabsl(x)); return b; }

/* What one channel of a filter should say. */
template <typename T> struct Channel {
  std::vector<LD> fed; LD avg = 0, big = 0; LD out = 0;
  void reset() { fed.clear(); avg = out = big = 0; }
  void rebase() { avg = 0; out = 0; }
  std::vector<LD> window(uint32_t w) const { return std::vector<LD>(fed.end() - w, fed.end()); }
  void feed(T x, uint32_t w, FS how) {
    fed.push_back((LD) x); big = std::max(big, fabsl((LD) x));
    if (w < 2) { out = avg = (LD) x; return; }
    switch (how) {
      case FS::MOVING_AVG: avg = (out * (w - 1) + (LD) x) / w; out = std::numeric_limits<T>::is_integer ? truncl(avg) : avg; break;
      case FS::MOVING_MED: out = fed.size() >= w ? midst(window(w)) : 0; break;
      default: out = (LD) x;
    }
  }
  LD slack(FS how, uint32_t w) const {
    if (!std::numeric_limits<T>::is_integer) return big * (sizeof(T) == 4 ? 1e-5L : 1e-12L);
    return (w > 1 && how == FS::MOVING_MED) ? 0.75L : 0;                    // half of an integer goes either way
  }
};
static bool odd_exact(uint32_t w, FS how) { return how == FS::MOVING_MED && (w & 1); }

template <typename T> static std::vector<T> alphabet() {
  typedef std::numeric_limits<T> L;
  if (!L::is_integer) return {(T) -1e10L, (T) -0.75L, (T) 1e-3L, (T) 1e10L, (T) 0, (T) 3};
  if (!L::is_signed)  return {L::max(), (T) 0, (T) (L::max() / 2 + 1), (T) 3, (T) 1, (T) (L::max() - 1)};
  return {L::max(), L::min(), (T) -3, (T) 2, (T) -2, (T) (L::max() - 1)};
}
template <typename T> struct Scalar {
  SensorFilter<T> f; Channel<T> c; uint32_t win; FS how; bool live = false, fixed = false, stale_out = false, drifted = false, shy = false;
  Scalar(uint32_t w, FS h) : f(w, h), win(w), how(h) {}
  Scalar(T* own, uint32_t w, FS h) : f(own, (int) w, h), win(w), how(h), fixed(true) {}
  bool full() const { return live && (win < 2 ? !c.fed.empty() : c.fed.size() >= win); }
  void feed(T x) {
    const int r = f.feedFilter(x);
    if (live) { c.feed(x, win, how); stale_out = false; }
    MC_CHECK(r == (!live ? -1 : full() ? 1 : 0), "feed", "input %zu into a window of %u returned %d", c.fed.size(), win, r);
    if (live && full()) MC_CHECK(f.dirty(), "dirty", "not dirty after an input");
  }
  void look(bool stats, int one = -1) {
    MC_CHECK(f.initialized() == live, "ready", "initialized is %d", f.initialized());
    MC_CHECK(f.windowSize() == (live ? win : 0), "window", "the window is %u, not %u", f.windowSize(), win);
    MC_CHECK((f.windowFull() != 0) == full(), "full", "full is %d after %zu into a window of %u", (int) f.windowFull(), c.fed.size(), win);
    if (live) MC_CHECK(f.totalSamples() == c.fed.size(), "count", "%u samples, of %zu", f.totalSamples(), c.fed.size());
    MC_CHECK(f.strategy() == how, "strategy", "the strategy is %u", (unsigned) f.strategy());
    if (!shy && (full() ? !stale_out : c.fed.empty())) {
      const LD got = (LD) f.value(), slack = odd_exact(win, how) ? 0 : c.slack(how, win);
      MC_CHECK(fabsl(got - c.out) <= slack, "value", "%s of window %u after %zu inputs is %.12Lg, not %.12Lg", getFilterStr(how), win, c.fed.size(), got, c.out);
      MC_CHECK(!f.dirty(), "dirty", "dirty after value()");
      if (full() && !odd_exact(win, how)) c.out = got;                    // rounding is not held against what follows
    }
    if (stats || one >= 0) for (int k = stats ? 0 : one; k <= (stats ? NSTATS - 1 : one); k++) {
      LD got = k == MIN ? (LD) f.minValue() : k == MAX ? (LD) f.maxValue() : k == MEAN ? f.mean() : k == RMS ? f.rms() : k == STDEV ? f.stdev() : (LD) f.median();
      if (!full() || win == 0) { if (c.fed.empty() && !drifted) MC_CHECK(got == 0, "unset", "%s without samples is %Lg", STATS[k], got); continue; }
      if (win == 1 && (k == RMS || k == STDEV)) continue;
      const std::vector<LD> w = c.window(win); const LD want = statistic(w, k), big = biggest(w);
      const bool exact = k == MIN || k == MAX || (k == MEDIAN && (win & 1));
      const LD slack = exact ? 0 : k == STDEV ? big * 1e-7L : k == MEDIAN ? (std::numeric_limits<T>::is_integer ? 0.75L : big * 1e-6L) : big * 1e-12L;
      MC_CHECK(fabsl(got - want) <= slack, STATS[k], "%s of a window of %u after %zu inputs is %.12Lg, not %.12Lg", STATS[k], win, c.fed.size(), got, want);
    }
    mc::steps(1);
  }
  void purge() { f.purge(); c.reset(); stale_out = false; if (live) drifted = false; }
  void init() {
    if (fixed && live) throw mc::Prune();                                  // memory of the owner is not cleared again
    const int r = f.init(); MC_CHECK((r == 0) == (win > 0), "init", "initialising a window of %u returned %d", win, r);
    live = win > 0; c.reset(); stale_out = false; drifted = fixed;
  }
  void resize(uint32_t n) {
    const int r = f.windowSize(n);
    if (fixed && n != win) { MC_CHECK(r < 0, "resize", "resizing memory of the owner returned %d", r); return; }
    if (n == 0 && win == 0) throw mc::Prune();
    if (r == 0) { MC_CHECK(!live || f.windowSize() == n, "resize", "resized to %u, the window is %u", n, f.windowSize()); win = n; }
    else MC_CHECK(n == win, "resize", "resizing from %u to %u returned %d", win, n, r);
    c.reset(); stale_out = false;
  }
  void strategy(FS h) {
    const int r = f.setStrategy(h);
    MC_CHECK((r == 0) == (h != how), "strategy", "changing %s to %s returned %d", getFilterStr(how), getFilterStr(h), r);
    if (h != how) { how = h; c.rebase(); stale_out = true; }
  }
};
#define EVERY_TYPE(CALL) switch (mc::choose(8)) { case 0: CALL(uint8_t); break; case 1: CALL(int8_t); break; case 2: CALL(uint16_t); break; case 3: CALL(int16_t); break; case 4: CALL(uint32_t); break; \
  case 5: CALL(int32_t); break; case 6: CALL(float); break; default: CALL(double); }

template <typename T> static void contents(uint32_t win, uint32_t over, unsigned values) {
  const std::vector<T> A = alphabet<T>(); const FS how = ALL[mc::choose(win > 3 ? 2 : 6)];
  const int64_t base = mc::live_blocks();
  {
    Scalar<T> eager(win, how), lazy(win, how); eager.init(); lazy.init();
    for (uint32_t i = 0; i < win + over; i++) {
      const T x = A[mc::choose(values)];
      mc::op("%s of %zu-byte samples: %.9g into a window of %u", getFilterStr(how), sizeof(T), (double) x, win);
      eager.feed(x); lazy.feed(x); eager.look(true);
    }
    lazy.c.out = eager.c.out; lazy.look(false); for (int k = NSTATS - 1; k >= 0; k--) lazy.look(false, k);
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks were not released", (long long) (mc::live_blocks() - base));
}
template <typename T> static void history(unsigned depth, bool external) {
  const std::vector<T> A = alphabet<T>(); 
  const FS first = ALL[mc::choose(3)]; const uint32_t win = external ? 1 + mc::choose(3) : mc::choose(4);
  const int64_t base = mc::live_blocks();
  {
    T own[4] = {(T) 9, (T) 9, (T) 9, (T) 9};
    Scalar<T>* p = external ? new Scalar<T>(own, win, first) : new Scalar<T>(win, first); Scalar<T>& s = *p;
    s.drifted = external; s.shy = mc::flip();             // a shy one never asks for the value
    mc::op("%s, window %u%s", getFilterStr(first), win, external ? ", own memory" : ""); if (s.shy) mc::op("the value is never read");
    s.look(true);
    if (mc::flip()) { mc::op("init"); s.init(); }
    uint32_t serial = 0; auto next = [&]() { serial++; return A[(serial * 5 + serial / 3) % A.size()]; };
    for (unsigned d = 0; d < depth; d++) {
      switch (mc::choose(7)) {
        case 0: { static const uint32_t MANY[] = {1, 2, 4}; const uint32_t n = mc::pick(MANY); mc::op("%u inputs", n); for (uint32_t i = 0; i < n; i++) { s.feed(next()); s.look(false); } break; }
        case 1: { const int k = (int) mc::choose(NSTATS); mc::op("%s", STATS[k]); s.look(false, k); break; }
        case 2: mc::op("purge"); s.purge(); break;
        case 3: { const uint32_t n = mc::choose(4); mc::op("window %u", n); s.resize(n); break; }
        case 4: mc::op("init"); s.init(); break;
        case 5: { const FS h = ALL[mc::choose(3)]; mc::op("strategy %s", getFilterStr(h)); s.strategy(h); break; }
        default: {
          mc::op("filled from outside");
          if (!s.live) { MC_CHECK(s.f.feedFilter() < 0, "bulk", "filled while not initialised"); break; }
          if (s.win == 0) throw mc::Prune();
          for (uint32_t i = 0; i < s.win; i++) { const T x = next(); s.f.memPtr()[i] = x; s.c.fed.push_back((LD) x); s.c.big = std::max(s.c.big, fabsl((LD) x)); }
          MC_CHECK(s.f.feedFilter() >= 0, "bulk", "filling was refused"); s.stale_out = true; break; }
      }
      s.look(false);
    }
    s.look(true);
    if (s.live) for (uint32_t i = 0; i < s.win + 1; i++) { s.feed(next()); s.look(i >= s.win); }
    delete p;
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks were not released", (long long) (mc::live_blocks() - base));
}
/* The filter of vectors, each axis by itself. */
template <typename T> static void vectors(unsigned depth) {
  static const T A[5][3] = {{1, -2, (T) 0.5}, {-4, 8, 2}, {(T) 0.25, 0, -16}, {3, -2, 7}, {-1, 5, (T) -0.5}};
  const FS first = ALL[mc::choose(3)]; uint32_t win = 1 + mc::choose(4); FS how = first; bool live = false, stale_out = false; const bool shy = mc::flip();
  const int64_t base = mc::live_blocks();
  {
    SensorFilter3<T> f(win, first); Channel<T> c[3]; uint32_t serial = 0; unsigned phase = mc::choose(mc::thorough ? 5 : 2);
    auto full = [&]() { return live && win > 1 && c[0].fed.size() >= win; };
    auto look = [&](bool stats, unsigned order = 0) {
      MC_CHECK(f.initialized() == live && f.windowSize() == (live ? win : 0), "vector:window", "the window is %u", f.windowSize());
      if (win > 1) MC_CHECK((f.windowFull() != 0) == full(), "vector:full", "full is %d after %zu into %u", (int) f.windowFull(), c[0].fed.size(), win);
      if (live && win > 1) MC_CHECK(f.totalSamples() == c[0].fed.size(), "vector:count", "%u samples of %zu", f.totalSamples(), c[0].fed.size());
      if (!shy && live && !stale_out && (full() || c[0].fed.empty() || win == 1)) {
        Vector3<T> v(*f.value()); const T got[3] = {v.x, v.y, v.z};
        for (int a = 0; a < 3; a++) MC_CHECK(fabsl((LD) got[a] - c[a].out) <= c[a].big * 1e-5L, "vector:value", "%s of window %u after %zu inputs: axis %d is %g, not %Lg", getFilterStr(how), win, c[a].fed.size(), a, (double) got[a], c[a].out);
      }
      if (stats && full()) {
        Vector3f64 m, r, s; Vector3<T> lo, hi;
        for (unsigned i = 0; i < 5; i++) switch ((i + order) % 5) { case 0: m = *f.mean(); break; case 1: r = *f.rms(); break; case 2: s = *f.stdev(); break; case 3: lo = *f.minValue(); break; default: hi = *f.maxValue(); }
        const double gm[3] = {m.x, m.y, m.z}, gr[3] = {r.x, r.y, r.z}, gs[3] = {s.x, s.y, s.z};
        LD least = 1e30L, most = -1; std::vector<LD> w[3]; for (int a = 0; a < 3; a++) w[a] = c[a].window(win);
        for (int a = 0; a < 3; a++) {
          const LD big = biggest(w[a]) * 1e-5L;
          MC_CHECK(fabsl(gm[a] - statistic(w[a], MEAN)) <= big && fabsl(gr[a] - statistic(w[a], RMS)) <= big && fabsl(gs[a] - statistic(w[a], STDEV)) <= big, "vector:statistics",
            "axis %d of window %u after %zu inputs: mean %g, RMS %g, standard deviation %g; should be %Lg, %Lg, %Lg", a, win, c[a].fed.size(), gm[a], gr[a], gs[a], statistic(w[a], MEAN), statistic(w[a], RMS), statistic(w[a], STDEV));
        }
        bool lo_in = false, hi_in = false;
        for (uint32_t i = 0; i < win; i++) {
          const LD len = sqrtl(w[0][i] * w[0][i] + w[1][i] * w[1][i] + w[2][i] * w[2][i]); least = std::min(least, len); most = std::max(most, len);
          lo_in |= w[0][i] == lo.x && w[1][i] == lo.y && w[2][i] == lo.z; hi_in |= w[0][i] == hi.x && w[1][i] == hi.y && w[2][i] == hi.z;
        }
        MC_CHECK(lo_in && hi_in && fabsl(lo.length() - least) < 1e-4L && fabsl(hi.length() - most) < 1e-4L, "vector:extremes", "the shortest and longest of the window are %g and %g long, not %Lg and %Lg", (double) lo.length(), (double) hi.length(), least, most);
      }
      mc::steps(1);
    };
    look(false);
    if (mc::flip()) { mc::op("init"); MC_CHECK(f.init() == 0, "vector:init", "init failed"); live = true; }
    auto feed = [&]() {
      const T* v = A[(serial++ + phase) % 5]; int r;
      if (serial & 1) r = f.feedFilter(v[0], v[1], v[2]); else { Vector3<T> t(v[0], v[1], v[2]); r = f.feedFilter(&t); }
      if (live) { for (int a = 0; a < 3; a++) c[a].feed(v[a], win, how); stale_out = false; }
      MC_CHECK(r == (!live ? -1 : (win == 1 || full()) ? 1 : 0), "vector:feed", "input %zu into a window of %u returned %d", c[0].fed.size(), win, r);
    };
    mc::op("%s, window %u, from %u", getFilterStr(first), win, phase);
    for (unsigned d = 0; d < depth; d++) {
      switch (mc::choose(7)) {
        case 0: { static const uint32_t MANY[] = {1, 2, 4}; const uint32_t n = mc::pick(MANY); mc::op("%u inputs", n); for (uint32_t i = 0; i < n; i++) { feed(); look(false); } break; }
        case 1: { const unsigned order = mc::choose(4); mc::op("statistics from %u", order); look(true, order + (order > 0)); break; }
        case 2: mc::op("purge"); f.purge(); for (auto& x : c) x.reset(); stale_out = false; break;
        case 3: { const uint32_t n = 1 + mc::choose(4); mc::op("window %u", n); const int r = f.windowSize(n); MC_CHECK(r == 0 || (n == win && !live), "vector:resize", "resizing from %u to %u returned %d", win, n, r); win = n; for (auto& x : c) x.reset(); stale_out = false; break; }
        case 4: mc::op("init"); MC_CHECK(f.init() == 0, "vector:init", "init failed"); live = true; for (auto& x : c) x.reset(); stale_out = false; break;
        case 5: {
          mc::op("filled from outside"); if (!live) { MC_CHECK(f.feedFilter() < 0, "vector:bulk", "filled while not initialised"); break; }
          if (win < 2) throw mc::Prune();
          for (uint32_t i = 0; i < win; i++) { const T* v = A[(serial++ * 2 + phase) % 5]; f.memPtr()[i](v[0], v[1], v[2]); for (int a = 0; a < 3; a++) { c[a].fed.push_back((LD) v[a]); c[a].big = std::max(c[a].big, fabsl((LD) v[a])); } }
          MC_CHECK(f.feedFilter() >= 0, "vector:bulk", "filling was refused"); stale_out = true; break; }
        default: { const FS h = ALL[mc::choose(3)]; mc::op("strategy %s", getFilterStr(h)); const int r = f.setStrategy(h); MC_CHECK((r == 0) == (h != how), "vector:strategy", "returned %d", r); if (h != how) { how = h; for (auto& x : c) x.rebase(); stale_out = true; } }
      }
      look(false);
    }
    look(true);
    if (live) for (uint32_t i = 0; i < win + 1; i++) { feed(); look(true); }
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks were not released", (long long) (mc::live_blocks() - base));
}
/* Windows longer than any small counter. */
template <typename T> static void wide() {
  const std::vector<T> A = alphabet<T>(); static const uint32_t WINS[] = {100, 255, 256, 257, 300, 520}; const uint32_t win = mc::pick(WINS); const FS how = ALL[mc::choose(3)]; const unsigned step = 1 + mc::choose(3);
  mc::op("%s of %zu-byte samples, window %u", getFilterStr(how), sizeof(T), win);
  Scalar<T> s(win, how); s.init(); for (uint32_t i = 0; i < win + 3; i++) { s.feed(A[((i + i / 7) * step) % A.size()]); if (i + 1 >= win || i % 37 == 0) s.look(true); else s.look(false); }
}
static void wide_vectors() {
  static const uint32_t WINS[] = {100, 255, 256, 257, 300, 520}; const uint32_t win = mc::pick(WINS); const FS how = ALL[mc::choose(3)]; mc::op("%s of vectors, window %u", getFilterStr(how), win);
  SensorFilter3<float> f(win, how); Channel<float> c[3]; MC_CHECK(f.init() == 0, "vector:init", "init failed");
  for (uint32_t i = 0; i < win + 3; i++) {
    const float v[3] = {(float) (i * 7 % 31) - 4, (float) (i * i % 17), (i & 1) ? -0.5f * i : 0.25f * i}; const int r = f.feedFilter(v[0], v[1], v[2]); mc::steps(1);
    MC_CHECK(r == (i + 1 >= win), "vector:feed", "input %u into a window of %u returned %d", i, win, r); for (int a = 0; a < 3; a++) c[a].feed(v[a], win, how);
    if (i + 1 < win) continue;
    Vector3<float> o(*f.value()); Vector3f64 m(*f.mean()), q(*f.rms()), d(*f.stdev()); const double go[3] = {o.x, o.y, o.z}, gm[3] = {m.x, m.y, m.z}, gq[3] = {q.x, q.y, q.z}, gd[3] = {d.x, d.y, d.z};
    for (int a = 0; a < 3; a++) { const std::vector<LD> w = c[a].window(win); const LD t = biggest(w) * 2e-4L;
      MC_CHECK(fabsl(go[a] - c[a].out) <= t, "vector:value", "%s of window %u: axis %d is %g, not %Lg", getFilterStr(how), win, a, go[a], c[a].out);
      MC_CHECK(fabsl(gm[a] - statistic(w, MEAN)) <= t && fabsl(gq[a] - statistic(w, RMS)) <= t && fabsl(gd[a] - statistic(w, STDEV)) <= t, "vector:statistics", "window %u, axis %d: mean %g, RMS %g, standard deviation %g", win, a, gm[a], gq[a], gd[a]); }
  }
}
#define WIDE(T)   wide<T>()
#define SHORT(T)  contents<T>(1 + mc::choose(3), mc::choose(4), 4)
#define LONGER(T) contents<T>(4 + mc::choose(2), mc::choose(mc::thorough ? 3 : 2), 4)
#define ORDERS(T) contents<T>(6 + mc::choose(3), 0, 2 + mc::thorough)
int main(int argc, char** argv) {
  const bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  std::vector<mc::Config> c;
  c.push_back({"short", []{ EVERY_TYPE(SHORT) }, 4, "all eight sample types and six strategies, windows of 1..3, every sequence of window + 0..3 inputs from 4 extreme values; value and statistics after each, and only at the end"});
  c.push_back({"longer", []{ EVERY_TYPE(LONGER) }, 5, "the same for windows of 4..5, averages and medians, window + 0..1 (thorough 2) inputs"});
  c.push_back({"orders", []{ EVERY_TYPE(ORDERS) }, 5, "windows of 6..8, every sequence of 2 (thorough 3) values"});
  c.push_back({"history", [=]{ if (mc::flip()) history<int16_t>(th ? 5 : 4, false); else history<double>(th ? 5 : 4, false); }, 5, "every history of 4 (thorough 5) runs of inputs, questions, purges, resizes, initialisations, changes of strategy and outside fills, windows of 0..3"});
  c.push_back({"external", [=]{ if (mc::flip()) history<uint32_t>(th ? 5 : 4, true); else history<float>(th ? 5 : 4, true); }, 5, "the same on memory of the owner"});
  c.push_back({"vectors", [=]{ vectors<float>(th ? 5 : 4); }, 5, "every history of 4 (thorough 5) such operations on a filter of vectors, windows of 1..4"});
  c.push_back({"wide", []{ if (mc::flip()) { EVERY_TYPE(WIDE) } else wide_vectors(); }, 3, "windows of 100, 255, 256, 257, 300 and 520 of all types and of vectors"});
  return mc::main(argc, argv, "C34", c, {
    "the moving average is the documented recursion over the window size; harmonic and geometric means and the quantizer are unfinished and pass the input on",
    "before the window is full, feedFilter() says so and the value is unspecified (but starts at 0); memory of the owner is not cleared by init()",
    "a vector filter of window 1 passes its input on and has no statistics"});
}
