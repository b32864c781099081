/* C32: a time series against the list of everything fed to it since it was last reset. */
#include "../mc/mc.h"
#include "TimeSeries/TimeSeries.h"
#include <vector>
#include <string>
#include <limits>
#include <algorithm>
#include <math.h>

template <typename T> struct Name { static const char* is(); };
#define NAMED(T) template <> const char* Name<T>::is() { return #T; }
NAMED(uint8_t) NAMED(uint16_t) NAMED(uint32_t) NAMED(uint64_t) NAMED(int8_t) NAMED(int16_t) NAMED(int32_t) NAMED(int64_t) NAMED(float) NAMED(double)

template <typename T> static std::vector<T> alphabet() {
  typedef std::numeric_limits<T> L;
  if (!L::is_integer) return {(T) -1e30L, (T) -0.75L, (T) 0, (T) 1e-3L, (T) 1e30L, (T) 3};
  if (!L::is_signed)  return {L::max(), (T) 0, (T) (L::max() - 1), (T) 1, (T) (L::max() / 2 + 1), (T) 3};
  return {L::max(), L::min(), (T) -3, (T) 2, (T) (L::max() - 1), (T) -2};
}
enum Stat { MIN, MAX, MEAN, RMS, STDEV, MEDIAN, SNR, VALUE, NSTATS };
static const char* const STATS[] = { "minimum", "maximum", "mean", "RMS", "standard deviation", "median", "SNR", "latest value" };

template <typename T> struct Model {
  uint32_t win = 0; bool live = false; std::vector<T> fed;    // everything since the last reset
  bool full() const { return live && fed.size() >= win; }
  std::vector<T> window() const { return std::vector<T>(fed.end() - win, fed.end()); }
  void reset() { fed.clear(); }
};
typedef long double LD;

template <typename T> static void stat(TimeSeries<T>& s, const Model<T>& m, int which) {
  LD got = 0, want = 0, slack = 0; T exact_got = 0, exact_want = 0; bool exact = false, open = false;
  std::vector<T> w; LD sum = 0, sq = 0, big = 0, dev = 0;
  if (m.full()) {
    w = m.window();
    for (T x : w) { sum += (LD) x; sq += (LD) x * (LD) x; big = std::max(big, fabsl((LD) x)); }
    for (T x : w) { const LD d = (LD) x - sum / w.size(); dev += d * d; }
  }
  const bool spread = m.full() && m.win > 1;
  const LD mean = w.empty() ? 0 : sum / w.size(), sd = w.empty() ? 0 : sqrtl(dev / w.size());
  switch (which) {
    case MIN:    exact = true; exact_got = s.minValue(); if (m.full()) exact_want = *std::min_element(w.begin(), w.end()); break;
    case MAX:    exact = true; exact_got = s.maxValue(); if (m.full()) exact_want = *std::max_element(w.begin(), w.end()); break;
    case VALUE:  exact = true; exact_got = s.value(); if (m.full()) exact_want = w.back(); break;
    case MEAN:   got = s.mean(); want = mean; slack = big * 1e-13L; break;
    case RMS:    got = s.rms(); if (spread) want = sqrtl(sq / w.size()); slack = big * 1e-12L; break;
    case STDEV:  got = s.stdev(); if (spread) want = sd; slack = big * 1e-7L; break;
    case MEDIAN: {
      const T g = s.median();
      if (spread) {
        std::sort(w.begin(), w.end());
        const LD lo = (LD) w[(w.size() - 1) / 2], hi = (LD) w[w.size() / 2];
        got = (LD) g; want = lo + (hi - lo) / 2;
        if (std::numeric_limits<T>::is_integer) slack = (lo == hi || w.size() % 2) ? 0 : 0.75L; else slack = std::max(fabsl(lo), fabsl(hi)) * (sizeof(T) == 4 ? 1e-6L : 1e-14L);
      }
      else got = (LD) g;
      break; }
    case SNR:
      got = s.snr();
      if (spread) { open = sd <= big * 1e-6L; if (!open) { want = mean * mean / (sd * sd); slack = (want + big * big / (sd * sd) * 1e-6L) * 1e-5L; } }
      break;
  }
  mc::steps(1);
  if (exact) MC_CHECK(exact_got == exact_want, STATS[which], "%s of %zu samples of %s in a window of %u is %.9g, not %.9g", STATS[which], m.fed.size(), Name<T>::is(), m.win, (double) exact_got, (double) exact_want);
  else if (open) MC_CHECK(!(got < 0), STATS[which], "%s is %Lg", STATS[which], got);
  else MC_CHECK(fabsl(got - want) <= slack, STATS[which], "%s of %zu samples of %s in a window of %u is %.12Lg, not %.12Lg", STATS[which], m.fed.size(), Name<T>::is(), m.win, got, want);
}
template <typename T> static void plain(TimeSeries<T>& s, const Model<T>& m, const char* when) {
  MC_CHECK(s.initialized() == m.live, "ready", "%s: initialized is %d", when, s.initialized());
  MC_CHECK(s.windowSize() == (m.live ? m.win : 0), "window", "%s: the window is %u, not %u", when, s.windowSize(), m.win);
  MC_CHECK(s.windowFull() == m.full(), "full", "%s: full is %d with %zu of %u", when, s.windowFull(), m.fed.size(), m.win);
  MC_CHECK(s.totalSamples() == m.fed.size(), "count", "%s: %u samples, of %zu", when, s.totalSamples(), m.fed.size());
  mc::steps(1);
}
template <typename T> static void copies(TimeSeries<T>& s, const Model<T>& m) {
  const uint32_t total = (uint32_t) m.fed.size(), have = m.live ? std::min(total, m.win) : 0;
  T buf[16]; const T mark = (T) 77;
  for (uint32_t n = 0; n <= m.win + 1 && n < 10; n++) {
    for (T& x : buf) x = mark;
    int r = s.copyValues(buf, n, false);
    const bool ok = n > 0 && n <= have;
    MC_CHECK((r == 0) == ok && r <= 0, "copy:result", "copying the %u latest of %u (window %u) returned %d", n, total, m.win, r);
    for (uint32_t i = 0; i < 16; i++) {
      const T want = ok && i < n ? m.fed[total - n + i] : mark;
      MC_CHECK(buf[i] == want, "copy:latest", "the %u latest of %u samples of %s in a window of %u: sample %u is %.9g, not %.9g", n, total, Name<T>::is(), m.win, i, (double) buf[i], (double) want);
    }
    for (uint32_t from = 0; from <= m.win + 1; from++) {
      for (T& x : buf) x = mark;
      r = s.copyValueRange(buf, n, from, true);
      const bool may = n > 0 && m.live && n <= m.win && n + from <= total;
      MC_CHECK((r == 0) == may && r <= 0, "copy:result", "copying %u of %u (window %u) from %u returned %d", n, total, m.win, from, r);
      for (uint32_t i = 0; i < 16; i++) {
        T want = mark;
        if (may && i < n) { const uint32_t at = (from + i) % m.win; uint32_t k = at; while (k + m.win < total) k += m.win; want = k < total ? m.fed[k] : (T) 0; }
        MC_CHECK(buf[i] == want, "copy:memory", "%u samples from place %u of a window of %u after %u: sample %u is %.9g, not %.9g", n, from, m.win, total, i, (double) buf[i], (double) want);
      }
    }
  }
  if (m.live) {
    MC_CHECK(s.lastIndex() == total % m.win, "place", "the next sample goes to place %u after %u in a window of %u", s.lastIndex(), total, m.win);
    for (uint32_t at = 0; at < have; at++) {
      uint32_t k = at; while (k + m.win < total) k += m.win;
      MC_CHECK(s.indexIsWhichSample(at) == k, "which", "place %u of %u after %u samples holds sample %u, not %u", at, m.win, total, s.indexIsWhichSample(at), k);
    }
  }
  mc::steps(1);
}
template <typename T> static void feed(TimeSeries<T>& s, Model<T>& m, T v) {
  const int r = s.feedSeries(v);
  if (m.live) m.fed.push_back(v);
  MC_CHECK(r == (!m.live ? -1 : m.full() ? 1 : 0), "feed", "feeding sample %zu of a window of %u returned %d", m.fed.size(), m.win, r);
}
#define EVERY_TYPE(CALL) switch (mc::choose(10)) { case 0: CALL(uint8_t); break; case 1: CALL(int8_t); break; case 2: CALL(uint16_t); break; case 3: CALL(int16_t); break; case 4: CALL(uint32_t); break; \
  case 5: CALL(int32_t); break; case 6: CALL(uint64_t); break; case 7: CALL(int64_t); break; case 8: CALL(float); break; default: CALL(double); }

/* Every sequence of values; one series is asked for everything after each sample, the other only at the end. */
template <typename T> static void contents(uint32_t win, uint32_t over, unsigned values) {
  const std::vector<T> A = alphabet<T>();
  const int64_t base = mc::live_blocks();
  {
    TimeSeries<T> eager(win), lazy(win); Model<T> m; m.win = win; m.live = true;
    MC_CHECK(eager.init() == 0 && lazy.init() == 0, "init", "a window of %u is not initialized", win);
    MC_CHECK(eager.tcode() == tcodeForType(T(0)), "type", "the series of %s has type %u", Name<T>::is(), (unsigned) eager.tcode());
    const uint32_t n = win + over; std::string seq;
    for (uint32_t i = 0; i < n; i++) {
      const T v = A[mc::choose(values)];
      feed(eager, m, v); lazy.feedSeries(v);
      mc::op("%s: %.9g into a window of %u", Name<T>::is(), (double) v, win);
      plain(eager, m, "fed"); for (int k = 0; k < NSTATS; k++) stat(eager, m, k);
    }
    for (int k = NSTATS - 1; k >= 0; k--) stat(lazy, m, k);
    if (over) { copies(eager, m); plain(lazy, m, "at the end"); }
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks were not released", (long long) (mc::live_blocks() - base));
}
/* Histories of everything. */
template <typename T> static void history(unsigned depth, bool external) {
  const std::vector<T> A = alphabet<T>();
  const uint32_t win = external ? 1 + mc::choose(2 + mc::thorough) : mc::choose(4);
  const int64_t base = mc::live_blocks();
  {
    T own[4] = {(T) 9, (T) 9, (T) 9, (T) 9};
    TimeSeries<T> s(external ? own : nullptr, win); Model<T> m; m.win = win;
    plain(s, m, "constructed");
    bool dirty = false; 
    mc::op("series of %s, window %u%s", Name<T>::is(), win, external ? ", own memory" : "");
    if (mc::flip()) { const int r = s.init(); MC_CHECK((r == 0) == (win > 0), "init", "initialising a window of %u returned %d", win, r); m.live = win > 0; mc::op("init"); }
    uint32_t serial = 0;
    for (unsigned d = 0; d < depth; d++) {
      switch (mc::choose(6)) {
        case 0: {                        // a few samples
          static const uint32_t MANY[] = {1, 2, 4}; const uint32_t n = d % 2 ? 1 : mc::pick(MANY); mc::op("%u samples", n);
          for (uint32_t i = 0; i < n; i++) { const T v = A[(serial * 5 + serial / 3) % A.size()]; serial++; feed(s, m, v); if (m.live) dirty = true; }
          MC_CHECK(s.dirty() == dirty, "dirty", "dirty is %d after feeding", s.dirty());
          break; }
        case 1: { const int k = (int) mc::choose(NSTATS); mc::op("%s", STATS[k]); stat(s, m, k); if (k == VALUE && m.full()) dirty = false; break; }
        case 2: mc::op("purge"); s.purge(); m.reset(); dirty = false; break;
        case 3: {
          const uint32_t n = mc::choose(4); const int r = s.windowSize(n); mc::op("window %u: %d", n, r);
          if (external && n != m.win) { MC_CHECK(r < 0, "resize", "resizing a series on memory of its owner from %u to %u returned %d", m.win, n, r); break; }
          if (r == 0) { MC_CHECK(s.windowSize() == n, "resize", "resized to %u, the window is %u", n, s.windowSize()); m.win = n; m.live = n > 0; m.reset(); dirty = false; }
          else { MC_CHECK(n == m.win && !m.live, "resize", "resizing from %u to %u returned %d", m.win, n, r); m.reset(); dirty = false; }
          break; }
        case 4: {
          const int r = s.init(); mc::op("init: %d", r);
          MC_CHECK((r == 0) == (m.win > 0), "init", "initialising a window of %u returned %d", m.win, r);
          m.live = m.win > 0; m.reset(); dirty = false; break; }
        default: {                                       // filled from outside, all at once
          if (m.live && m.fed.size() % m.win) throw mc::Prune();
          if (m.live) for (uint32_t i = 0; i < m.win; i++) { const T v = A[(serial * 5 + serial / 3) % A.size()]; serial++; s.memPtr()[i] = v; m.fed.push_back(v); }
          const int r = s.feedSeries(); mc::op("filled: %d", r);
          MC_CHECK((r >= 0) == m.live, "bulk", "marking the window filled returned %d", r);
          if (m.live) dirty = true; break; }
      }
      plain(s, m, "in the history");
      MC_CHECK(s.dirty() == dirty, "dirty", "dirty is %d, not %d", s.dirty(), dirty);
    }
    for (int k = 0; k < VALUE; k++) stat(s, m, k);
    MC_CHECK(s.dirty() == dirty, "dirty", "asking for statistics changed dirty");
    s.markClean(); MC_CHECK(!s.dirty(), "dirty", "dirty after being marked clean");
    copies(s, m); stat(s, m, VALUE);
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks were not released", (long long) (mc::live_blocks() - base));
}
#define SHORT(T)  contents<T>(1 + mc::choose(3), mc::choose(3), 4)
#define LONGER(T) contents<T>(4 + mc::choose(2), mc::choose(mc::thorough ? 3 : 2), 4)
#define ORDERS(T) contents<T>(7 + mc::choose(3), 0, 2 + mc::thorough)
/* Windows wider than a byte, and than two. */
template <typename T> static void wide() {
  static const uint32_t W[] = {100, 127, 128, 255, 256, 257, 300, 1000, 32768, 65535, 65536, 65800}; const uint32_t win = mc::pick(W); const unsigned over = mc::choose(3), kind = mc::choose(3);
  const std::vector<T> A = alphabet<T>(); mc::op("%s, window %u, %u more, kind %u", Name<T>::is(), win, over ? over == 1 ? 1 : win / 2 + 1 : 0, kind);
  const int64_t base = mc::live_blocks();
  {
    TimeSeries<T> s(win); Model<T> m; m.win = win; MC_CHECK(s.init() == 0, "init", "init() failed"); m.live = true; m.fed.reserve(2 * win);
    const uint32_t n = win + (over ? over == 1 ? 1 : win / 2 + 1 : 0);
    for (uint32_t i = 0; i < n; i++) {
      const uint32_t h = (i * 2654435761u) >> 7;
      feed(s, m, kind == 0 ? (T) (i % 119 + 3) : kind == 1 ? (T) (h % 97) : i + 1 == n || i == n - win ? A[i & 1] : (T) 5);
      if (i == win / 2 || i + 1 == win) plain(s, m, "while filling");
    }
    plain(s, m, "filled");
    for (int k = 0; k < NSTATS; k++) if (k != MEDIAN || win <= 1000) stat(s, m, k);
    std::vector<T> buf(win); MC_CHECK(s.copyValues(buf.data(), win, false) == 0, "copy:result", "copying the whole window failed");
    const std::vector<T> w = m.window(); for (uint32_t i = 0; i < win; i++) MC_CHECK(buf[i] == w[i], "copy:latest", "sample %u of the window of %u is wrong", i, win);
    MC_CHECK(s.lastIndex() == n % win, "place", "the next sample goes to place %u, not %u", s.lastIndex(), n % win);
    for (uint32_t at = 0; at < win; at += 1 + win / 300) { uint32_t k = at; while (k + win < n) k += win; MC_CHECK(s.indexIsWhichSample(at) == k, "which", "place %u holds sample %u, not %u", at, s.indexIsWhichSample(at), k); }
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks remain", (long long) (mc::live_blocks() - base));
}
#define WIDE(T) wide<T>()
int main(int argc, char** argv) {
  const bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  std::vector<mc::Config> c;
  c.push_back({"short", []{ EVERY_TYPE(SHORT) }, 4, "all ten sample types, windows of 1..3, every sequence of window + 0..2 samples from 4 extreme values; every statistic after each sample, and only at the end"});
  c.push_back({"longer", []{ EVERY_TYPE(LONGER) }, 5, "the same for windows of 4..5, window + 0..1 (thorough 2) samples"});
  c.push_back({"orders", []{ EVERY_TYPE(ORDERS) }, 5, "windows of 7..9, every sequence of 2 (thorough 3) values"});
  c.push_back({"wide", []{ EVERY_TYPE(WIDE) }, 3, "all types in windows of 100 to 65800 (the median to 1000), filled once, once and a sample, and half over, in three ways"});
  c.push_back({"history", [=]{ if (mc::flip()) history<int16_t>(th ? 6 : 5, false); else history<double>(th ? 6 : 5, false); }, 5, "every history of 5 (thorough 6) samplings, questions, purges, resizes, initialisations and outside fills, windows of 0..3"});
  c.push_back({"external", [=]{ if (mc::flip()) history<uint32_t>(th ? 6 : 5, true); else history<float>(th ? 6 : 5, true); }, 5, "the same on memory of the owner, windows of 1..2 (thorough 3)"});
  return mc::main(argc, argv, "C32", c, {
    "fewer than 2^32 samples between resets, and fewer than 2^16 between looks at dirty()", "RMS, standard deviation, median and SNR are of windows of at least two samples; before the window is full every statistic reads 0",
    "statistics are computed in double precision; SNR of samples that do not vary is infinite or undefined"});
}
