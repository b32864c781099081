/* C11: periodic timers expire exactly when their period elapsed, across clock wrap; stopwatch statistics. */
#include "mc.h"
#include "TimerTools/TimerTools.h"
#include "CppPotpourri.h"
#include <string.h>

static uint64_t T64;                                     // in the timer's own unit
static bool MS;
static void start_at(uint32_t v) { plat::reset(); T64 = 0x300000000ULL + v; if (MS) { plat::now_ms = v; plat::now_us = v * 7 + 3; } else { plat::now_us = v; plat::now_ms = v / 3 + 9; } }
static void tick(uint32_t d) { T64 += d; if (MS) { plat::now_ms += d; plat::now_us += d * 11; } else { plat::now_us += d; plat::now_ms += d / 5; } }

struct Model { uint64_t mark; uint32_t period; bool expired() const { return period == 0 || (T64 - mark) >= period; } uint32_t remaining() const { return expired() ? 0 : (uint32_t) (period - (T64 - mark)); } };

template <class TT> static void observe(TT& t, const Model& m, const char* after) {
  MC_CHECK(t.expired() == m.expired(), "expired", "after %s: expired() is %d, %llu after the start of a period of %u", after, t.expired(), (unsigned long long) (T64 - m.mark), m.period);
  MC_CHECK(t.remaining() == m.remaining(), "remaining", "after %s: remaining() is %lu, model %u", after, t.remaining(), m.remaining());
  MC_CHECK(t.period() == m.period, "period", "after %s: period() is %lu, model %u", after, t.period(), m.period);
  MC_CHECK(t.enabled() == (m.period > 0), "enabled", "after %s: enabled() is %d", after, t.enabled());
}

static const uint32_t STARTS[] = {0, 1, 5, 0xFFFFFFFFu, 0xFFFFFFFEu, 0xFFFFFFF8u, 0x7FFFFFFFu, 0x80000000u, 0x7FFFFFF8u, 123456789};

template <class TT> static void history(unsigned depth) {
  MS = std::is_same<TT, MillisTimeout>::value;
  const uint32_t st = mc::pick(STARTS);
  start_at(st);
  static const uint32_t PER[] = {0, 1, 2, 5, 10};
  const uint32_t p0 = mc::pick(PER);
  TT t(p0); Model m{0, p0};
  t.reset(); m.mark = T64;                               // a period is measured from here
  mc::note("clock at %u, period %u", st, p0);
  observe(t, m, "reset");
  for (unsigned s = 0; s < depth; s++) {
    char key[64]; snprintf(key, sizeof(key), "%d%u|%u|%llu", MS, (unsigned) T64, m.period, (unsigned long long) (T64 - m.mark > 40 ? 40 : T64 - m.mark));
    mc::state(key, depth - s);
    switch (mc::choose(5)) {
      case 0: { static const uint32_t D[] = {1, 2, 4, 9}; uint32_t d = mc::pick(D); mc::op("%u pass", d); tick(d); } break;
      case 1: mc::op("reset()"); t.reset(); m.mark = T64; break;
      case 2: { uint32_t p = mc::pick(PER); mc::op("reset(%u)", p); t.reset(p); m.mark = T64; m.period = p; } break;
      case 3: { uint32_t p = mc::pick(PER); mc::op("period(%u)", p); t.period(p); m.period = p; } break;
      case 4: mc::op("trigger()"); t.trigger(); MC_CHECK(t.expired() && t.remaining() == 0, "trigger", "a triggered timeout is not expired"); mc::op("reset()"); t.reset(); m.mark = T64; break;
    }
    observe(t, m, "the above");
  }
}

/* Periods of every magnitude at every start. */
template <class TT> static void magnitudes() {
  MS = std::is_same<TT, MillisTimeout>::value;
  const uint32_t st = mc::pick(STARTS);
  std::vector<uint32_t> pe; for (int k = 0; k < 32; k++) for (int d = -1; d <= 1; d++) pe.push_back((1u << k) + d); pe.push_back(0xFFFFFFFFu); pe.push_back(0xFFFFFFFEu);
  const uint32_t p = mc::pick(pe); if (p == 0) throw mc::Prune();
  const bool viactor = mc::flip();
  start_at(st);
  TT t(viactor ? p : 3); Model m{T64, p};
  if (viactor) t.reset(); else t.reset(p);
  mc::op("clock at %u, period %u", st, p);
  const uint32_t at[] = {0, 1, p / 3, p / 2, p - 2, p - 1, p, p + 1, p + (0xFFFFFFFFu - p) / 2};
  for (uint32_t a : at) {
    if (T64 - m.mark > a) continue;
    tick((uint32_t) (a - (T64 - m.mark)));
    observe(t, m, "waiting"); mc::steps(1); mc::count_state(mc::hash(&a, 4, ((uint64_t) st << 32) ^ p ^ MS));
    if (a < p) { TT u(p); u.reset(); u.trigger(); MC_CHECK(u.expired(), "trigger", "a triggered timeout of %u is not expired", p); }
  }
}

/* The differences to now, the other way about. */
static void deltas() {
  const uint32_t a = mc::pick(STARTS), d = mc::pick(std::vector<uint32_t>{0, 1, 2, 100, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFEu, 0xFFFFFFFFu});
  plat::reset(); plat::now_us = a; plat::now_ms = a;
  mc::op("differences of %u at %u", d, a);
  MC_CHECK(micros_since(a - d) == d, "since", "micros_since(%u) at %u is %lu", a - d, a, micros_since(a - d));
  MC_CHECK(millis_since(a - d) == d, "since", "millis_since(%u) at %u is %lu", a - d, a, millis_since(a - d));
  MC_CHECK(micros_until(a + d) == d, "until", "micros_until(%u) at %u is %lu", a + d, a, micros_until(a + d));
  MC_CHECK(millis_until(a + d) == d, "until", "millis_until(%u) at %u is %lu", a + d, a, millis_until(a + d));
  mc::count_state(((uint64_t) a << 32) | d);
}

struct SW { uint64_t start; bool running; uint32_t last, best, worst; uint64_t total; uint32_t n; };
static void defaults() {            // a timeout made without a period has none, and is always expired
  const bool ms = mc::flip(); static const uint32_t AT[] = {0, 1, 5000, 0xFFFFFFFFu}; plat::reset(); plat::now_ms = plat::now_us = mc::pick(AT); mc::op("a timeout made without a period, at %u", plat::now_ms);
  MillisTimeout a; MicrosTimeout b; PeriodicTimeout* t = ms ? (PeriodicTimeout*) &a : (PeriodicTimeout*) &b;
  MC_CHECK(t->period() == 0 && t->expired() && t->remaining() == 0, "default", "a timeout without a period has period %lu, remaining %lu", t->period(), t->remaining());
  t->reset(); MC_CHECK(t->expired() && t->remaining() == 0, "default", "a timeout without a period waits");
}
static void check_sw(StopWatch& w, const SW& m, const char* after) {
  MC_CHECK(w.executions() == m.n, "executions", "after %s: %u executions, model %u", after, w.executions(), m.n);
  MC_CHECK(w.lastTime() == m.last, "last", "after %s: last time %u, model %u", after, w.lastTime(), m.last);
  MC_CHECK(w.totalTime() == (uint32_t) m.total, "total", "after %s: total %u, model %u", after, w.totalTime(), (uint32_t) m.total);
  MC_CHECK(w.worstTime() == m.worst, "worst", "after %s: worst %u, model %u", after, w.worstTime(), m.worst);
  if (m.n) {
    MC_CHECK(w.bestTime() == m.best, "best", "after %s: best %u, model %u", after, w.bestTime(), m.best);
    if (m.total <= 0xFFFFFFFFull) MC_CHECK(w.meanTime() == (uint32_t) (m.total / m.n), "mean", "after %s: mean %u, model %u", after, w.meanTime(), (uint32_t) (m.total / m.n));
  }
  else MC_CHECK(w.meanTime() == 0, "mean", "after %s: mean %u of no executions", after, w.meanTime());
  MC_CHECK(w.tag() == 77, "tag", "the tag changed to %u", w.tag());
}
static void stopwatch(unsigned depth) {
  MS = false;
  const uint32_t st = mc::pick(STARTS);
  start_at(st);
  alignas(8) uint8_t room[sizeof(StopWatch)]; memset(room, 0xA7, sizeof(room));      // whatever was in memory before
  StopWatch& w = *new (room) StopWatch(77);
  SW m; memset(&m, 0, sizeof(m)); m.best = 0xFFFFFFFFu;
  mc::note("clock at %u", st);
  check_sw(w, m, "construction");
  for (unsigned s = 0; s < depth; s++) {
    char key[128]; snprintf(key, sizeof(key), "%u|%d|%u|%u|%u|%u|%u|%u", (unsigned) T64, m.running, m.running ? (unsigned) (T64 - m.start) : 0, m.last, m.best, m.worst, (unsigned) m.total, m.n);
    mc::state(key, depth - s);
    switch (mc::choose(5)) {
      case 0: { static const uint32_t D[] = {1, 3, 7, 250000}; uint32_t d = mc::pick(D); mc::op("%u us pass", d); tick(d); } break;
      case 1: mc::op("markStart()"); w.markStart(); m.start = T64; m.running = true; break;
      case 2: {
        mc::op("markStop()");
        bool r = w.markStop();
        MC_CHECK(r == m.running, "stop-ret", "markStop() returned %d", r);
        if (m.running) { uint32_t e = (uint32_t) (T64 - m.start); m.n++; m.last = e; if (e < m.best) m.best = e; if (e > m.worst) m.worst = e; m.total += e; m.running = false; }
      } break;
      case 3: {
        static const uint32_t A[][2] = {{0, 5}, {0xFFFFFFFEu, 3}, {100, 100}, {7, 4000000}};
        auto& x = mc::pick(A);
        mc::op("addRuntime(%u, %u)", x[0], x[1]);
        w.addRuntime(x[0], x[1]);
        uint32_t e = x[1] - x[0]; m.n++; m.last = e; if (e < m.best) m.best = e; if (e > m.worst) m.worst = e; m.total += e; m.running = false;
      } break;
      case 4: mc::op("reset()"); w.reset(); m.last = 0; m.best = 0xFFFFFFFFu; m.worst = 0; m.total = 0; m.n = 0; break;
    }
    check_sw(w, m, "the above");
  }
}

int main(int argc, char** argv) {
  const bool T = mc::thorough;
  return mc::main(argc, argv, "C11", {
    {"millis", [=] { history<MillisTimeout>(T ? 9 : 6); }, 2, "millisecond timeout: every history of 6 (thorough 9) resets, period changes, triggers and time steps from 10 clock positions, 5 initial periods"},
    {"micros", [=] { history<MicrosTimeout>(T ? 9 : 6); }, 2, "microsecond timeout: the same"},
    {"millis-range", magnitudes<MillisTimeout>, 2, "every period within 1 of a power of two up to 2^32-1, from 10 clock positions, read before, at and after its end"},
    {"defaults", defaults, 0, "timeouts made without a period"},
    {"micros-range", magnitudes<MicrosTimeout>, 2, "the same in microseconds"},
    {"deltas", deltas, 1, "time since and until, 10 positions x 8 distances"},
    {"stopwatch", [=] { stopwatch(T ? 9 : 7); }, 2, "stopwatch in memory with arbitrary former content: every history of 7 (thorough 9) starts, stops, added intervals, resets and time steps from 10 clock positions"},
  }, {"a timer is read within one wrap of its clock after it was reset", "the mean of a stopwatch is checked while the sum of its intervals fits 32 bits"});
}
