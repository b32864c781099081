/* C10: the scheduler runs each schedule when due, as often as configured. */
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <deque>
#include <limits.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#define private public          // the scheduler is a singleton; the check builds its own
#include "TimerTools/C3PScheduler.h"
#undef private
#include "mc.h"

typedef std::string S;
static uint64_t T64;
static void tick(uint32_t us) { T64 += us; plat::advance_us(us); }

struct MS {                        // one schedule in the model
  uint32_t period; int32_t rec; bool enabled, added, sched, executing; uint64_t at; uint32_t last; unsigned runs;
};
static MS m[8];
static std::deque<int> queue_;
static std::vector<int> added_order;
static std::vector<int> ran;
static std::vector<C3PSchedule*> P;
static int act_self, act_other;     // what callbacks do
static bool in_service;
static int n_sched;

static void on_run(int i);
struct Poll : public C3PPollable { int i; PollResult poll() override { on_run(i); return PollResult::NO_ACTION; } };

static void finish_model(int i, uint64_t now) {
  MS& s = m[i];
  if (s.enabled) { if (s.rec > 0) s.rec--; if (s.rec == 0) s.enabled = false; s.last = (uint32_t) now; }
  if (s.enabled) { s.at = now + s.period; s.sched = true; } else s.sched = false;
}
static void on_run(int i) {
  MS& s = m[i];
  mc::note("  schedule %d runs", i);
  MC_CHECK(in_service, "spurious-run", "schedule %d ran outside of serviceSchedules()", i);
  MC_CHECK(s.enabled, "run-disabled", "schedule %d ran while disabled", i);
  MC_CHECK(!queue_.empty() && queue_.front() == i, "run-order", "schedule %d ran, but %s was next", i, queue_.empty() ? "none" : std::to_string(queue_.front()).c_str());
  MC_CHECK(P[i]->executingNow(), "executing", "executingNow() is false while schedule %d runs", i);
  queue_.pop_front();
  ran.push_back(i); s.runs++;
  const uint64_t now = T64;
  switch (act_self) {
    case 1: P[i]->enabled(false); s.enabled = false; break;
    case 2: P[i]->period(7); s.period = 7; break;
    case 3: tick(3); break;
    case 4: P[i]->recurrence(2); s.rec = 2; break;
    case 5: P[i]->delay(50); P[i]->delay(); break;       // documented to have no effect while executing
  }
  if (act_other >= 0 && act_other != i) { P[act_other]->enabled(false); m[act_other].enabled = false; }
  finish_model(i, now);
  // what the model says holds once the callback has returned; disabled entries are passed over
  while (!queue_.empty() && !m[queue_.front()].enabled) queue_.pop_front();
}

static void observe(C3PScheduler& sc, const char* after) {
  MC_CHECK(sc.scheduleCount() == added_order.size(), "count", "after %s: scheduleCount() is %u, %u were added", after, sc.scheduleCount(), (unsigned) added_order.size());
  for (unsigned k = 0; k < added_order.size(); k++) MC_CHECK(sc.getScheduleByIndex(k) == P[added_order[k]], "listed", "after %s: position %u does not list schedule %d", after, k, added_order[k]);
  for (int i = 0; i < n_sched; i++) {
    MS& s = m[i];
    MC_CHECK(sc.containsSchedule(P[i]) == s.added, "contains", "after %s: containsSchedule(%d) is %d", after, i, !s.added);
    MC_CHECK(P[i]->enabled() == s.enabled, "enabled", "after %s: schedule %d enabled() is %d", after, i, P[i]->enabled());
    MC_CHECK(P[i]->recurrence() == s.rec, "recurrence", "after %s: schedule %d has %d recurrences left, model %d", after, i, P[i]->recurrence(), s.rec);
    MC_CHECK(P[i]->period() == s.period, "period", "after %s: schedule %d has period %u, model %u", after, i, P[i]->period(), s.period);
    MC_CHECK(P[i]->willRunAgain() == (s.enabled && (s.rec > 0 || s.rec == -1)), "will-run", "after %s: schedule %d willRunAgain() is %d", after, i, P[i]->willRunAgain());
    MC_CHECK(!P[i]->executingNow(), "executing", "after %s: schedule %d still reports to be executing", after, i);
    MC_CHECK(P[i]->profiler.executions() == s.runs, "runs", "after %s: schedule %d counts %u executions, it ran %u times", after, i, P[i]->profiler.executions(), s.runs);
    if (s.sched) MC_CHECK(P[i]->nextExec() == (uint32_t) s.at, "next", "after %s: schedule %d is due at %u, model %u", after, i, P[i]->nextExec(), (uint32_t) s.at);
    if (s.runs) MC_CHECK(P[i]->lastExec() == s.last || !s.enabled, "last", "after %s: schedule %d last ran at %u, model %u", after, i, P[i]->lastExec(), s.last);
  }
}

struct Opt { int n, cap; unsigned depth; bool edits, callbacks, merge; int pre = 0, starts = 4; };
static const uint32_t STARTS[] = {1000, 0xFFFFFFF8u, 0x7FFFFFF9u, 0};

static void history(Opt o) {
  plat::reset();
  const uint32_t st = STARTS[mc::choose(o.starts)];
  plat::now_us = st; T64 = 0x100000000ULL + st;
  n_sched = o.n; queue_.clear(); added_order.clear(); ran.clear(); P.clear(); act_self = 0; act_other = -1; in_service = false;
  static const uint32_t PER[] = {5, 8, 1};
  static const int32_t REC[] = {-1, 2, 0, 1};
  std::vector<std::unique_ptr<C3PSchedule>> own; Poll poll;
  for (int i = 0; i < o.n; i++) {
    m[i] = MS{PER[i], REC[mc::choose(i == 0 ? 4 : 2)], i == 0 ? true : mc::flip(), false, false, false, 0, 0, 0};
    if (i == 1) { poll.i = i; own.emplace_back(new C3PScheduledPolling("poll", m[i].period, m[i].rec, m[i].enabled, &poll)); }
    else own.emplace_back(new C3PScheduledLambda("lambda", m[i].period, m[i].rec, m[i].enabled, [i]() { on_run(i); return (int8_t) 0; }));
    P.push_back(own.back().get());
    mc::note("schedule %d: period %u, recurrence %d, %s", i, m[i].period, m[i].rec, m[i].enabled ? "enabled" : "disabled");
  }
  C3PScheduler sc(o.cap);
  observe(sc, "construction");
  for (int i = 0; i < o.pre; i++) { mc::note("addSchedule(%d)", i); MC_CHECK(0 == sc.addSchedule(P[i]), "add-ret", "addSchedule(%d) failed", i); m[i].added = true; added_order.push_back(i); if (m[i].enabled) { m[i].at = T64 + m[i].period; m[i].sched = true; } }
  for (unsigned step = 0; step < o.depth; step++) {
    S key;
    char b[96]; snprintf(b, sizeof(b), "%u|%u|%d|", plat::now_us, 0u, 0); key = b;
    for (int i = 0; i < o.n; i++) { MS& s = m[i]; snprintf(b, sizeof(b), "%u.%d.%d.%d.%d.%lld,", s.period, s.rec, s.enabled, s.added, s.sched, s.sched ? (long long) (s.at - T64) : 0LL); key += b; }
    for (int q : queue_) key += (char) ('a' + q);
    key += '/'; for (int q : added_order) key += (char) ('a' + q);
    if (o.merge) mc::state(key, o.depth - step); else mc::count_state(mc::hash(key.data(), key.size()));
    switch (mc::choose(o.edits ? 9 : 4)) {
      case 0: {
        int i = (int) mc::choose(o.n);
        mc::op("addSchedule(%d)", i);
        int8_t r = sc.addSchedule(P[i]);
        int w = m[i].added ? -2 : ((int) added_order.size() >= o.cap ? -1 : 0);
        MC_CHECK(r == w, "add-ret", "addSchedule(%d) returned %d, want %d", i, r, w);
        if (w == 0) { m[i].added = true; added_order.push_back(i); if (m[i].enabled) { m[i].at = T64 + m[i].period; m[i].sched = true; } }
        observe(sc, "addSchedule");
      } break;
      case 1:
        mc::op("advanceScheduler() at %u", plat::now_us);
        sc.advanceScheduler();
        for (int i : added_order) if (m[i].enabled && m[i].sched && m[i].at <= T64) { bool in = false; for (int q : queue_) in |= (q == i); if (!in) queue_.push_back(i); }
        observe(sc, "advanceScheduler");
        break;
      case 2: {
        if (o.callbacks) { act_self = (int) mc::choose(6); act_other = (o.n > 1) ? (int) mc::choose(3) - 1 : -1; }
        mc::op("serviceSchedules(), each callback %s%s", act_self == 0 ? "does nothing" : (act_self == 1 ? "disables its schedule" : (act_self == 2 ? "sets period 7" : (act_self == 3 ? "takes 3 us" : (act_self == 4 ? "sets 2 recurrences" : "delays itself")))), act_other >= 0 ? " and disables another" : "");
        ran.clear();
        while (!queue_.empty() && !m[queue_.front()].enabled) queue_.pop_front();
        in_service = true; sc.serviceSchedules(); in_service = false;
        MC_CHECK(queue_.empty(), "not-run", "serviceSchedules() did not run schedule %d, which was due", queue_.front());
        act_self = 0; act_other = -1;
        observe(sc, "serviceSchedules");
      } break;
      case 3: { static const uint32_t D[] = {1, 4, 8, 20}; uint32_t d = mc::pick(D); mc::op("%u us pass", d); tick(d); observe(sc, "time"); } break;
      case 4: { int i = (int) mc::choose(o.n); mc::op("disable %d", i); P[i]->enabled(false); m[i].enabled = false; observe(sc, "enabled(false)"); } break;
      case 5: {
        int i = (int) mc::choose(o.n); if (!m[i].sched || !(m[i].rec != 0)) throw mc::Prune();
        mc::op("enable %d", i); P[i]->enabled(true); m[i].enabled = true; observe(sc, "enabled(true)");
      } break;
      case 6: {
        int i = (int) mc::choose(o.n); bool by = mc::flip();
        if (!by) { mc::op("delay(%d)", i); P[i]->delay(); m[i].at = T64 + m[i].period; m[i].enabled = true; }
        else { mc::op("delay(%d, 6)", i); if (m[i].enabled && !m[i].sched) throw mc::Prune(); if (!m[i].enabled) { m[i].at = T64; m[i].enabled = true; } P[i]->delay(6); m[i].at += 6; }
        m[i].sched = true;
        observe(sc, "delay");
      } break;
      case 7: { int i = (int) mc::choose(o.n); mc::op("period(%d, 3)", i); P[i]->period(3); m[i].period = 3; observe(sc, "period"); } break;
      case 8: { int i = (int) mc::choose(o.n); int r = mc::flip() ? 3 : 1; mc::op("recurrence(%d, %d)", i, r); P[i]->recurrence(r); m[i].rec = r; observe(sc, "recurrence"); } break;
    }
  }
}

/* The documented limit of the period is half of the clock's range: long periods, with the clock anywhere. */
static void periods() {
  plat::reset();
  static const uint32_t ST[] = {0, 1, 0xFFFFFFFFu, 0x80000000u, 0x7FFFFFFFu, 0xFFFF0000u, 12345};
  static const uint32_t PE[] = {1, 2, 1000, 65536, 1000000, 0x3FFFFFFF, 0x7FFFFFFF};
  const uint32_t st = mc::pick(ST), pe = mc::pick(PE);
  const int rec = (int) mc::choose(5) - 1;
  plat::now_us = st; T64 = st;
  int runs = 0;
  C3PScheduledLambda s("s", pe, rec, true, [&]() { runs++; return (int8_t) 0; });
  C3PScheduler sc(8);
  MC_CHECK(0 == sc.addSchedule(&s), "add-ret", "addSchedule() failed");
  mc::op("period %u, recurrence %d, clock at %u", pe, rec, st);
  const int max = rec < 0 ? 6 : (rec == 0 ? 1 : rec);
  for (int k = 0; k < 6; k++) {
    const uint32_t part = pe / 2;
    auto both = [&](int want, const char* when) { sc.advanceScheduler(); sc.serviceSchedules(); mc::steps(2); MC_CHECK(runs == want, "period-due", "period %u from %u, recurrence %d: %d runs %s interval %d, want %d", pe, st, rec, runs, when, k, want); };
    both(k < max ? k : max, "at the start of");
    tick(part); if (part < pe) both(k < max ? k : max, "half way through");
    tick(pe - 1 - part); if (pe > 1) both(k < max ? k : max, "1 us before the end of");
    tick(1);
    both(k + 1 < max ? k + 1 : max, "at the end of");
    both(k + 1 < max ? k + 1 : max, "at once after");
    mc::count_state(((uint64_t) plat::now_us << 8) ^ k ^ ((uint64_t) pe << 40));
  }
  MC_CHECK(s.enabled() == (rec < 0), "exhausted", "after %d runs with recurrence %d enabled() is %d", runs, rec, s.enabled());
}

/* The singleton, its fixed capacity, and the order among many schedules that fall due together. */
static void full() {
  plat::reset(); plat::now_us = 500; T64 = 500;
  C3PScheduler* sc = C3PScheduler::getInstance();
  MC_CHECK(sc && sc == C3PScheduler::getInstance() && sc->initialized(), "singleton", "getInstance() is not stable or not initialised");
  C3PScheduler own(8);
  std::vector<int> order; std::vector<std::unique_ptr<C3PScheduledLambda>> l;
  const int late = (int) mc::choose(9), slow = (int) mc::choose(9);
  for (int i = 0; i < 10; i++) l.emplace_back(new C3PScheduledLambda("x", i == slow ? 20 : 10, -1, true, [&order, i]() { order.push_back(i); return (int8_t) 0; }));
  for (int i = 0; i < 10; i++) { int8_t r = own.addSchedule(l[i].get()); MC_CHECK(r == (i < 8 ? 0 : -1), "add-ret", "schedule %d of a scheduler for 8 was answered with %d", i, r); }
  for (int i = 0; i < 8; i++) { int8_t r = own.addSchedule(l[i].get()); MC_CHECK(r == -2 || r == -1, "add-ret", "adding schedule %d again was answered with %d", i, r); }
  MC_CHECK(own.scheduleCount() == 8, "count", "scheduleCount() is %u", own.scheduleCount());
  mc::op("schedule %d is delayed by 3, %d has twice the period", late, slow);
  if (late < 8) l[late]->delay(3);
  std::vector<int> want;
  tick(10); own.advanceScheduler(); tick(4); own.advanceScheduler(); own.advanceScheduler();
  for (int i = 0; i < 8; i++) if (i != slow && i != late) want.push_back(i);
  if (late < 8 && late != slow) want.push_back(late);
  own.serviceSchedules();
  MC_CHECK(order == want, "order", "%d schedules ran in an order other than they came due (want %d)", (int) order.size(), (int) want.size());
  own.serviceSchedules();
  MC_CHECK(order == want, "twice", "a second service ran %d schedules again", (int) (order.size() - want.size()));
  mc::count_state((uint64_t) late * 16 + slow);
}

int main(int argc, char** argv) {
  const bool T = mc::thorough;
  return mc::main(argc, argv, "C10", {
    {"one",       [=] { history({1, 8, T ? 9u : 7u, true, true, true}); }, 3, "1 schedule: every history of 7 (thorough 9) additions, advances, services, delays, edits and time steps, the clock starting at 4 places around its wrap; callbacks that edit their own schedule"},
    {"two",       [=] { history({2, 2, T ? 6u : 4u, true, true, true, 2, T ? 4 : 2}); }, 4, "2 schedules, both added: every history of 4 (thorough 6), callbacks that edit their own or disable the other schedule"},
    {"three",     [=] { history({3, 3, T ? 7u : 5u, false, false, true, 2}); }, 4, "3 schedules, two added: every history of 5 (thorough 7) additions, advances, services and time steps"},
    {"overfull",  [=] { history({3, 2, T ? 7u : 5u, false, false, true, 0, 2}); }, 4, "3 schedules on a scheduler for 2: every history of 5 (thorough 7) additions, advances, services and time steps"},
    {"flat",      [=] { history({2, 8, T ? 6u : 5u, false, false, false}); }, 4, "2 schedules: every history of 5 (thorough 6) without merging of states"},
    {"periods",   periods, 2, "7 periods up to half of the clock's range x 7 clock positions x recurrences -1..3: runs counted before, at and after each due time"},
    {"full",      full, 2, "8 schedules due together, any one delayed and any one slower: order, repeated additions, overflow"},
  }, {"each due schedule is serviced within half of the clock's range", "a schedule is re-enabled by delay(), or by enabled(true) while its next due time still stands", "all calls come from one thread"});
}
