/* C08: the step sequencer runs a step only after everything it depends on passed. */
#include "mc.h"
#include "AsyncSequencer.h"
#include "StringBuilder.h"
#include <string.h>
#include <stdlib.h>

typedef std::string S;

struct Model {                    // by step index
  int n; uint32_t flag[32]; uint32_t dep[32];        // dep: set of step indices
  uint32_t req, runnable, running, complete, passed;
  uint32_t raw(uint32_t set) const { uint32_t r = 0; for (int i = 0; i < n; i++) if ((set >> i) & 1) r |= flag[i]; return r; }
};
static Model M;
static int phase;                 // 0 outside of poll(); 1 inside
static uint32_t called_d, called_p, snapshot_ready;
static int script_d[32], script_p[32];
static bool scripted;

static int on_dispatch(int i) {
  MC_CHECK(phase == 1, "spurious-call", "step %d was dispatched outside of poll()", i);
  MC_CHECK((M.req >> i) & 1, "dispatch-unrequested", "step %d was dispatched without having been requested", i);
  MC_CHECK(M.dep[i] == (M.dep[i] & M.passed & M.complete), "dispatch-dependency", "step %d was dispatched, but of its dependencies %x only %x have passed", i, M.dep[i], M.passed);
  MC_CHECK(!((M.running >> i) & 1), "dispatch-running", "step %d was dispatched while it is running", i);
  MC_CHECK(!((M.complete >> i) & 1), "dispatch-complete", "step %d was dispatched again after it completed", i);
  MC_CHECK(!((called_d >> i) & 1), "dispatch-twice", "step %d was dispatched twice in one poll", i);
  called_d |= 1u << i;
  int out = scripted ? script_d[i] : (int) mc::choose(3) - 1;
  mc::op("  dispatch %d -> %d", i, out);
  if (out == 1) { M.running |= 1u << i; }
  else if (out != 0) { M.complete |= 1u << i; M.passed &= ~(1u << i); }
  return out;
}
static int on_poll(int i) {
  MC_CHECK(phase == 1, "spurious-call", "step %d was polled outside of poll()", i);
  MC_CHECK((M.running >> i) & 1, "poll-not-running", "step %d was polled while it is not running", i);
  MC_CHECK(!((called_p >> i) & 1), "poll-twice", "step %d was polled twice in one poll", i);
  called_p |= 1u << i;
  int out = scripted ? script_p[i] : (int) mc::choose(3) - 1;
  mc::op("  poll %d -> %d", i, out);
  if (out != 0) { M.running &= ~(1u << i); M.complete |= 1u << i; if (out == 1) M.passed |= 1u << i; else M.passed &= ~(1u << i); }
  return out;
}

/* The list under test. */
struct List {
  StepSequenceList* l; int n;
  List(int n_) : n(n_) {
    l = (StepSequenceList*) calloc(n, sizeof(StepSequenceList));
    for (int i = 0; i < n; i++) {
      static char names[32][4]; snprintf(names[i], 4, "s%d", i);
      new (l + i) StepSequenceList{M.flag[i], names[i], M.raw(M.dep[i]), [i]() { return on_dispatch(i); }, [i]() { return on_poll(i); }};
    }
  }
  ~List() { for (int i = 0; i < n; i++) l[i].~StepSequenceList(); free(l); }
};

static uint32_t closure(uint32_t set) { for (;;) { uint32_t nx = set; for (int i = 0; i < M.n; i++) if ((set >> i) & 1) nx |= M.dep[i]; if (nx == set) return set; set = nx; } }
static bool acyclic() { for (int i = 0; i < M.n; i++) if ((closure(M.dep[i]) >> i) & 1) return false; return true; }

static void observe(AsyncSequencer& q, const char* after) {
  uint32_t a, b, c, d, e; q.getState(&a, &b, &c, &d, &e);
  MC_CHECK(a == M.raw(M.req), "requested", "after %s: requested flags %08x, model %08x", after, a, M.raw(M.req));
  MC_CHECK(c == M.raw(M.running), "running", "after %s: running flags %08x, model %08x", after, c, M.raw(M.running));
  MC_CHECK(d == M.raw(M.complete), "complete", "after %s: complete flags %08x, model %08x", after, d, M.raw(M.complete));
  MC_CHECK(e == M.raw(M.passed), "passed", "after %s: passed flags %08x, model %08x", after, e, M.raw(M.passed));
  uint32_t ra = 0; for (int i = 0; i < M.n; i++) if (b & M.flag[i]) ra |= 1u << i;
  MC_CHECK(b == M.raw(ra), "runnable", "after %s: runnable flags %08x name steps that do not exist", after, b);
  MC_CHECK(0 == (ra & ~M.req), "runnable", "after %s: step set %x is runnable but was not requested (%x)", after, ra, M.req);
  M.runnable = ra;
  if (!M.req && !M.complete) { StringBuilder names; std::string got, want; const uint32_t n = q.stepList(&names); if (names.length() > 0) got = (char*) names.string(); for (int i = 0; i < M.n; i++) want += "s" + std::to_string(i);
    MC_CHECK(n == (uint32_t) M.n && got == want && q.stepList(nullptr) == n, "list", "after %s: the %u steps are listed as \"%s\"", after, n, got.c_str()); }
  MC_CHECK(q.steps_running() == (M.running != 0), "steps_running", "after %s: steps_running() is wrong", after);
  MC_CHECK(q.request_fulfilled() == (0 == (M.req & ~(M.passed & M.complete))), "fulfilled", "after %s: request_fulfilled() is %d; requested %x passed %x", after, q.request_fulfilled(), M.req, M.passed);
  MC_CHECK(q.request_completed() == (0 == (M.req & ~M.complete)), "completed", "after %s: request_completed() is %d; requested %x complete %x", after, q.request_completed(), M.req, M.complete);
  MC_CHECK(q.failed_steps(false) == M.raw(M.complete & ~M.passed), "failed", "after %s: failed_steps(false) is %08x, model %08x", after, q.failed_steps(false), M.raw(M.complete & ~M.passed));
  MC_CHECK(q.failed_steps(true) == M.raw(ra & ~M.passed), "failed-run", "after %s: failed_steps(true) is %08x; runnable %x passed %x", after, q.failed_steps(true), ra, M.passed);
  MC_CHECK(q.all_steps_have_run() == (0 == (ra & ~M.complete)), "have-run", "after %s: all_steps_have_run() is wrong", after);
  MC_CHECK(q.all_steps_have_passed() == (0 == (ra & ~M.passed)), "have-passed", "after %s: all_steps_have_passed() is wrong", after);
  for (uint32_t s = 0; s < (1u << (M.n > 4 ? 4 : M.n)); s++) {
    uint32_t m = M.raw(s);
    MC_CHECK(q.all_steps_have_run(m) == (0 == (s & ~M.complete)), "have-run", "after %s: all_steps_have_run(%x) is wrong", after, m);
    MC_CHECK(q.all_steps_have_passed(m) == (0 == (s & ~M.passed)), "have-passed", "after %s: all_steps_have_passed(%x) is wrong", after, m);
    MC_CHECK(q.all_steps_still_running(m) == (0 == (s & ~M.running)), "still-running", "after %s: all_steps_still_running(%x) is wrong", after, m);
    MC_CHECK(q.all_steps_dispatched(m) == (0 == (s & ~M.req)), "dispatched", "after %s: all_steps_dispatched(%x) is wrong", after, m);
  }
}
static uint32_t eligible() {         // requested, not running, not complete, everything it depends on has passed
  uint32_t r = 0;
  for (int i = 0; i < M.n; i++) if (((M.req & ~M.running & ~M.complete) >> i) & 1) if (M.dep[i] == (M.dep[i] & M.passed & M.complete)) r |= 1u << i;
  return r;
}
static uint32_t popcount(uint32_t x) { return (uint32_t) __builtin_popcount(x); }

static void do_poll(AsyncSequencer& q) {
  const uint32_t must = eligible() & M.runnable;     // already recognised as runnable: has to be dispatched now
  const uint32_t could = eligible();                 // has to be recognised as runnable by the end, at the latest
  const uint32_t run0 = M.running, comp0 = M.complete, disp0 = M.runnable & ~M.complete & ~M.running;
  called_d = called_p = 0; phase = 1;
  int r = q.poll();
  phase = 0;
  MC_CHECK(must == (must & called_d), "not-dispatched", "steps %x were ready, poll() dispatched %x", must, called_d);
  MC_CHECK(run0 == (run0 & called_p), "not-polled", "steps %x were running, poll() polled %x", run0, called_p);
  observe(q, "poll()");
  MC_CHECK(could == (could & (M.runnable | called_d)), "not-runnable", "steps %x can run, but after poll() only %x are runnable", could, M.runnable);
  const uint32_t disp1 = M.runnable & ~M.complete & ~M.running;
  int w = (int) (popcount(run0 ^ M.running) + popcount(comp0 ^ M.complete) + popcount(disp0 ^ disp1));
  MC_CHECK(r == w, "poll-count", "poll() returned %d for %d changes of state", r, w);
}

static const uint32_t FLAGS[3][4] = {{1, 2, 4, 8}, {0x80000000u, 0x10, 0x8000, 2}, {0x100, 0x40000000u, 1, 0x10000}};

static void graph(int n, bool dag_only) {
  memset(&M, 0, sizeof(M));
  M.n = n;
  int f = (n >= 3) ? 1 : (int) mc::choose(3);
  for (int i = 0; i < n; i++) M.flag[i] = FLAGS[f][i];
  for (int i = 0; i < n; i++) {
    uint32_t d = mc::choose(1u << (n - 1));
    M.dep[i] = (d & ((1u << i) - 1)) | ((d >> i) << (i + 1));
  }
  if (dag_only && !acyclic()) throw mc::Prune();
  for (int i = 0; i < n; i++) mc::note("step %d (flag %08x) depends on the set %x", i, M.flag[i], M.dep[i]);
}

struct Opt { int n; unsigned depth; bool dag, masks; };

static void history(Opt o) {
  scripted = false;
  graph(o.n, o.dag);
  List L(o.n);
  AsyncSequencer q(L.l, o.n);
  observe(q, "construction");
  MC_CHECK(q.stepCount() == (uint32_t) o.n && q.getStep(o.n) == nullptr && q.getStep(o.n - 1) == L.l + o.n - 1, "list", "stepCount() or getStep() is wrong");
  for (unsigned step = 0; step < o.depth; step++) {
    uint32_t a, b, c, d, e; q.getState(&a, &b, &c, &d, &e);
    char key[128]; int at = snprintf(key, sizeof(key), "%x|%x|%x|%x|%x|", a, b, c, d, e);
    for (int i = 0; i < o.n; i++) at += snprintf(key + at, sizeof(key) - at, "%x.%x,", M.flag[i], M.dep[i]);
    mc::state(key, o.depth - step);
    const uint32_t junk = 0x00400000;        // names no step
    switch (mc::choose(step ? 4 : 1)) {
      case 0: {
        uint32_t s = o.masks ? 1 + mc::choose((1u << o.n) - 1) : (1u << mc::choose(o.n));
        bool j = mc::flip();
        mc::op("requestSteps(set %x%s)", s, j ? " and a flag of no step" : "");
        q.requestSteps(M.raw(s) | (j ? junk : 0));
        M.req |= closure(s);
        observe(q, "requestSteps()");
      } break;
      case 1: mc::op("poll()"); do_poll(q); break;
      case 2: {
        uint32_t s = o.masks ? 1 + mc::choose((1u << o.n) - 1) : (1u << mc::choose(o.n));
        mc::op("resetSteps(set %x)", s);
        q.resetSteps(M.raw(s));
        M.req &= ~s; M.running &= ~s; M.complete &= ~s; M.passed &= ~s;
        observe(q, "resetSteps()");
      } break;
      case 3:
        mc::op("resetSequencer()");
        q.resetSequencer();
        M.req = M.running = M.complete = M.passed = 0;
        observe(q, "resetSequencer()");
        MC_CHECK(M.runnable == 0, "reset", "steps %x are runnable after resetSequencer()", M.runnable);
        break;
    }
  }
}

/* Full lists of 32 steps: a chain in list order, against it, and a dense graph; one step fails, or none. */
static void scale() {
  memset(&M, 0, sizeof(M));
  M.n = mc::pick(std::vector<int>{32, 31, 17, 9});
  const int shape = (int) mc::choose(5), n = M.n;
  for (int i = 0; i < n; i++) {
    M.flag[i] = 1u << ((i * 5) % 32 >= 32 ? 0 : (i * 5) % 32);
    switch (shape) {
      case 0: M.dep[i] = i ? 1u << (i - 1) : 0; break;                    // chain in list order
      case 1: M.dep[i] = i < n - 1 ? 1u << (i + 1) : 0; break;            // chain against list order
      case 2: M.dep[i] = (1u << i) - 1; break;                            // on all earlier
      case 3: M.dep[i] = i < n - 1 ? (i < 30 ? (~0u << (i + 1)) : 0x80000000u) : 0; if (n < 32) M.dep[i] &= (1u << n) - 1; break;   // on all later
      case 4: M.dep[i] = i ? 1u << ((i - 1) / 2) : 0; break;              // binary tree
    }
  }
  const int top = (shape == 1 || shape == 3) ? 0 : n - 1;
  const int bad = (int) mc::choose(n + 1);                 // n: none
  const int how = bad < n ? (int) mc::choose(2) : 0;
  mc::op("%d steps, shape %d, request %d, step %d fails %s", n, shape, top, bad, how ? "at dispatch" : "at poll");
  scripted = true;
  for (int i = 0; i < n; i++) { script_d[i] = (i == bad && how) ? -1 : 1; script_p[i] = (i == bad && !how) ? -1 : 1; }
  List L(n);
  AsyncSequencer q(L.l, n);
  q.requestSteps(M.raw(1u << top));
  M.req = closure(1u << top);
  observe(q, "requestSteps()");
  int idle = 0;
  for (int k = 0; k < 80 && idle < 3; k++) { uint32_t c0 = M.complete, r0 = M.runnable; do_poll(q); mc::count_state(((uint64_t) M.complete << 32) | M.passed); idle = (c0 == M.complete && r0 == M.runnable) ? idle + 1 : 0; }
  // Everything that does not depend on the failed step has passed; nothing that does has been run.
  uint32_t want_pass = 0, blocked = 0;
  for (int i = 0; i < n; i++) { uint32_t cl = closure(1u << i); if ((cl >> bad) & 1 && bad < n) { if (i != bad) blocked |= 1u << i; } else want_pass |= 1u << i; }
  want_pass &= M.req;
  MC_CHECK(M.passed == want_pass, "scale-passed", "passed set is %x, want %x", M.passed, want_pass);
  MC_CHECK(0 == (M.complete & blocked), "scale-blocked", "steps %x ran although a dependency failed", M.complete & blocked);
  MC_CHECK(q.request_fulfilled() == (bad == n || !((M.req >> bad) & 1)), "scale-fulfilled", "request_fulfilled() is %d", q.request_fulfilled());
  // Saving and restoring the state.
  uint32_t a, b, c, d, e; q.getState(&a, &b, &c, &d, &e);
  AsyncSequencer q2(L.l, n); q2.setState(a, b, c, d, e);
  observe(q2, "setState()");
}

int main(int argc, char** argv) {
  const bool T = mc::thorough;
  return mc::main(argc, argv, "C08", {
    {"two-steps",    [=] { history({2, T ? 12u : 9u, false, true}); }, 2, "every dependency relation over 2 steps (cyclic ones included), every history of 9 (thorough 12) requests, polls and resets, every outcome"},
    {"three-steps",  [=] { history({3, T ? 9u : 6u, false, true}); }, 3, "every dependency relation over 3 steps (cyclic ones included), every history of 6 (thorough 9) requests, polls and resets of every set, every outcome"},
    {"four-steps",   [=] { history({4, T ? 7u : 5u, true, false}); }, 4, "every acyclic dependency relation over 4 steps, every history of 5 (thorough 7) requests, polls and resets of single steps, every outcome"},
    {"full-lists",   scale, 2, "lists of 9, 17, 31 and 32 steps as chains both ways, dense orders and trees; every single step failing at dispatch or poll, or none"},
  }, {"step functions do not call back into the sequencer", "each step has one flag of its own"});
}
