/* C09: the state machine follows its planned route, one legal step at a time. */
#include "mc.h"
#include "FiniteStateMachine.h"
#include <deque>
#include <string.h>

enum class ST : uint8_t { INIT = 0, A, B = 7, C = 200, CATCH = 250, BAD = 99 };
static const EnumDef<ST> DEFS[] = {{ST::INIT, "INIT"}, {ST::A, "ALPHA"}, {ST::B, "BETA"}, {ST::C, "GAMMA"}, {ST::CATCH, "CATCH", ENUM_WRAPPER_FLAG_IS_INVALID}};
static const EnumDefList<ST> LIST(&DEFS[0], 5, "states");

typedef std::string S;
static uint64_t T64;                     // true time
static void tick(uint32_t ms) { T64 += ms; plat::advance_ms(ms); }

struct Model {
  unsigned cap; std::deque<ST> plan; ST cur = ST::INIT, prior = ST::INIT;
  uint64_t mark = 0; bool started = false; uint32_t period = 0, slowdown = 0;
  bool waiting() const { return period > 0 && (T64 - mark) < period; }
  uint32_t remaining() const { return waiting() ? (uint32_t) (period - (T64 - mark)) : 0; }
  void lock(uint32_t p) { mark = T64; period = p; started = true; }
};
static Model M;
struct Fsm;
static void observe(Fsm&, const char*);

struct Fsm : public StateMachine<ST> {
  int entries = 0, verdict = 0, extra = 0; ST asked = ST::BAD;
  Fsm(unsigned cap) : StateMachine<ST>("fsm", &LIST, ST::INIT, cap) {}
  int8_t _fsm_poll() override { return 0; }
  int8_t _fsm_set_position(ST s) override {
    entries++; asked = s;
    if (extra == 1) _fsm_lockout(5);          // the transition's own margin
    if (extra == 2) _fsm_append_state(ST::C);
    return (int8_t) verdict;
  }
  friend void observe(Fsm&, const char*);
  template <class... P> int8_t route(int n, P... p) { return _fsm_set_route(n, p...); }
  using StateMachine<ST>::_fsm_set_route;    using StateMachine<ST>::_fsm_append_route; using StateMachine<ST>::_fsm_append_state;
  using StateMachine<ST>::_fsm_prepend_state; using StateMachine<ST>::_fsm_advance;     using StateMachine<ST>::_fsm_reset;
  using StateMachine<ST>::_fsm_mark_current_state; using StateMachine<ST>::_fsm_state_planned; using StateMachine<ST>::_fsm_lockout;
  using StateMachine<ST>::_fsm_is_waiting;   using StateMachine<ST>::_fsm_pos_next;     using StateMachine<ST>::_fsm_is_next_pos;
  using StateMachine<ST>::_fsm_is_stable;    using StateMachine<ST>::_fsm_slowdown;     using StateMachine<ST>::_fsm_state_string;
};
static const ST ALL[] = {ST::INIT, ST::A, ST::B, ST::C, ST::CATCH, ST::BAD};
static const char* name(ST s) { return LIST.enumStr(s); }
static S show(const std::deque<ST>& d) { S r; for (ST s : d) { r += name(s); r += ' '; } return r; }

static void observe(Fsm& f, const char* after) {
  MC_CHECK(f.currentState() == M.cur, "current", "after %s: current state is %s, model %s", after, name(f.currentState()), name(M.cur));
  MC_CHECK(f.priorState() == M.prior, "prior", "after %s: prior state is %s, model %s", after, name(f.priorState()), name(M.prior));
  MC_CHECK(f._fsm_is_stable() == M.plan.empty(), "stable", "after %s: is_stable() is %d; plan %s", after, f._fsm_is_stable(), show(M.plan).c_str());
  if (!M.plan.empty()) MC_CHECK(f._fsm_pos_next() == M.plan.front(), "next", "after %s: next is %s, model %s", after, name(f._fsm_pos_next()), show(M.plan).c_str());
  for (ST s : ALL) {
    bool in = false; for (ST p : M.plan) in |= (p == s);
    MC_CHECK(f._fsm_state_planned(s) == in, "planned", "after %s: state_planned(%s) is %d; plan %s", after, name(s), !in, show(M.plan).c_str());
    bool nx = !M.plan.empty() && M.plan.front() == s;
    MC_CHECK(f._fsm_is_next_pos(s) == nx, "is-next", "after %s: is_next_pos(%s) is %d; plan %s", after, name(s), !nx, show(M.plan).c_str());
  }
  MC_CHECK(f._fsm_is_waiting() == M.waiting(), "waiting", "after %s: is_waiting() is %d, %u ms after a lockout of %u", after, f._fsm_is_waiting(), (unsigned) (T64 - M.mark), M.period);
  MC_CHECK(f._fsm_lockout() == M.remaining(), "remaining", "after %s: %u ms of lockout remain, model %u", after, f._fsm_lockout(), M.remaining());
  MC_CHECK(f._fsm_slowdown() == M.slowdown, "slowdown", "after %s: slowdown is %u, model %u", after, f._fsm_slowdown(), M.slowdown);
  StringBuilder o; f.printFSM(&o);
  S t((char*) o.string(), o.length());
  S w = "Next states:   "; for (ST s : M.plan) { w += name(s); w += ", "; } w += "(stable)";
  MC_CHECK(t.find(w) != S::npos, "print", "after %s: the printed plan is not \"%s\": %s", after, w.c_str(), t.c_str());
}

static int8_t call_route(Fsm& f, bool append, const std::vector<ST>& v) {
  int a[8]; for (int i = 0; i < 8; i++) a[i] = (i < (int) v.size()) ? (int) v[i] : (int) ST::C;     // what follows the given count must not be used
  return append ? f._fsm_append_route((int) v.size(), a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7])
                : f._fsm_set_route((int) v.size(), a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
}
static bool valid(ST s) { return s == ST::INIT || s == ST::A || s == ST::B || s == ST::C; }

struct Opt { unsigned cap, depth, maxroute; std::vector<ST> al; bool timing, fullroutes; bool merge = true; };

static void history(Opt o) {
  plat::reset();
  static const uint32_t starts[] = {0, 0xFFFFFFFCu, 0x7FFFFFFBu};
  uint32_t st = o.timing ? mc::pick(starts) : 1000;
  plat::set_ms(st);
  T64 = 0x100000000ULL + st;
  M = Model(); M.cap = o.cap;
  Fsm f(o.cap);
  observe(f, "construction");
  for (unsigned step = 0; step < o.depth; step++) {
    if (o.merge) {
      S key = show(M.plan); key += '|'; key += (char) M.cur; key += (char) M.prior;
      char b[96]; snprintf(b, sizeof(b), "|%u|%u|%u|%d|%u|%u", plat::now_ms, M.period, M.slowdown, M.waiting() + 2 * M.started, M.remaining(), (unsigned) (T64 - M.mark > M.period));
      key += b;
      mc::state(key, o.depth - step);
    } else mc::count_state(mc::hash(&plat::now_ms, 4, M.plan.size() * 64 + (unsigned) M.cur));
    switch (mc::choose(o.timing ? 11 : 7)) {
      case 0: case 1: {
        bool app = mc::flip();
        std::vector<ST> v; int n = (int) mc::choose(o.maxroute + 1);
        for (int i = 0; i < n; i++) v.push_back((o.fullroutes || i < 2) ? mc::pick(o.al) : o.al[i % o.al.size()]);
        mc::op("%s(%s)", app ? "append_route" : "set_route", show(std::deque<ST>(v.begin(), v.end())).c_str());
        int8_t r = call_route(f, app, v);
        size_t room = app ? o.cap - M.plan.size() : o.cap;
        if (v.size() > room) v.resize(room);
        int w = v.empty() ? -1 : 0;
        for (ST s : v) if (!valid(s)) w = -2;
        MC_CHECK(r == w, "route-ret", "%s of %s returned %d, want %d", app ? "append_route" : "set_route", show(std::deque<ST>(v.begin(), v.end())).c_str(), r, w);
        if (w == 0) { if (!app) M.plan.clear(); for (ST s : v) M.plan.push_back(s); }
        observe(f, app ? "append_route" : "set_route");
      } break;
      case 2: {
        ST s = mc::pick(o.al);
        mc::op("append_state(%s)", name(s));
        int8_t r = f._fsm_append_state(s);
        int w = !valid(s) ? -1 : (M.plan.size() >= o.cap ? -2 : 0);
        MC_CHECK(r == w, "append-ret", "append_state(%s) with %u of %u planned returned %d, want %d", name(s), (unsigned) M.plan.size(), o.cap, r, w);
        if (w == 0) M.plan.push_back(s);
        observe(f, "append_state");
      } break;
      case 3: {
        ST s = mc::pick(o.al);
        mc::op("prepend_state(%s)", name(s));
        int8_t r = f._fsm_prepend_state(s);
        int w = !valid(s) ? -1 : (M.plan.size() >= o.cap ? -2 : 0);
        MC_CHECK(r == w, "prepend-ret", "prepend_state(%s) with %u of %u planned returned %d, want %d", name(s), (unsigned) M.plan.size(), o.cap, r, w);
        if (w == 0) M.plan.push_front(s);
        observe(f, "prepend_state");
      } break;
      case 4: {
        f.verdict = mc::flip() ? -1 : 0;
        f.extra = (int) mc::choose(3);
        f.entries = 0;
        mc::op("advance(), the entry %s%s", f.verdict ? "is refused" : "succeeds", f.extra == 1 ? " and asks for a lockout of 5" : (f.extra == 2 ? " and appends a state" : ""));
        int8_t r = f._fsm_advance();
        const bool had = !M.plan.empty();
        MC_CHECK(f.entries == (had ? 1 : 0), "entries", "advance() attempted %d entries with %u planned", f.entries, (unsigned) M.plan.size());
        if (had) {
          MC_CHECK(f.asked == M.plan.front(), "entered", "advance() entered %s, the plan is %s", name(f.asked), show(M.plan).c_str());
          if (f.extra == 1) M.lock(5);
          if (f.extra == 2 && M.plan.size() < o.cap) M.plan.push_back(ST::C);
        }
        bool ok = had && !f.verdict;
        MC_CHECK(r == (ok ? 0 : -1), "advance-ret", "advance() returned %d", r);
        if (ok) {
          M.prior = M.cur; M.cur = M.plan.front(); M.plan.pop_front();
          if (M.slowdown > 0) { uint32_t rem = M.remaining(); M.lock(rem > M.slowdown ? rem : M.slowdown); }
        }
        observe(f, "advance");
      } break;
      case 5: {
        ST s = mc::pick(o.al); if (!valid(s)) s = ST::C;
        mc::op("reset(%s)", name(s));
        f._fsm_reset(s);
        M.prior = M.cur; M.cur = s; M.plan.clear(); M.mark = T64; M.started = true;
        observe(f, "reset");
      } break;
      case 6: {
        ST s = mc::flip() ? ST::A : ST::C;
        mc::op("mark_current_state(%s)", name(s));
        f._fsm_mark_current_state(s);
        M.prior = M.cur; M.cur = s;
        observe(f, "mark_current_state");
      } break;
      case 7: { uint32_t d = mc::pick(std::vector<uint32_t>{1u, 2u, 4u, 9u}); mc::op("%u ms pass", d); tick(d); observe(f, "time"); } break;
      case 8: { uint32_t d = mc::pick(std::vector<uint32_t>{0u, 1u, 3u, 7u}); mc::op("lockout(%u)", d); f._fsm_lockout(d); M.lock(d); observe(f, "lockout"); } break;
      case 9: { uint32_t d = mc::pick(std::vector<uint32_t>{0u, 2u, 6u}); mc::op("slowdown(%u)", d); f._fsm_slowdown(d); M.slowdown = d; observe(f, "slowdown"); } break;
      case 10: {
        if (!M.started) throw mc::Prune();      // the timer has no start to measure from yet
        uint32_t d = mc::pick(std::vector<uint32_t>{0u, 3u});
        mc::op("console: slowdown %u", d);
        StringBuilder out, args; args.concat("slowdown"); args.concat((unsigned int) d);
        int8_t r = f.fsm_console_handler(&out, &args);
        MC_CHECK(r == 0, "console", "the console handler returned %d", r);
        M.slowdown = d; M.period = d;
        observe(f, "console");
      } break;
    }
  }
}

/* Every lockout length at every start near the wrap of the clock: ready exactly when it has elapsed. */
static void lockouts() {
  plat::reset();
  static const uint32_t st[] = {0, 1, 0xFFFFFFFFu, 0xFFFFFFFEu, 0xFFFFFF00u, 0x7FFFFFFFu, 0x80000000u, 0x7FFFFFF0u};
  static const uint32_t per[] = {1, 2, 3, 10, 255, 256, 65535, 65536, 0x7FFFFFFFu, 0x80000000u, 0x80000001u, 0xFFFFFFFEu, 0xFFFFFFFFu};
  uint32_t s = mc::pick(st), p = mc::pick(per);
  bool viaslow = mc::flip();
  plat::set_ms(s); T64 = 0x100000000ULL + s;
  M = Model(); M.cap = 2;
  Fsm f(2);
  mc::op("%s(%u) at %u", viaslow ? "slowdown" : "lockout", p, s);
  if (viaslow) { f._fsm_slowdown(p); M.slowdown = p; f._fsm_append_state(ST::A); f._fsm_advance(); M.prior = M.cur; M.cur = ST::A; M.lock(p); }
  else { f._fsm_lockout(p); M.lock(p); }
  observe(f, "lockout");
  const uint32_t at[] = {0, 1, p / 2, p - 1, p};
  for (uint32_t a : at) { if (T64 - M.mark > a) continue; tick((uint32_t) (a - (T64 - M.mark))); observe(f, "time"); mc::steps(1); mc::count_state(((uint64_t) s << 32) ^ ((uint64_t) p << 3) ^ a); }
}

/* Wide plans: fill, consume partially, refill, at every offset of the ring. */
static void ring() {
  plat::reset(); T64 = 0;
  const unsigned cap = mc::pick(std::vector<uint32_t>{1u, 2u, 5u, 8u, 31u});
  const unsigned off = mc::choose(cap + 1);
  M = Model(); M.cap = cap;
  Fsm f(cap);
  static const ST al[] = {ST::A, ST::B, ST::C};
  mc::op("capacity %u, ring offset %u", cap, off);
  for (unsigned i = 0; i < off; i++) { f._fsm_append_state(al[i % 3]); f._fsm_advance(); M.prior = M.cur; M.cur = al[i % 3]; }
  observe(f, "turning the ring");
  const bool pre = mc::flip();
  for (unsigned i = 0; i < cap + 2; i++) {
    int8_t r = pre ? f._fsm_prepend_state(al[(i * 2 + i / 3) % 3]) : f._fsm_append_state(al[(i * 2 + i / 3) % 3]);
    MC_CHECK(r == (M.plan.size() < cap ? 0 : -2), "append-ret", "state %u of a plan for %u was answered with %d", i, cap, r);
    if (M.plan.size() < cap) { if (pre) M.plan.push_front(al[(i * 2 + i / 3) % 3]); else M.plan.push_back(al[(i * 2 + i / 3) % 3]); }
    observe(f, pre ? "prepend_state" : "append_state"); mc::steps(1); mc::count_state(((uint64_t) cap << 20) | (off << 10) | (pre << 9) | i);
  }
  while (!M.plan.empty()) { int8_t r = f._fsm_advance(); MC_CHECK(r == 0, "advance-ret", "advance() returned %d", r); M.prior = M.cur; M.cur = M.plan.front(); M.plan.pop_front(); observe(f, "advance"); mc::steps(1); }
}

int main(int argc, char** argv) {
  const bool T = mc::thorough;
  const std::vector<ST> v3 = {ST::A, ST::B, ST::BAD}, v4 = {ST::A, ST::INIT, ST::CATCH, ST::BAD};
  return mc::main(argc, argv, "C09", {
    {"plans",   [=] { history({3, T ? 7u : 5u, 4, v3, false, true}); }, 3, "capacity 3: every history of 5 (thorough 7) plan edits, advances, resets; routes of every content up to length 4 over two valid and one invalid state"},
    {"plans-2", [=] { history({2, T ? 8u : 6u, 3, v4, false, false}); }, 3, "capacity 2: every history of 6 (thorough 8), states flagged invalid included"},
    {"timing",  [=] { history({2, T ? 7u : 5u, 2, {ST::A, ST::B}, true, false}); }, 3, "capacity 2 with lockouts, slowdowns, time steps and the console handler, the clock starting at 0, just before its wrap and mid-range: every history of 5 (thorough 7)"},
    {"flat",    [=] { history({2, T ? 4u : 3u, 2, {ST::A, ST::BAD}, true, false, false}); }, 3, "every history of 3 (thorough 4) without merging of states"},
    {"lockouts", lockouts, 2, "lockouts and slowdowns of 13 lengths from 1 to 2^32-1 ms at 8 starts around the clock's wrap"},
    {"ring",    ring, 2, "capacities 1, 2, 5, 8, 31 at every offset of the ring: filling by append or prepend beyond the capacity, then consuming"},
  }, {"time observed within one wrap of the clock after a lockout begins", "the transition callback does not set, prepend to or reset the plan it is called from"});
}
