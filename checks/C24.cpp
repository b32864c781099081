/* C24: the life of a link: every history of polls, deliveries, sends, hangups and resets on two ends. */
#include "../mc/mc.h"
#include "m2m.h"
#include <algorithm>
using namespace m2m;
typedef M2MLinkState LS;

static const uint32_t TIMEOUT = 20, KEEPALIVE = 50, MTU = 256;
static M2MLinkOpts opts() { return M2MLinkOpts(TIMEOUT, KEEPALIVE, MTU, TCode::CBOR, 0); }

static bool legal(LS a, LS b) {
  switch (b) {
    case LS::PENDING_SETUP:  return a == LS::UNINIT || a == LS::HUNGUP;
    case LS::SYNC_RESYNC:    return a == LS::PENDING_SETUP || a == LS::SYNC_TENTATIVE || a == LS::LIVE || a == LS::PENDING_HANGUP;
    case LS::SYNC_TENTATIVE: return a == LS::SYNC_RESYNC;
    case LS::LIVE:           return a == LS::SYNC_TENTATIVE;
    case LS::PENDING_HANGUP: return a == LS::SYNC_TENTATIVE || a == LS::LIVE;
    case LS::HUNGUP:         return a == LS::SYNC_RESYNC || a == LS::SYNC_TENTATIVE || a == LS::LIVE || a == LS::PENDING_HANGUP;
    default:                 return false;
  }
}
static bool at_work(LS s) { return s != LS::UNINIT && s != LS::PENDING_SETUP && s != LS::HUNGUP; }

struct End {
  Peer p; char name; unsigned no = 0;
  std::vector<S> sent;                 // in this session, and accepted
  bool forced = false, polite = false; // a hangup was asked for, and accepted, in this session
  unsigned resets = 0, seen = 0;
  std::vector<uint32_t> tags;
  End(int which) : p(opts(), which), name((char) ('A' + which)) {}
  LS state() { return p.link.currentState(); }
};
struct Pair {
  End A, B; unsigned serial = 0;
  Pair() : A(0), B(1) {}
  End& end(int i) { return i ? B : A; }
  void poll(int i) {
    End& e = end(i);
    const LS was = e.state(); const bool was_connected = e.p.link.isConnected();
    const uint32_t calls = e.p.notifications; const size_t got = e.p.got.size(); const bool was_forced = e.forced;
    const int8_t r = e.p.poll();
    const LS is = e.state();
    MC_CHECK(r == (was != is ? 1 : 0), "life:poll-result", "%c: poll() gives %d going from %s to %s", e.name, r, state_name(was), state_name(is));
    if (was != is) MC_CHECK(legal(was, is), "life:transition", "%c went from %s to %s", e.name, state_name(was), state_name(is));
    const bool told = was != is && (is == LS::LIVE || is == LS::HUNGUP || is == LS::PENDING_AUTH);
    MC_CHECK(e.p.notifications - calls == (told ? 1u : 0u), "life:notice", "%c went from %s to %s, and its owner was told %u times", e.name, state_name(was), state_name(is), e.p.notifications - calls);
    const bool c = e.p.link.isConnected();
    if (c != was_connected) MC_CHECK(c ? was == LS::SYNC_TENTATIVE : (is == LS::HUNGUP), "life:connected-when", "%c %s going from %s to %s", e.name, c ? "calls itself connected" : "no longer calls itself connected", state_name(was), state_name(is));
    if (is == LS::LIVE || is == LS::PENDING_HANGUP) MC_CHECK(c, "life:live-connected", "%c is %s and not connected", e.name, state_name(is));
    if (!at_work(is)) MC_CHECK(!c, "life:not-connected", "%c is %s and calls itself connected", e.name, state_name(is));
    if (e.p.got.size() != got) MC_CHECK(at_work(was), "life:delivered-when", "%c was handed a message while %s", e.name, state_name(was));
    if (was_forced && at_work(was)) MC_CHECK(is == LS::HUNGUP, "life:forced", "%c was told to drop the link, and went from %s to %s", e.name, state_name(was), state_name(is));
    if (is == LS::PENDING_SETUP && was != is) {
      const uint32_t t = e.p.link.linkTag();
      MC_CHECK(t && std::find(e.tags.begin(), e.tags.end(), t) == e.tags.end(), "life:tag", "%c starts a session under the tag %x", e.name, t);
      e.tags.push_back(t);
      e.sent.clear(); e.forced = e.polite = false;
    }
    if (is == LS::HUNGUP && was != is) e.no++;
    check_got(i);
  }
  /* What one was handed is what the other sent, in order, each once. */
  void check_got(int i) {
    End& e = end(i); End& o = end(1 - i);
    (void) o;
    for (; e.seen < e.p.got.size(); e.seen++) {
      const S& t = e.p.got[e.seen].text;
      MC_CHECK(!e.p.wrong_tag, "life:wrong-tag", "%c was handed a message under a tag that is not the session's", e.name);
      for (size_t k = 0; k < e.seen; k++) MC_CHECK(e.p.got[k].text != t, "life:twice", "%c was handed %s twice", e.name, t.c_str());
      if (e.seen) MC_CHECK(e.p.got[e.seen - 1].text < t, "life:order", "%c was handed %s after %s", e.name, t.c_str(), e.p.got[e.seen - 1].text.c_str());
    }
  }
  void send(int i) {
    End& e = end(i);
    char t[16]; snprintf(t, sizeof(t), "%c%03u", e.name, serial++);
    const LS s = e.state();
    const int r = m2m::send(e.p, t);
    const bool willing = s != LS::UNINIT && s != LS::PENDING_HANGUP && s != LS::HUNGUP;
    MC_CHECK(willing ? r == 0 : r == -4, "life:send", "%c: send() gives %d in %s", e.name, r, state_name(s));
    if (r >= 0) e.sent.push_back(t);
  }
  void hangup(int i, bool polite) {
    End& e = end(i);
    const LS s = e.state();
    const int8_t r = e.p.link.hangup(polite);
    if (s == LS::UNINIT || s == LS::PENDING_SETUP) MC_CHECK(r == -1, "life:hangup", "%c: hangup(%d) gives %d in %s", e.name, polite, r, state_name(s));
    else if (!polite) MC_CHECK(r == 0, "life:hangup", "%c: hangup(0) gives %d in %s", e.name, r, state_name(s));
    else if (s == LS::PENDING_HANGUP || s == LS::HUNGUP) MC_CHECK(r == -2, "life:hangup", "%c: hangup(1) gives %d in %s", e.name, r, state_name(s));
    else MC_CHECK(r == 0 || ((e.polite || e.forced || end(1 - i).polite) && r == -2), "life:hangup", "%c: hangup(1) gives %d in %s", e.name, r, state_name(s));
    MC_CHECK(e.state() == s, "life:hangup-state", "%c: hangup(%d) itself went from %s to %s", e.name, polite, state_name(s), state_name(e.state()));
    if (!r && s != LS::HUNGUP) { if (polite) e.polite = true; else { e.forced = true; e.sent.clear(); } }
  }
  void reset(int i) {
    End& e = end(i);
    const LS s = e.state();
    const int8_t r = e.p.link.reset();
    MC_CHECK(r == (s == LS::HUNGUP ? 0 : -1), "life:reset", "%c: reset() gives %d in %s", e.name, r, state_name(s));
    if (!r) { e.resets++; }
  }
  void deliver(int i) { m2m::deliver(end(i).p, end(1 - i).p); }
  void fair() { poll(0); poll(1); deliver(0); deliver(1); plat::advance_ms(1); }
  void settle(unsigned n) { for (unsigned i = 0; i < n; i++) { fair(); if (idle(A.p, B.p) && i > 3) break; } }
  S key() { char b[200]; S r = m2m::key(A.p) + m2m::key(B.p); for (int i = 0; i < 2; i++) { End& e = end(i); snprintf(b, sizeof(b), "%d %d %u %zu %u %d|", e.forced, e.polite, e.resets, e.sent.size(), serial, (int) e.state()); r += b; } return r; }
};
static const char* OPS[] = { "poll A", "poll B", "deliver A>B", "deliver B>A", "25 ms", "send A", "send B", "hangup A", "hangup B", "drop A", "drop B", "reset A", "reset B", "round" };
static void apply(Pair& w, int op) {
  switch (op) {
    case 0: w.poll(0); break;      case 1: w.poll(1); break;
    case 2: w.deliver(0); break;   case 3: w.deliver(1); break;
    case 4: plat::advance_ms(25); break;
    case 5: w.send(0); break;      case 6: w.send(1); break;
    case 7: w.hangup(0, true); break;   case 8: w.hangup(1, true); break;
    case 9: w.hangup(0, false); break;  case 10: w.hangup(1, false); break;
    case 11: w.reset(0); break;    case 12: w.reset(1); break;
    case 13: w.fair(); break;
  }
}
/* However it went: both ends can be dropped, and started again from nothing. */
static void closing(Pair& w) {
  const bool nobody = !w.A.forced && !w.B.forced && !w.A.polite && !w.B.polite && !w.A.no && !w.B.no && !w.A.resets && !w.B.resets;
  if (nobody) {
    std::vector<S> to[2] = { w.B.sent, w.A.sent };
    w.settle(400);
    for (int i = 0; i < 2; i++) {
      MC_CHECK(w.end(i).state() == LS::LIVE && w.end(i).p.link.isConnected(), "life:establish", "nobody hung up, and %c is %s", 'A' + i, state_name(w.end(i).state()));
      std::vector<S> got; for (auto& m : w.end(i).p.got) got.push_back(m.text);
      MC_CHECK(got == to[i], "life:deliver", "%zu messages were sent to %c, and %zu handed over", to[i].size(), 'A' + i, got.size());
    }
  }
  else w.settle(60);
  // Drop both.
  for (int i = 0; i < 2; i++) {
    End& e = w.end(i);
    for (int k = 0; k < 4 && !at_work(e.state()) && e.state() != LS::HUNGUP; k++) w.poll(i);
    if (e.state() == LS::HUNGUP) for (int k = 0; k < 3; k++) w.poll(i);    // (a reset may be waiting)
    if (e.state() != LS::HUNGUP) { w.hangup(i, false); w.poll(i); w.poll(i); }
    MC_CHECK(e.state() == LS::HUNGUP, "life:drop", "%c was dropped, and is %s", e.name, state_name(e.state()));
    w.send(i);
  }
  // Down: nothing is handed over, and nothing happens.
  for (int i = 0; i < 2; i++) { w.deliver(0); w.deliver(1); w.poll(0); w.poll(1); plat::advance_ms(TIMEOUT + 5); }
  for (int i = 0; i < 2; i++) MC_CHECK(w.end(i).state() == LS::HUNGUP, "life:stays-down", "%c left HUNGUP by itself", 'A' + i);
  // And up again.
  w.A.p.out.fifo.clear(); w.B.p.out.fifo.clear();
  w.A.p.got.clear(); w.B.p.got.clear(); w.A.seen = w.B.seen = 0;
  const int first = mc::choose(2);
  w.reset(first); for (int k = 0; k < 6; k++) { w.fair(); } w.reset(1 - first);
  w.settle(400);
  for (int i = 0; i < 2; i++) {
    MC_CHECK(w.end(i).state() == LS::LIVE && w.end(i).p.link.isConnected(), "life:re-establish", "after a reset, %c is %s", 'A' + i, state_name(w.end(i).state()));
    MC_CHECK(w.end(i).p.got.empty(), "life:old-delivered", "%s, of the old session, was handed to %c in the new", w.end(i).p.got[0].text.c_str(), 'A' + i);
  }
  for (int k = 0; k < 2; k++) { w.send(0); w.send(1); }
  w.settle(100);
  for (int i = 0; i < 2; i++) {
    std::vector<S> got; for (auto& m : w.end(i).p.got) got.push_back(m.text);
    MC_CHECK(got == w.end(1 - i).sent, "life:new-deliver", "of 2 messages sent to %c in the new session, %zu were handed over", 'A' + i, got.size());
  }
}
static void body(unsigned depth, const std::vector<int>& ops, bool start_live) {
  const int64_t base = quiet_blocks();
  {
    plat::set_ms(100000);
    Pair w;
    const unsigned pre = start_live ? 30 : mc::choose(12);
    for (unsigned i = 0; i < pre; i++) w.fair();
    if (start_live) MC_CHECK(w.A.state() == LS::LIVE && w.B.state() == LS::LIVE && idle(w.A.p, w.B.p), "life:connect", "no link");
    mc::op("after %u rounds", pre);
    for (unsigned d = 0; d < depth; d++) {
      if (d) mc::state(w.key(), depth - d);
      const int op = mc::pick(ops);
      mc::op("%s (%s %s)", OPS[op], state_name(w.A.state()), state_name(w.B.state()));
      apply(w, op);
    }
    closing(w);
  }
  const int64_t left = quiet_blocks() - base;
  MC_CHECK(left <= 0, "life:leak", "%lld blocks remain", (long long) left);
}
static const std::vector<int> ALL = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13 };
static void from_start() { body(mc::thorough ? 5 : 4, ALL, false); }
static void from_live() { body(mc::thorough ? 6 : 4, ALL, true); }
static void parting() { body(mc::thorough ? 12 : 9, { 0, 1, 2, 3, 7, 8, 4 }, true); }
/* A polite hangup between two live ends: both go down, and everything accepted before arrives. */
static void polite() {
  const int64_t base = quiet_blocks();
  {
    plat::set_ms(100000);
    Pair w;
    for (int i = 0; i < 30; i++) w.fair();
    const int who = mc::choose(2);
    const unsigned depth = mc::thorough ? 11 : 8;
    bool asked = false;
    for (unsigned d = 0; d < depth; d++) {
      if (d) mc::state(w.key() + (asked ? "a" : "b") + (char) (48 + who), depth - d);
      int op = mc::choose(7);
      if (op == 6) { op = 7 + who; if (asked) throw mc::Prune(); asked = true; }
      if ((op == 4) && (asked || d > 3)) throw mc::Prune();
      static const int M[] = { 0, 1, 2, 3, 5, 6 };
      if (op < 6) op = M[op];
      mc::op("%s (%s %s)", OPS[op], state_name(w.A.state()), state_name(w.B.state()));
      // What the other end sends once the request is on its way may cross it; only what is accepted before counts.
      if ((op == 5 || op == 6) && asked) throw mc::Prune();
      apply(w, op);
    }
    if (!asked) { w.hangup(who, true); asked = true; }
    std::vector<S> to[2] = { w.B.sent, w.A.sent };
    unsigned i = 0;
    for (; i < 300 && !(w.A.state() == LS::HUNGUP && w.B.state() == LS::HUNGUP); i++) w.fair();
    MC_CHECK(i < 300, "life:polite", "%c hung up politely; 300 ms later, A is %s and B is %s", 'A' + who, state_name(w.A.state()), state_name(w.B.state()));
    for (int k = 0; k < 2; k++) {
      std::vector<S> got; for (auto& m : w.end(k).p.got) got.push_back(m.text);
      MC_CHECK(got == to[k], "life:polite-deliver", "%zu messages had been accepted for %c when %c hung up, and %zu were handed over", to[k].size(), 'A' + k, 'A' + who, got.size());
    }
    closing(w);
  }
  const int64_t left = quiet_blocks() - base;
  MC_CHECK(left <= 0, "life:leak", "%lld blocks remain", (long long) left);
}
int main(int argc, char** argv) {
  mc::prime = [] { plat::set_ms(100000); Pair w; for (int i = 0; i < 40; i++) w.fair(); w.send(0); w.hangup(0, true); w.key(); for (int i = 0; i < 60; i++) w.fair(); };
  std::vector<mc::Config> c;
  c.emplace_back("from-start", from_start, 2, "every history of 4 (thorough 5) of 14 operations from each of the first 12 points of establishment, then down and up again");
  c.emplace_back("from-live", from_live, 2, "every history of 4 (thorough 6) of 14 operations on a live link, then down and up again");
  c.emplace_back("parting", parting, 3, "every interleaving of 9 (thorough 12) polls, deliveries, timeouts and polite hangups on a live link");
  c.emplace_back("polite", polite, 3, "every interleaving of 8 (thorough 11) sends, polls and deliveries around one polite hangup");
  return mc::main(argc, argv, "C24", c, {"no authentication (the library has none yet)", "the stream loses nothing while the link is up, and is emptied between sessions", "tags drawn are distinct"});
}
