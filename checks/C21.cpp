/* C21: two links joined by byte streams. */
#include "../mc/mc.h"
#include "m2m.h"
using namespace m2m;

static const uint32_t TIMEOUT = 20, KEEPALIVE = 50, MTU = 512;
static M2MLinkOpts opts(uint32_t mtu = MTU, uint32_t flags = 0) { return M2MLinkOpts(TIMEOUT, KEEPALIVE, mtu, TCode::CBOR, flags); }
static const unsigned FAIR = 600;       // fair rounds of a millisecond: more than any pause the link makes

struct Side { Peer* p; std::vector<S> sent; std::vector<int> ids; unsigned asked = 0; S name; };

static void check_got(const char* what, Side& from, Side& to) {
  std::vector<S> plain; for (auto& m : to.p->got) if (!m.reply) plain.push_back(m.text);
  S a, b; for (auto& s : from.sent) a += "[" + (s.size() > 30 ? s.substr(0, 30) + ".." + std::to_string(s.size()) : s) + "]"; for (auto& s : plain) b += "[" + (s.size() > 30 ? s.substr(0, 30) + ".." + std::to_string(s.size()) : s) + "]";
  MC_CHECK(plain == from.sent, (S("link:delivery:") + what).c_str(), "%s: %s sent %s and %s was handed %s", what, from.name.c_str(), a.c_str(), to.name.c_str(), b.c_str());
  MC_CHECK(!to.p->wrong_tag, "link:tag", "%s: a message came with a tag other than the link's", what);
}
/* As a prefix, while things are still on their way. */
static void check_prefix(Side& from, Side& to) {
  size_t i = 0;
  for (auto& m : to.p->got) if (!m.reply) {
    MC_CHECK(i < from.sent.size() && m.text == from.sent[i], "link:delivery:early", "%s was handed %s as message %zu, which isn't what %s sent", to.name.c_str(), m2m::show(m).c_str(), i, from.name.c_str());
    i++;
  }
}
static void do_send(Side& s, const S& t, bool need) {
  const int r = m2m::send(*s.p, t, need);
  mc::op("%s sends \"%s\"%s: %d", s.name.c_str(), t.substr(0, 20).c_str(), need ? " (reply wanted)" : "", r);
  if (r >= 0) {
    s.sent.push_back(t); s.ids.push_back(r); if (need) s.asked++;
    MC_CHECK(need == (r > 0), "link:send-id", "send(.., %d) returned %d", need, r);
  }
}
static void finish(const char* what, Side& a, Side& b) {
  const unsigned n = settle(*a.p, *b.p, FAIR);
  mc::op("then, fairly: %u rounds", n);
  MC_CHECK(n, (S("link:stuck:") + what).c_str(), "%s: after %u fair rounds the links are %s and %s, and not idle", what, FAIR, state_name(a.p->link.currentState()), state_name(b.p->link.currentState()));
  MC_CHECK(a.p->link.isConnected() && b.p->link.isConnected(), "link:connected", "%s: idle, and not connected", what);
  check_got(what, a, b); check_got(what, b, a);
}
static void finish_replies(Side& a, Side& b) {
  for (Side* s : {&a, &b}) {
    Side& o = s == &a ? b : a;
    unsigned n = 0;
    for (auto& m : s->p->got) if (m.reply) {
      bool mine = false; for (size_t i = 0; i < s->ids.size(); i++) if (s->ids[i] > 0 && (uint32_t) s->ids[i] == m.id) mine = true;
      MC_CHECK(mine, "link:reply-id", "%s was handed a reply to %x, which it never sent", s->name.c_str(), m.id);
      n++;
    }
    MC_CHECK(n == s->asked, "link:reply-count", "%s asked for %u replies and got %u", s->name.c_str(), s->asked, n);
    MC_CHECK(s->p->link.replyTimeouts() == 0, "link:reply-timeout", "%s counts %u requests as unanswered", s->name.c_str(), s->p->link.replyTimeouts());
    (void) o;
  }
}

/* Any schedule at all from two fresh links, and sends as early as they are taken. */
static void establish(unsigned depth, bool sends) {
  const int64_t base = quiet_blocks();
  {
    Peer A(opts(), 0), B(opts(), 1);
    Side a, b; a.p = &A; a.name = "A"; b.p = &B; b.name = "B";
    plat::set_ms(100000);
    // How far each has come by itself before anything is delivered.
    const unsigned pa = mc::choose(4), pb = mc::choose(4);
    mc::op("%u polls of A, %u polls of B", pa, pb);
    for (unsigned i = 0; i < pa; i++) A.poll();
    for (unsigned i = 0; i < pb; i++) B.poll();
    for (unsigned d = 0; d < depth; d++) {
      const unsigned op = mc::choose(sends ? 8 : 7);
      switch (op) {
        case 0: mc::op("poll A"); A.poll(); break;
        case 1: mc::op("poll B"); B.poll(); break;
        case 2: mc::op("deliver A>B"); deliver(A, B); break;
        case 3: mc::op("deliver B>A"); deliver(B, A); break;
        case 4: mc::op("deliver 3 bytes A>B"); deliver(A, B, 3); break;
        case 5: mc::op("deliver 3 bytes B>A"); deliver(B, A, 3); break;
        case 6: mc::op("time"); plat::advance_ms(KEEPALIVE + 1); break;
        case 7: { Side& s = mc::flip() ? b : a; if (s.sent.size() >= 2) throw mc::Prune(); do_send(s, s.name + std::to_string(s.sent.size()), mc::flip()); break; }
      }
      check_prefix(a, b); check_prefix(b, a);
      mc::state(m2m::key(A) + m2m::key(B), depth - d - 1);
    }
    finish("establish", a, b);
    finish_replies(a, b);
    do_send(a, "afterA", true); do_send(b, "<empty>", true); do_send(b, "afterB", true);
    finish("established", a, b);
    finish_replies(a, b);
  }
  MC_CHECK(quiet_blocks() == base, "link:leak", "%lld blocks remain", (long long) (quiet_blocks() - base));
}
static void connect(Side& a, Side& b) {
  plat::set_ms(100000);
  finish("connect", a, b);
}
/* From an established link, every schedule of sends, polls and deliveries. */
static void traffic(unsigned depth) {
  const int64_t base = quiet_blocks();
  {
    Peer A(opts(), 0), B(opts(), 1);
    Side a, b; a.p = &A; a.name = "A"; b.p = &B; b.name = "B";
    connect(a, b);
    A.answer = B.answer = mc::range(1, 3);
    mc::op("replies are %s", A.answer == 1 ? "plain" : A.answer == 2 ? "with a payload" : "with a payload, wanting a reply themselves");
    for (unsigned d = 0; d < depth; d++) {
      const unsigned op = mc::choose(9);
      switch (op) {
        case 0: mc::op("poll A"); A.poll(); break;
        case 1: mc::op("poll B"); B.poll(); break;
        case 2: mc::op("deliver A>B"); deliver(A, B); break;
        case 3: mc::op("deliver B>A"); deliver(B, A); break;
        case 4: mc::op("deliver 5 bytes A>B"); deliver(A, B, 5); break;
        case 5: mc::op("deliver 5 bytes B>A"); deliver(B, A, 5); break;
        case 6: mc::op("time"); plat::advance_ms(TIMEOUT / 2); break;
        default: { Side& s = op == 8 ? b : a; if (s.sent.size() >= 3) throw mc::Prune(); do_send(s, s.name + std::to_string(s.sent.size()), mc::flip()); break; }
      }
      check_prefix(a, b); check_prefix(b, a);
      mc::state(m2m::key(A) + m2m::key(B), depth - d - 1);
    }
    const unsigned at = settle(A, B, FAIR);
    MC_CHECK(at, "link:stuck:traffic", "after %u fair rounds the links are %s and %s, and not idle", FAIR, state_name(A.link.currentState()), state_name(B.link.currentState()));
    if (a.p->link.replyTimeouts() + b.p->link.replyTimeouts() == 0) { }
    // A request repeated because its reply was slow may be handed over twice: duplicates of it are not counted.
    for (Side* s : {&a, &b}) { Side& o = s == &a ? b : a; std::vector<Seen> u; for (auto& m : s->p->got) { bool dup = false; if (m.expects || m.reply) for (auto& x : u) if (x == m) dup = true; if (!dup) u.push_back(m); } s->p->got = u; (void) o; }
    check_got("traffic", a, b); check_got("traffic", b, a);
    if (A.answer != 3) finish_replies(a, b);
  }
  MC_CHECK(quiet_blocks() == base, "link:leak", "%lld blocks remain", (long long) (quiet_blocks() - base));
}
/* One conversation, cut everywhere. */
static void fragments(bool two) {
  const int64_t base = quiet_blocks();
  {
    Peer A(opts(), 0), B(opts(), 1);
    Side a, b; a.p = &A; a.name = "A"; b.p = &B; b.name = "B";
    connect(a, b);
    do_send(a, "x", false); do_send(a, "question", true); do_send(a, S(two ? 20 : 280, 'y'), false); do_send(a, "", false); do_send(a, "<empty>", false); do_send(a, "z", true);
    for (int i = 0; i < 8; i++) A.poll();
    const S all = A.out.fifo; A.out.fifo.clear();
    const unsigned n = (unsigned) all.size();
    std::vector<unsigned> cut;
    const unsigned mode = two ? 2 : mc::choose(3);     // every byte alone, one cut, two cuts
    if (mode == 0) { const unsigned step = 1 + mc::choose(12); for (unsigned i = step; i < n; i += step) cut.push_back(i); }
    else { cut.push_back(mc::choose(n)); if (two) cut.push_back(cut[0] + mc::choose(n - cut[0])); }
    cut.push_back(n);
    const unsigned polls = two ? 1 : mc::choose(3);
    mc::op("%u bytes, cut at %u%s.., %u polls after each piece", n, cut[0], cut.size() > 2 ? (" and " + std::to_string(cut[1])).c_str() : "", polls);
    unsigned at = 0;
    for (unsigned c : cut) { feed(B, all.substr(at, c - at)); at = c; for (unsigned i = 0; i < polls; i++) B.poll(); check_prefix(a, b); }
    finish("fragments", a, b);
    finish_replies(a, b);
  }
  MC_CHECK(quiet_blocks() == base, "link:leak", "%lld blocks remain", (long long) (quiet_blocks() - base));
}
/* Every length of payload, with another message right behind it. */
static void sizes() {
  static const std::vector<unsigned> N = [] { std::vector<unsigned> v; for (unsigned i = 0; i < 300; i++) v.push_back(i); for (unsigned i : {1000u, 4000u, 65000u, 70000u}) v.push_back(i); for (unsigned i = 65500; i < 65545; i++) v.push_back(i); return v; }();
  const int64_t base = quiet_blocks();
  {
    const unsigned n = mc::pick(N); const bool need = mc::flip();
    const unsigned chunk = n > 2000 ? 1000 : (n < 12 || (n > 236 && n < 262)) ? 1 + mc::choose(16) : 1 + 6 * mc::choose(3);
    Peer A(opts(100000), 0), B(opts(100000), 1);
    Side a, b; a.p = &A; a.name = "A"; b.p = &B; b.name = "B";
    connect(a, b);
    A.answer = B.answer = 2;
    S t; for (unsigned i = 0; i < n; i++) t += (char) ('a' + i % 26);
    do_send(a, t, need); do_send(a, "next", false);
    for (int i = 0; i < 3; i++) A.poll();
    if (n > 65500) { deliver(A, B, (int) (1 + mc::choose(12))); B.poll(); }
    while (A.out.fifo.size()) { deliver(A, B, (int) chunk); B.poll(); check_prefix(a, b); }
    finish("sizes", a, b);
    finish_replies(a, b);
    if (need) { bool ok = false; for (auto& m : A.got) if (m.reply && m.text == "re " + t) ok = true; MC_CHECK(ok, "link:reply-payload", "the reply to %u bytes did not carry them back", n); }
  }
  MC_CHECK(quiet_blocks() == base, "link:leak", "%lld blocks remain", (long long) (quiet_blocks() - base));
}
/* A message the receiver has no room for is dropped whole, and costs nothing else but a new sync. */
static void oversize() {
  const int64_t base = quiet_blocks();
  {
    const unsigned over = 1 + mc::choose(mc::thorough ? 300 : 60);
    const unsigned chunk = mc::flip() ? 1000 : 7;
    const bool inner = mc::flip();           // it contains what looks like a message
    Peer A(opts(4096), 0), B(opts(64), 1);
    Side a, b; a.p = &A; a.name = "A"; b.p = &B; b.name = "B";
    connect(a, b);
    S t(64 - 9 + over, 'q');
    if (inner) { // a frame of our own making: code 0F, flags 10, length 4+4, {"t":"X"}
      const S f("\x0f\x10\x09\x29\xa1\x61\x74\x61\x58", 9);
      for (size_t i = 0; i + f.size() <= t.size(); i += f.size()) t.replace(i, f.size(), f);
      mc::op("%u bytes that look like messages", (unsigned) t.size());
      KeyValuePair k("t", (u8*) &t[0], (uint32_t) t.size());
      A.turn(), A.link.send(&k, false);
    }
    else { mc::op("%u bytes", (unsigned) t.size()); KeyValuePair k("t", t.c_str()); A.turn(), A.link.send(&k, false); }
    A.poll();
    while (A.out.fifo.size()) { deliver(A, B, (int) chunk); B.poll(); }
    MC_CHECK(B.got.empty(), "link:oversize", "a message of %zu bytes to a link with an MTU of 64: the application was handed %s", t.size(), B.got.empty() ? "" : m2m::show(B.got[0]).c_str());
    const unsigned n = settle(A, B, FAIR);
    MC_CHECK(n && B.got.empty() && A.got.empty(), "link:oversize-recovery", "after a message of %zu bytes the links are %s and %s", t.size(), state_name(A.link.currentState()), state_name(B.link.currentState()));
    do_send(a, "small", true); do_send(b, "back", true);
    finish("after an oversized message", a, b); finish_replies(a, b);
  }
  MC_CHECK(quiet_blocks() == base, "link:leak", "%lld blocks remain", (long long) (quiet_blocks() - base));
}
/* A message of exactly the receiver's limit is taken, and a byte more is not. */
static void boundary() {
  static const std::vector<unsigned> M = [] { std::vector<unsigned> v = { 32, 64, 100, 1000 }; for (unsigned i = 248; i < 272; i++) v.push_back(i); return v; }();
  const int64_t base = quiet_blocks();
  {
    const unsigned mtu = mc::pick(M); const bool need = mc::flip(); const unsigned chunk = mc::choose(3);
    const unsigned n = mtu - 24 + mc::choose(24);
    Peer A(opts(4096), 0), B(opts(mtu), 1);
    Side a, b; a.p = &A; a.name = "A"; b.p = &B; b.name = "B";
    connect(a, b);
    B.answer = 1;
    S t(n, 'q'); KeyValuePair k("t", t.c_str());
    A.turn(); MC_CHECK(A.link.send(&k, need) >= 0, "link:send", "a message of %u bytes was refused", n);
    while (A.out.fifo.empty()) A.poll();
    const unsigned w = (unsigned) A.out.fifo.size();
    mc::op("a message of %u bytes in all, to a link with an MTU of %u, in %s", w, mtu, chunk == 0 ? "one piece" : chunk == 1 ? "pieces of 7" : "two pieces");
    if (chunk == 0) { deliver(A, B); B.poll(); }
    else if (chunk == 1) while (A.out.fifo.size()) { deliver(A, B, 7); B.poll(); }
    else { deliver(A, B, (int) w - 1); B.poll(); deliver(A, B); B.poll(); }
    MC_CHECK(B.got.size() == (w <= mtu ? 1u : 0u), w <= mtu ? "link:mtu-taken" : "link:mtu-refused", "a message of %u bytes to a link with an MTU of %u: %zu messages were handed over", w, mtu, B.got.size());
    MC_CHECK(w > mtu || B.got[0].text == t, "link:mtu-text", "a message of %u bytes arrived altered", w);
    const unsigned r = settle(A, B, FAIR);
    MC_CHECK(r, "link:stuck:boundary", "after a message of %u bytes the links are %s and %s", w, state_name(A.link.currentState()), state_name(B.link.currentState()));
  }
  MC_CHECK(quiet_blocks() == base, "link:leak", "%lld blocks remain", (long long) (quiet_blocks() - base));
}
/* A transport that takes nothing for a while. */
static void pressure(unsigned depth) {
  const int64_t base = quiet_blocks();
  {
    Peer A(opts(), 0), B(opts(), 1);
    Side a, b; a.p = &A; a.name = "A"; b.p = &B; b.name = "B";
    connect(a, b);
    const unsigned n = 1 + mc::choose(4);
    for (unsigned i = 0; i < n; i++) do_send(a, "m" + std::to_string(i), mc::flip());
    for (unsigned d = 0; d < depth; d++) {
      A.out.refuse = mc::flip();
      mc::op("poll A, transport %s", A.out.refuse ? "refusing" : "taking");
      A.poll();
      mc::state(m2m::key(A), depth - d - 1);
    }
    A.out.refuse = false;
    finish("pressure", a, b); finish_replies(a, b);
  }
  MC_CHECK(quiet_blocks() == base, "link:leak", "%lld blocks remain", (long long) (quiet_blocks() - base));
}
/* More messages than the queue holds: those refused are not sent, those taken are. */
static void flood() {
  const int64_t base = quiet_blocks();
  {
    Peer A(opts(), 0), B(opts(), 1);
    Side a, b; a.p = &A; a.name = "A"; b.p = &B; b.name = "B";
    connect(a, b);
    const unsigned n = 6 + mc::choose(8), replies = mc::choose(8), polls = mc::choose(3);
    for (unsigned i = 0; i < n; i++) {
      const unsigned before = (unsigned) a.sent.size();
      do_send(a, "m" + std::to_string(i), (replies >> (i % 3)) & 1);
      if (polls == 0) MC_CHECK((a.sent.size() > before) == (i < 8), "link:queue-depth", "message %u with nothing sent yet: %s", i, a.sent.size() > before ? "taken" : "refused");
      for (unsigned k = 0; k < polls; k++) if (i % 2) A.poll();
    }
    finish("flood", a, b); finish_replies(a, b);
  }
  MC_CHECK(quiet_blocks() == base, "link:leak", "%lld blocks remain", (long long) (quiet_blocks() - base));
}
static void establish_quick()  { establish(7, false); }
static void establish_deep()   { establish(10, false); }
static void early_quick()      { establish(5, true); }
static void early_deep()       { establish(8, true); }
static void traffic_quick()    { traffic(7); }
static void traffic_deep()     { traffic(10); }
static void cuts()             { fragments(false); }
static void two_cuts()         { fragments(true); }
static void pressure_all()     { pressure(mc::thorough ? 10 : 7); }
int main(int argc, char** argv) {
  const char* t = getenv("VERIF_TIER"); const bool deep = t && S(t) == "thorough";
  mc::prime = [] { M2MLinkOpts o = opts(); StringBuilder s; Peer A(o, 0), B(o, 1); plat::set_ms(1000); settle(A, B, 100); m2m::key(A); };   // first-use allocations
  std::vector<mc::Config> c;
  c.emplace_back("establish", deep ? establish_deep : establish_quick, 3, "every schedule of 6 (thorough 8) polls, deliveries and time steps from fresh links polled 0..3 times");
  c.emplace_back("early-sends", deep ? early_deep : early_quick, 3, "the same with up to 2 sends on each side, 4 (thorough 6) steps");
  c.emplace_back("traffic", deep ? traffic_deep : traffic_quick, 3, "every schedule of 5 (thorough 7) sends, polls, deliveries and time steps on an established link, with every kind of reply");
  c.emplace_back("cuts", cuts, 2, "a conversation of 5 messages cut at every byte, and into pieces of every size up to 12");
  c.emplace_back("two-cuts", two_cuts, 2, "cut at every pair of bytes");
  c.emplace_back("sizes", sizes, 2, "every payload length up to 300, and around 65536, in pieces of three sizes");
  c.emplace_back("oversize", oversize, 2, "messages exceeding the receiver's limit by 1..60 (thorough 300)");
  c.emplace_back("boundary", boundary, 2, "messages of 20 sizes about the receiver's limit, for 28 limits, with and without a reply, in three fragmentations");
  c.emplace_back("pressure", pressure_all, 2, "every pattern of transport refusals over 7 (thorough 10) polls");
  c.emplace_back("flood", flood, 2, "6..13 sends at once, with replies wanted in every pattern");
  return mc::main(argc, argv, "C21", c, {"the byte stream between the links loses, adds and alters nothing (faults are C22's)", "random identifiers come from a stand-in that does not repeat", "the transport takes each buffer whole or not at all"});
}
