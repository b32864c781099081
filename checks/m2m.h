/* Two real link endpoints joined by byte streams that the harness delivers as it pleases. */
#ifndef M2M_H
#define M2M_H
#include "mc.h"
#include "M2MLink/M2MLink.h"
#include "C3PValue/KeyValuePair.h"
#include <string>
#include <vector>
#include <deque>
#include <string.h>

namespace m2m {
typedef std::string S;
typedef uint8_t u8;

inline int64_t quiet_blocks() { std::vector<std::string>().swap(plat::log); return mc::live_blocks(); }
inline S bytes_of(StringBuilder& b) {
  const int n = b.length(); if (n <= 0) return S();
  S r((size_t) n, 0); b.copyToBuffer((u8*) &r[0], n); return r;
}

/* A one-way byte stream. */
struct Wire : public BufferAccepter {
  S fifo;                              // sent and not yet delivered
  bool refuse = false;                 // the transport takes nothing
  std::vector<S>* pushes = nullptr;    // every buffer taken, if wanted
  bool hold = false;                   // buffers go to pushes only
  int8_t pushBuffer(StringBuilder* b) override {
    if (refuse) return -1;
    S s = bytes_of(*b); b->clear();
    if (pushes) pushes->push_back(s);
    if (!hold) fifo += s;
    return 1;
  }
  int32_t bufferAvailable() override { return refuse ? 0 : 1 << 20; }
};

/* A message as the application sees it. */
struct Seen {
  bool reply, expects; uint32_t id; S text;
  bool operator==(const Seen& o) const { return reply == o.reply && expects == o.expects && id == o.id && text == o.text; }
};
inline S show(const Seen& m) { char b[64]; snprintf(b, sizeof(b), "%s%s id %x ", m.reply ? "reply" : "message", m.expects ? " expecting a reply" : "", m.id); return b + (m.text.size() > 40 ? m.text.substr(0, 40) + "..(" + std::to_string(m.text.size()) + ")" : m.text); }

struct Peer;
static Peer* peers[2] = { nullptr, nullptr };
inline void on_msg(int which, uint32_t tag, M2MMsg* m);
inline void on_msg0(uint32_t t, M2MMsg* m) { on_msg(0, t, m); }
inline void on_msg1(uint32_t t, M2MMsg* m) { on_msg(1, t, m); }
inline void on_state(M2MLink*);

struct Peer {
  M2MLink link;
  Wire out;
  std::vector<Seen> got;               // what the application was handed, in order
  std::vector<M2MLinkState> notified;  // the state callback, with the state seen afterwards
  uint32_t notifications = 0;
  int answer = 1;                      // to a message expecting a reply: 0 nothing, 1 ack, 2 reply with a payload, 3 a reply expecting a reply
  bool wrong_tag = false;
  uint32_t seed, drawn = 0;            // each side has a generator of its own
  Peer(const M2MLinkOpts& o, int which) : link(&o), seed(which ? 0x5bd1e995u : 0x9e3779b1u) {
    peers[which] = this;
    link.setCallback(which ? on_msg1 : on_msg0);
    link.setCallback(on_state);
    link.setEfferant(&out);
  }
  unsigned alike = 0;                  // 1..3: what it draws differs in that byte alone
  uint32_t draw() { if (alike) return 0x00A1B2C3u ^ ((++drawn) << (8 * (alike - 1))); uint32_t x = (++drawn) * seed; x ^= x >> 15; x *= 0x2c1b3c6du; x ^= x >> 12; return x ? x : 1; }
  void turn() { Peer* me = this; plat::rng = [me] { return me->draw(); }; }
  int8_t poll() { turn(); return link.poll(); }
  ~Peer() { link.setEfferant(nullptr); }
};
inline S text_of(M2MMsg* m) {
  KeyValuePair* kvp = nullptr;
  if (0 != m->getPayload(&kvp)) return "<unreadable>";
  if (!kvp) return "<empty>";
  S r = "<other>"; char* t = nullptr;
  C3PValue* v = kvp->valueWithKey("t");
  if (v && (v->tcode() == TCode::STR) && 0 == v->get_as(&t) && t) r = t;
  delete kvp;
  return r;
}
inline void on_msg(int which, uint32_t tag, M2MMsg* m) {
  Peer& p = *peers[which];
  if (tag != p.link.linkTag()) p.wrong_tag = true;
  p.got.push_back(Seen{ m->isReply(), m->expectsReply(), m->uniqueId(), text_of(m) });
  if (m->expectsReply()) {
    if (p.answer == 1) m->ack();
    else if (p.answer >= 2) { const S t = "re " + p.got.back().text; KeyValuePair k("t", t.c_str()); m->reply(&k, p.answer == 3 && !m->isReply()); }
  }
}
inline void on_state(M2MLink* l) { for (Peer* p : peers) if (p && &p->link == l) p->notifications++; }

inline int send(Peer& p, const S& text, bool need_reply = false) {
  KeyValuePair k("t", text.c_str());
  p.turn();
  return p.link.send(text == "<empty>" ? nullptr : &k, need_reply);
}
/* Hands the link n bytes of a stream (all of them: -1). */
inline void feed(Peer& to, const S& s) { if (s.size()) { StringBuilder b((u8*) s.data(), (int) s.size()); to.link.pushBuffer(&b); } }
inline void deliver(Peer& from, Peer& to, int n = -1) {
  const size_t k = n < 0 || (size_t) n > from.out.fifo.size() ? from.out.fifo.size() : (size_t) n;
  const S s = from.out.fifo.substr(0, k); from.out.fifo.erase(0, k);
  feed(to, s);
}
/* A fair stretch of time: both are polled, everything arrives, the clock moves. */
inline bool idle(Peer& a, Peer& b) { return a.link.linkIdle() && b.link.linkIdle() && a.out.fifo.empty() && b.out.fifo.empty(); }
inline unsigned settle(Peer& a, Peer& b, unsigned rounds, unsigned ms = 1) {
  for (unsigned i = 0; i < rounds; i++) {
    a.poll(); b.poll();
    deliver(a, b); deliver(b, a);
    plat::advance_ms(ms);
    if (idle(a, b)) return i + 1;
  }
  return idle(a, b) ? rounds : 0;
}
inline const char* state_name(M2MLinkState s) { return M2MLink::sessionStateStr(s); }
/* Everything the link can be seen to hold: for cutting off executions that meet. */
inline S key(Peer& p) {
  StringBuilder b;
  p.link.printDebug(&b); p.link.printQueues(&b); p.link.printFSM(&b);
  char t[64]; snprintf(t, sizeof(t), "|%zu %u %d %d|", p.got.size(), p.notifications, (int) p.out.refuse, (int) p.link.bufferAvailable());
  S r = bytes_of(b) + t + p.out.fifo;
  for (auto& m : p.got) r += m.text + (m.reply ? "r" : "") + ";";
  return r;
}
}  // namespace m2m
#endif
