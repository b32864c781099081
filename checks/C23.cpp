/* C23: requests over a link that loses and delays whole messages. */
#include "../mc/mc.h"
#include "m2m.h"
#include "hdrref.h"
#include <map>
using namespace m2m;

static const uint32_t TIMEOUT = 20, KEEPALIVE = 50, MTU = 256;
static const unsigned TRIES = 4;        // the first, and three more
static M2MLinkOpts opts() { return M2MLinkOpts(TIMEOUT, KEEPALIVE, MTU, TCode::CBOR, 0); }

struct Flight { int dir; S buf; uint64_t due; };
struct Req { unsigned owner; S text; uint32_t id = 0; std::vector<uint64_t> sent; bool answered = false; uint64_t at = 0; unsigned arrived = 0; };

struct Run {
  Peer A, B;
  std::vector<S> pushed[2];
  std::vector<Flight> air;
  std::vector<Req> reqs;
  uint64_t now = 0;             // ticks of a millisecond since the beginning
  unsigned fates;               // how many more buffers have their fate chosen
  int kinds;                    // of fate: 2 delivered or lost, 3 or late as well
  uint32_t late;
  unsigned plain_sent = 0;
  bool established = false;
  Run() : A(opts(), 0), B(opts(), 1) { A.out.pushes = &pushed[0]; B.out.pushes = &pushed[1]; A.out.hold = B.out.hold = true; }
  Peer& peer(int i) { return i ? B : A; }
  void observe(int dir, const S& b) {
    hdr::Ref r;
    MC_CHECK(hdr::read(b, r) == 0 && r.total == b.size(), "request:buffer", "%c pushed a buffer that is not one message: %s", 'A' + dir, mc::hex(b).c_str());
    if (r.code != 0x0F || (r.low & 2) || !(r.low & 1)) return;
    // A request. The ones sent are told apart by their payload.
    Req* q = nullptr;
    for (auto& x : reqs) if ((int) x.owner == dir && (x.text == "<empty>" ? r.payload == 0 : b.find(x.text) != S::npos)) q = &x;
    MC_CHECK(q, "request:unknown", "%c sent a request nobody asked for: %s", 'A' + dir, mc::hex(b).c_str());
    if (q->sent.empty()) { q->id = r.id; MC_CHECK(r.id != 0, "request:id-zero", "%s was sent without an identifier", q->text.c_str()); }
    MC_CHECK(q->id == r.id, "request:id-changed", "%s was sent as %x, and again as %x", q->text.c_str(), q->id, r.id);
    for (auto& x : reqs) if (&x != q && x.owner == q->owner && x.id) MC_CHECK(x.id != r.id, "request:id-shared", "%s and %s were both sent as %x", q->text.c_str(), x.text.c_str(), r.id);
    MC_CHECK(!q->answered || q->at >= now, "request:sent-after-answer", "%s was sent again %llu ms after its answer arrived", q->text.c_str(), (unsigned long long) (now - q->at));
    if (q->sent.size()) MC_CHECK(now - q->sent.back() > TIMEOUT, "request:too-soon", "%s was sent again after %llu ms, the timeout being %u", q->text.c_str(), (unsigned long long) (now - q->sent.back()), TIMEOUT);
    q->sent.push_back(now);
    MC_CHECK(q->sent.size() <= TRIES, "request:too-often", "%s was sent %zu times", q->text.c_str(), q->sent.size());
  }
  void arrive(int dir, const S& b) {
    hdr::Ref r; hdr::read(b, r);
    if (r.code == 0x0F && (r.low & 2)) for (auto& q : reqs) if ((int) q.owner != dir && q.id == r.id && q.id && !q.answered) { q.answered = true; q.at = now + 1; }
    if (r.code == 0x0F && !(r.low & 2)) for (auto& q : reqs) if ((int) q.owner == dir && q.id == r.id) q.arrived++;
    feed(peer(1 - dir), b);
  }
  void tick(uint32_t ms = 1) {
    for (int d = 0; d < 2; d++) {
      peer(d).poll();
      for (auto& b : pushed[d]) {
        if (established) observe(d, b);
        int f = 0;
        if (established && fates) { fates--; f = mc::choose(kinds); if (f) mc::op("%llu ms: %s of %c is %s", (unsigned long long) now, mc::hex(b).c_str(), 'A' + d, f == 1 ? "lost" : "late"); }
        if (f != 1) air.push_back(Flight{ d, b, now + (f == 2 ? late : 0) });
      }
      pushed[d].clear();
    }
    for (size_t i = 0; i < air.size(); ) if (air[i].due <= now) { Flight x = air[i]; air.erase(air.begin() + i); arrive(x.dir, x.buf); } else i++;
    plat::advance_ms(ms); now += ms;
  }
  bool quiet() { return air.empty() && A.link.linkIdle() && B.link.linkIdle() && !A.out.fifo.size(); }
  void establish() {
    for (int i = 0; i < 60; i++) tick();
    MC_CHECK(quiet() && A.link.currentState() == M2MLinkState::LIVE && B.link.currentState() == M2MLinkState::LIVE, "request:connect", "no link");
    established = true;
  }
  void request(int who, bool bare = false) {         // one without a payload at most, as they could not be told apart
    const S t = bare ? S("<empty>") : S(1, (char) ('A' + who)) + "?" + std::to_string(reqs.size());
    Req q; q.owner = who; q.text = t;
    reqs.push_back(q);
    MC_CHECK(send(peer(who), t, true) >= 0, "request:refused", "a request was refused on an idle link");
  }
  void finish() {
    unsigned i = 0;
    const unsigned LIMIT = 3 * (TRIES + 1) * (TIMEOUT + 16) + 4 * late;
    for (; i < LIMIT && (!quiet() || i < 5); i++) tick();
    MC_CHECK(quiet(), "request:never-ends", "%u ms later, the link still waits: %s %s", LIMIT, state_name(A.link.currentState()), state_name(B.link.currentState()));
    for (int i = 0; i < 3; i++) tick();
  }
  void judge(int answerA, int answerB) {
    for (int who = 0; who < 2; who++) {
      unsigned lo = 0, hi = 0;
      for (auto& q : reqs) if ((int) q.owner == who) {
        MC_CHECK(!q.sent.empty(), "request:never-sent", "%s was never sent", q.text.c_str());
        unsigned got = 0;
        for (auto& m : peer(who).got) if (m.reply && m.id == q.id) {
          got++;
          const int how = who ? answerA : answerB;
          MC_CHECK(m.text == (how == 1 ? S("<empty>") : "re " + q.text), "request:wrong-answer", "%s was answered with %s", q.text.c_str(), m.text.c_str());
        }
        MC_CHECK(got <= q.arrived * TRIES && (how_many(who ? answerA : answerB) || !got), "request:answers", "%s arrived %u times, and was answered %u times", q.text.c_str(), q.arrived, got);
        MC_CHECK(q.answered == (got > 0), "request:answer-lost", "an answer to %s %s, and %u were handed over", q.text.c_str(), q.answered ? "arrived" : "never arrived", got);
        if (!q.answered) {
          MC_CHECK(q.sent.size() == TRIES, "request:gave-up-early", "%s was never answered, and was sent %zu times", q.text.c_str(), q.sent.size());
          lo++; hi++;
        }
        else if (q.sent.size() == TRIES) {      // answered, perhaps too late
          const uint64_t given_up = q.sent.back() + TIMEOUT;
          if (q.at > given_up) hi++;
          if (q.at > given_up + 8) lo++;
        }
      }
      const unsigned n = peer(who).link.replyTimeouts();
      const int other = who ? answerB : answerA; (void) other;
      // A reply that expects a reply is a request of its own: it is counted by its sender, and checked by its own bounds.
      if ((who ? answerB : answerA) != 3) MC_CHECK(n >= lo && n <= hi, "request:timeout-count", "%c counts %u timeouts; %u..%u of its requests were given up", 'A' + who, n, lo, hi);
      for (auto& m : peer(who).got) if (!m.reply) {
        bool known = false; for (auto& q : reqs) if ((int) q.owner != who && q.text == m.text) known = true;
        MC_CHECK(known || m.text[0] == 'p', "request:foreign", "%c was handed %s", 'A' + who, m2m::show(m).c_str());
      }
      MC_CHECK(!peer(who).wrong_tag, "request:tag", "%c was handed a message under another link's tag", 'A' + who);
    }
  }
  static bool how_many(int answer) { return answer != 0; }
};
static void body(unsigned fates, int kinds, const std::vector<uint32_t>& lates, unsigned max_requests, bool both, bool alike = false) {
  const int64_t base = quiet_blocks();
  {
    plat::set_ms(mc::flip() ? 100000 : 0xFFFFFFFFu - 80);
    Run r;
    r.late = lates[mc::choose((int) lates.size())];
    r.fates = fates; r.kinds = kinds;
    r.A.answer = 1; r.B.answer = mc::choose(4);
    if (both) r.A.answer = mc::choose(4);
    else if (r.B.answer == 3) r.A.answer = mc::choose(2);
    if (alike) { r.A.alike = 1 + mc::choose(3); mc::op("identifiers differ in byte %u alone", r.A.alike); }
    const unsigned n = 1 + mc::choose(max_requests);
    mc::op("%u requests, %s, A %d B %d, late means %u ms", n, both ? "each way" : "A to B", r.A.answer, r.B.answer, r.late);
    r.establish();
    const unsigned bare = mc::choose(both || kinds > 2 ? 2 : 3);    // none, the first, the last
    for (unsigned i = 0; i < n; i++) { const bool e = bare == 1 ? i == 0 : bare == 2 ? i + 1 == n : false; r.request(0, e); if (both) r.request(1, e); if (i + 1 < n && mc::flip()) { for (int k = 0; k < 7; k++) r.tick(); } }
    r.finish();
    r.judge(r.A.answer, r.B.answer);
  }
  const int64_t left = quiet_blocks() - base;
  MC_CHECK(left <= 0, "request:leak", "%lld blocks remain", (long long) left);
}
static void losses() { body(mc::thorough ? 14 : 10, 2, { 0 }, 2, false); }
static void delays() { body(mc::thorough ? 8 : 6, 3, mc::thorough ? std::vector<uint32_t>{ 10, 25, 45, 100 } : std::vector<uint32_t>{ 25, 100 }, 2, false); }
static void mutual() { body(mc::thorough ? 11 : 8, 2, { 0 }, 2, true); }
static void crowd() { body(mc::thorough ? 7 : 5, 3, { 25 }, 4, false); }
static void alike()  { body(mc::thorough ? 8 : 6, 2, { 0 }, 3, false, true); }
/* Plain messages behind a request that nobody answers. */
static void behind() {
  const int64_t base = quiet_blocks();
  {
    plat::set_ms(100000);
    Run r; r.fates = 0; r.kinds = 2; r.late = 0; r.B.answer = mc::choose(2);
    r.establish();
    const unsigned n = 1 + mc::choose(4); std::vector<S> plain; unsigned requests = 0;
    for (unsigned i = 0; i < n; i++) {
      if (mc::flip()) { r.request(0, requests == 0); requests++; mc::op("request"); }
      else { plain.push_back("p" + std::to_string(i)); mc::op("plain"); MC_CHECK(send(r.A, plain.back()) >= 0, "request:refused", "a message was refused"); }
      for (unsigned k = mc::choose(3) * 3; k; k--) r.tick();
    }
    for (unsigned k = 0; k < 2 * n + 2; k++) r.tick();
    std::vector<S> got; for (auto& m : r.B.got) if (m.text[0] == 'p') got.push_back(m.text);
    MC_CHECK(got == plain, "request:blocks-others", "%zu plain messages were sent around %u requests, and %zu arrived", plain.size(), requests, got.size());
    r.finish(); r.judge(r.A.answer, r.B.answer);
  }
  const int64_t left = quiet_blocks() - base;
  MC_CHECK(left <= 0, "request:leak", "%lld blocks remain", (long long) left);
}
int main(int argc, char** argv) {
  mc::prime = [] { Run r; plat::set_ms(100000); r.fates = 0; r.kinds = 2; r.late = 0; r.establish(); r.request(0); r.request(1); r.finish(); r.judge(1, 1); };
  std::vector<mc::Config> c;
  c.emplace_back("losses", losses, 3, "1..2 requests, with and without payload, four ways of answering, every pattern of loss over the first 10 (thorough 14) messages, before and across the clock's overflow");
  c.emplace_back("delays", delays, 3, "1..2 requests, every pattern of delivery, loss and delay over the first 6 (thorough 8) messages, delays of 25 and 100 ms (thorough 10, 25, 45, 100) at a timeout of 20");
  c.emplace_back("mutual", mutual, 3, "1..2 requests each way, every pair of ways of answering, every pattern of loss over the first 8 (thorough 11) messages");
  c.emplace_back("crowd", crowd, 3, "up to 4 requests at once, every pattern of delivery, loss and delay over the first 5 (thorough 7) messages");
  c.emplace_back("alike", alike, 3, "up to 3 requests whose identifiers differ in one byte, every pattern of loss over the first 6 (thorough 8) messages");
  c.emplace_back("behind", behind, 2, "every mix of up to 4 requests and plain messages, at three spacings, answered or not");
  return mc::main(argc, argv, "C23", c, {"both sides are polled every millisecond", "the transport loses or delays whole messages", "identifiers drawn are distinct"});
}
