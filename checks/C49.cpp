/* C49: logs and identities cross a link; messages for services find them. */
#include "../mc/mc.h"
#include "m2m.h"
#include "hdrref.h"
#include "Identity/Identity.h"
#include "Identity/IdentityUUID.h"
#include <memory>
using namespace m2m;

static const uint32_t TIMEOUT = 20, KEEPALIVE = 50, MTU = 512;
static M2MLinkOpts opts(bool logs, uint32_t mtu = MTU) { return M2MLinkOpts(TIMEOUT, KEEPALIVE, mtu, TCode::CBOR, logs ? M2MLINK_FLAG_ALLOW_LOG_WRITE : 0); }

struct End : public Peer {
  StringBuilder heard; S log; bool listening = true; S name; std::vector<S> wrote, said;
  End(const M2MLinkOpts& o, int which) : Peer(o, which), name(which ? "B" : "A") {}
  int8_t poll() {
    turn(); if (!listening) return link.poll();
    StringBuilder l; const int8_t r = link.poll(&l); log += bytes_of(l); return r;
  }
};
static void round_of(End& a, End& b, unsigned ms = 1) { a.poll(); b.poll(); deliver(a, b); deliver(b, a); plat::advance_ms(ms); }
static unsigned rest(End& a, End& b, unsigned rounds = 400) { for (unsigned i = 0; i < rounds; i++) { round_of(a, b); if (idle(a, b)) { a.poll(); b.poll(); if (idle(a, b)) return i + 1; } } return 0; }
static void live(End& a, End& b) { plat::set_ms(100000); MC_CHECK(rest(a, b) && a.link.isConnected() && b.link.isConnected(), "establish", "two ends did not establish a session"); }
static int write(End& e, const S& t, bool ack, unsigned pieces = 1) {
  StringBuilder b; const size_t step = (t.size() + pieces - 1) / pieces;
  for (size_t i = 0; i < t.size(); i += step) { const S s = t.substr(i, step); b.concat((u8*) s.data(), (int) s.size()); }
  e.turn(); const int r = e.link.writeRemoteLog(&b, ack); mc::steps(1);
  mc::op("%s writes \"%s\" to the other's log%s: %d", e.name.c_str(), t.substr(0, 24).c_str(), ack ? ", to be acknowledged" : "", r);
  MC_CHECK(b.isEmpty(), "log:consumed", "%s: writeRemoteLog() of %zu bytes returned %d and left %d bytes in the caller's buffer", e.name.c_str(), t.size(), r, b.length());
  if (!r) e.wrote.push_back(t);
  return r;
}
/* Every text written is in the other's log, whole, once and in its turn; an end that does not allow it, or was not asked for it, shows nothing. */
static void judge_logs(End& from, End& to, bool allowed) {
  if (!allowed || !to.listening) { MC_CHECK(to.log.empty(), "log:refused", "%s logs \"%s\", which it should not", to.name.c_str(), to.log.c_str()); return; }
  size_t at = 0;
  for (auto& t : from.wrote) {
    const size_t p = to.log.find(t, at);
    MC_CHECK(p != S::npos, "log:missing", "%s wrote \"%s\", and %s logged \"%s\"", from.name.c_str(), t.substr(0, 40).c_str(), to.name.c_str(), to.log.substr(0, 200).c_str());
    at = p + t.size();
  }
  if (from.wrote.empty()) MC_CHECK(to.log.empty(), "log:unasked", "%s logs \"%s\" without having been sent anything", to.name.c_str(), to.log.c_str());
  for (size_t i = 0; i < from.wrote.size(); i++) {
    unsigned n = 0, w = 0;
    for (size_t p = 0; (p = to.log.find(from.wrote[i], p)) != S::npos; p++) n++;
    for (auto& t : from.wrote) for (size_t p = 0; (p = t.find(from.wrote[i], p)) != S::npos; p++) w++;
    MC_CHECK(n == w, "log:twice", "%s wrote \"%s\" %u times, and it was logged %u times", from.name.c_str(), from.wrote[i].substr(0, 40).c_str(), w, n);
  }
}
static void judge_said(End& from, End& to) {
  std::vector<S> plain; for (auto& m : to.got) if (!m.reply) plain.push_back(m.text);
  MC_CHECK(plain == from.said, "app", "%s sent %zu messages and %s was handed %zu", from.name.c_str(), from.said.size(), to.name.c_str(), plain.size());
}

static void logs(unsigned depth) {
  const int64_t base = quiet_blocks();
  {
    const unsigned setting = mc::choose(5);      // who allows it, and who reads what was logged
    const bool ao = setting != 1, bo = setting != 2;
    End A(opts(ao), 0), B(opts(bo), 1); B.listening = setting != 4;
    mc::op("A %s, B %s%s", ao ? "allows logs" : "does not", bo ? "allows logs" : "does not", B.listening ? "" : " and never reads them");
    live(A, B); unsigned n = 0, asked[2] = { 0, 0 };
    for (unsigned d = 0; d < depth; d++) {
      mc::state(key(A) + "#" + key(B) + A.log + "#" + B.log + std::to_string(setting) + std::to_string(asked[0]) + std::to_string(asked[1]), depth - d);
      switch (mc::choose(8)) {
        case 0: case 1: { const bool ack = d & 1; const S t = "line<" + std::to_string(n++) + ">"; const int r = write(A, t, ack); MC_CHECK(r == 0, "log:answer", "writeRemoteLog() on a live link returned %d", r); break; }
        case 2: { const S t = "word<" + std::to_string(n++) + ">"; const int r = write(B, t, true); MC_CHECK(r == 0, "log:answer", "writeRemoteLog() on a live link returned %d", r); break; }
        case 3: { const S t = "app" + std::to_string(n++); const bool ask = n & 1; const int r = send(A, t, ask); mc::op("A sends %s: %d", t.c_str(), r); MC_CHECK(r >= 0, "app:send", "send() returned %d", r); A.said.push_back(t); asked[0] += ask; break; }
        case 4: A.poll(); mc::op("A is polled"); break;
        case 5: B.poll(); mc::op("B is polled"); break;
        case 6: deliver(A, B); mc::op("A's bytes arrive"); break;
        case 7: deliver(B, A); mc::op("B's bytes arrive"); break;
      }
    }
    MC_CHECK(rest(A, B), "rest", "the links did not come to rest");
    judge_logs(A, B, bo); judge_logs(B, A, ao); judge_said(A, B); judge_said(B, A);
    MC_CHECK(A.link.replyTimeouts() == 0 && B.link.replyTimeouts() == 0, "log:timeout", "requests went unanswered: %u and %u", A.link.replyTimeouts(), B.link.replyTimeouts());
    plat::advance_ms(10 * TIMEOUT); rest(A, B); judge_logs(A, B, bo); judge_logs(B, A, ao);
  }
  MC_CHECK(quiet_blocks() <= base, "leak", "%lld blocks remain", (long long) (quiet_blocks() - base));
}
/* What a text may be: anything that is not a null byte. */
static void texts() {
  const int64_t base = quiet_blocks();
  {
    End A(opts(true, 2000), 0), B(opts(true, 2000), 1); live(A, B);
    S t; const unsigned kind = mc::choose(8), n = kind == 7 ? 1 : 1 + mc::choose(12);
    static const unsigned LONG[] = {22, 23, 24, 127, 128, 254, 255, 256, 257, 300, 1000, 1900};
    switch (kind) {
      case 0: t = S(n, '~'); break;
      case 1: t = S(LONG[n - 1], 'y'); t[0] = '<'; t[t.size() - 1] = '>'; break;
      case 2: t = "100%"; for (unsigned i = 0; i < n; i++) t += i & 1 ? "%n" : "%s"; break;
      case 3: t = "\r\n"; for (unsigned i = 0; i < n; i++) t += (char) (i * 23 + 1); break;
      case 4: for (unsigned i = 0; i < n; i++) t += (char) (255 - i * 7); t += "\xC3\xA9"; break;
      case 5: t = S(n, ' ') + "|" + S(n, '\t'); break;
      case 6: t = S(n, '"') + "\\" + S(n, '\''); break;
      case 7: for (unsigned c = 1; c < 256; c++) t += (char) c; break;
    }
    const unsigned pieces = 1 + mc::choose(3); const bool ack = mc::flip();
    const int r = write(A, t, ack, pieces); MC_CHECK(r == 0, "text:answer", "writeRemoteLog() of %zu bytes returned %d", t.size(), r);
    MC_CHECK(rest(A, B), "text:rest", "the links did not come to rest");
    judge_logs(A, B, true); judge_logs(B, A, true); judge_said(A, B); judge_said(B, A);
    StringBuilder l; B.poll(); MC_CHECK(B.link.replyTimeouts() == 0 && A.link.replyTimeouts() == 0, "text:timeout", "a request went unanswered");
    const S before = B.log; A.said.push_back("after"); send(A, "after"); rest(A, B); judge_said(A, B); MC_CHECK(B.log == before, "text:again", "more is logged later");
  }
  MC_CHECK(quiet_blocks() <= base, "leak", "%lld blocks remain", (long long) (quiet_blocks() - base));
}
/* When it is refused. */
static void refused() {
  const int64_t base = quiet_blocks();
  {
    End A(opts(true), 0), B(opts(true), 1); const unsigned when = mc::choose(4); const bool ack = mc::flip();
    if (when == 0) { plat::set_ms(100000); const unsigned k = mc::choose(6); for (unsigned i = 0; i < k && !A.link.isConnected(); i++) round_of(A, B); if (A.link.isConnected()) throw mc::Prune(); mc::op("before the session is up (%u rounds)", k); const int r = write(A, "early", ack); MC_CHECK(r == -2, "refused:early", "writeRemoteLog() without a session returned %d", r); }
    else {
      live(A, B);
      if (when == 1) { mc::op("nothing to write"); const int r = write(A, "", ack); MC_CHECK(r == -1, "refused:empty", "writeRemoteLog() of nothing returned %d", r); }
      if (when == 2) { A.link.hangup(false); for (int i = 0; i < 4; i++) A.poll(); mc::op("hung up"); const int r = write(A, "late", ack); MC_CHECK(r == -2, "refused:late", "writeRemoteLog() after hanging up returned %d", r); }
      if (when == 3) {
        int r = 0; unsigned k = 0; while (!(r = write(A, "flood<" + std::to_string(k) + ">", ack)) && k < 40) k++;
        MC_CHECK(r == -5 && k >= 1, "refused:flood", "%u texts were taken without a poll, and then %d was returned", k, r);
        MC_CHECK(rest(A, B), "refused:rest", "the links did not come to rest"); judge_logs(A, B, true);
      }
    }
    if (when != 2) { rest(A, B); judge_logs(A, B, true); judge_logs(B, A, true); }
  }
  MC_CHECK(quiet_blocks() <= base, "leak", "%lld blocks remain", (long long) (quiet_blocks() - base));
}

/* ---- Identities ---- */
static S raw(Identity* i) { S b(16, 0); ((IdentityUUID*) i)->copyRaw((u8*) &b[0]); return b; }
static int console(End& e, const char* line) { StringBuilder in(line), out; in.split(" "); e.turn(); const int r = e.link.console_handler(&out, &in); mc::steps(1); return r; }
static void identities(unsigned depth) {
  const int64_t base = quiet_blocks();
  {
    std::unique_ptr<IdentityUUID> ids[2][2];
    for (int s = 0; s < 2; s++) for (int k = 0; k < 2; k++) {
      char u[40]; snprintf(u, sizeof(u), "0123456%d-89ab-cdef-0123-4567%dabcdef%d", s, k, s + 2 * k); u[36] = 0;
      ids[s][k].reset(new IdentityUUID(s ? (k ? "B second" : "B") : (k ? "A second and rather longer in its name" : "A"), u));
    }
    End A(opts(true), 0), B(opts(true), 1); End* e[2] = { &A, &B };
    Identity* known[2] = { nullptr, nullptr };   // what each end should know of the other
    live(A, B);
    auto judge = [&]() {
      for (int s = 0; s < 2; s++) {
        Identity* r = e[s]->link.remoteIdentity();
        MC_CHECK(!!r == !!known[s], "ident:known", "%s %s", e[s]->name.c_str(), r ? "knows the other, which never told" : "does not know the other, which told");
        if (r) MC_CHECK(r != known[s] && r->identityType() == IdentFormat::UUID && S(r->getHandle()) == known[s]->getHandle() && raw(r) == raw(known[s]), "ident:same", "%s takes the other for %s", e[s]->name.c_str(), r->getHandle());
      }
    };
    judge();
    unsigned hung = 0;
    for (unsigned d = 0; d < depth; d++) {
      S k; for (int t = 0; t < 2; t++) for (Identity* i : { e[t]->link.localIdentity(), known[t] }) k += i ? i->getHandle() : "-", k += '|';
      mc::state(key(A) + "#" + key(B) + k + std::to_string(hung), depth - d);
      switch (mc::choose(3)) {
        case 0: {
          const unsigned c = mc::choose(6), s = c & 1, k = c >> 1;       // set an identity, or none
          e[s]->link.localIdentity(k < 2 ? ids[s][k].get() : nullptr); mc::op("%s is %s", e[s]->name.c_str(), k < 2 ? ids[s][k]->getHandle() : "nobody");
          MC_CHECK(e[s]->link.localIdentity() == (k < 2 ? ids[s][k].get() : nullptr), "ident:local", "localIdentity() is another");
          break; }
        case 1: {
          const unsigned s = mc::choose(2); mc::op("%s asks who the other is", e[s]->name.c_str());
          MC_CHECK(console(*e[s], "who") == 0, "ident:ask", "the command was refused");
          MC_CHECK(rest(A, B), "ident:rest", "the links did not come to rest");
          for (unsigned t : {s ^ 1u, s}) if (!known[t] && e[t ^ 1]->link.localIdentity()) known[t] = e[t ^ 1]->link.localIdentity();
          break; }
        case 2: {
          if (hung++) throw mc::Prune();
          mc::op("hang up and start over"); A.link.hangup(true); for (int i = 0; i < 300 && !(A.link.currentState() == M2MLinkState::HUNGUP && B.link.currentState() == M2MLinkState::HUNGUP); i++) round_of(A, B);
          MC_CHECK(A.link.reset() == 0 && B.link.reset() == 0, "ident:reset", "reset() was refused"); for (int i = 0; i < 4; i++) { A.poll(); B.poll(); }
          known[0] = known[1] = nullptr; MC_CHECK(rest(A, B) && A.link.isConnected() && B.link.isConnected(), "ident:again", "no second session");
          for (unsigned t : {0u, 1u}) known[t] = e[t ^ 1]->link.localIdentity();   // the ends introduce themselves when a session begins
          break; }
      }
      judge();
    }
    A.said.push_back("still"); send(A, "still"); B.said.push_back("here"); send(B, "here", true); rest(A, B); judge_said(A, B); judge_said(B, A); judge();
    MC_CHECK(A.link.replyTimeouts() == 0 && B.link.replyTimeouts() == 0, "ident:timeout", "requests went unanswered: %u and %u", A.link.replyTimeouts(), B.link.replyTimeouts());
    MC_CHECK(A.log.empty() && B.log.empty(), "ident:log", "something was logged");
  }
  MC_CHECK(quiet_blocks() <= base, "leak", "%lld blocks remain", (long long) (quiet_blocks() - base));
}

/* ---- Services ---- */
struct Service : public M2MService {
  std::vector<Seen> got; int answer = 0; uint32_t tag = 0; Service(M2MLink* l) : M2MService("svc", l) {}
  int8_t _handle_msg(uint32_t t, M2MMsg* m) override {
    tag = t; got.push_back(Seen{ m->isReply(), m->expectsReply(), m->uniqueId(), text_of(m) });
    if (answer == 1) m->ack(); else if (answer == 2) { KeyValuePair k("t", "from the service"); m->reply(&k, false); }
    return 0;
  }
};
static S payload(const S& text) { StringBuilder b; KeyValuePair k("t", text.c_str()); k.serialize(&b, TCode::CBOR); return bytes_of(b); }
static S frame(unsigned code, unsigned low, uint32_t id, const S& pay) { hdr::Ref r; r.code = code; r.low = low; r.id = id; r.payload = pay.size(); hdr::fit(r); return hdr::write(r) + pay; }
static void services() {
  const int64_t base = quiet_blocks();
  {
    End A(opts(true), 0), B(opts(true), 1); live(A, B); Service s0(&B.link), s1(&B.link), s2(&B.link); Service* s[3] = { &s0, &s1, &s2 };
    const unsigned n = mc::choose(4); for (unsigned i = 0; i < n; i++) { const int r = B.link.setCallback((M2MService*) s[i]); MC_CHECK(r == (i < CONFIG_C3PLINK_SERVICE_SLOTS ? 0 : -1), "svc:slot", "service %u was answered %d", i, r); }
    std::vector<Seen> expected[3]; const unsigned count = 1 + mc::choose(2); std::vector<S> answers;
    A.out.pushes = nullptr;
    for (unsigned i = 0; i < count; i++) {
      const unsigned slot = mc::choose(4), sl = slot == 3 ? 15 : slot; const bool ask = mc::flip(); const int how = mc::choose(3);
      const S text = "svc" + std::to_string(i); const uint32_t id = ask ? 0x1234 + i : 0;
      mc::op("a message for service %u of %u%s, %s", sl, n, ask ? ", expecting a reply" : "", how == 0 ? "which ignores it" : how == 1 ? "which acknowledges" : "which replies");
      for (auto x : s) x->answer = ask ? how : 0;
      const S before = B.out.fifo;
      feed(B, frame(0x10 + sl, ask ? 1 : 0, id, payload(text))); for (int k = 0; k < 4; k++) B.poll();
      const S sent = B.out.fifo.substr(before.size());
      const bool there = sl < n && sl < CONFIG_C3PLINK_SERVICE_SLOTS;
      if (there) expected[sl].push_back(Seen{ false, ask, id, text });
      hdr::Ref r; bool replied = false; size_t at = 0;
      while (hdr::read(sent.substr(at), r) == 0) { if (r.code == 0x10 + sl) { replied = true; MC_CHECK(r.id == id && (r.low & 3) == 2, "svc:answer", "the answer is of id %x, flags %x", r.id, r.low); const S p = sent.substr(at + r.total - r.payload, r.payload); MC_CHECK((how == 2) == (p.find("from the service") != S::npos), "svc:answer", "the answer holds %s", mc::hex(p).c_str()); } at += r.total; }
      MC_CHECK(replied == (there && ask && how), "svc:reply", "the message for service %u was %sanswered", sl, replied ? "" : "not ");
      B.out.fifo = before;
    }
    for (unsigned i = 0; i < 3; i++) MC_CHECK(s[i]->got == expected[i], "svc:got", "service %u was handed %zu messages, not %zu", i, s[i]->got.size(), expected[i].size());
    for (unsigned i = 0; i < 3; i++) if (s[i]->got.size()) MC_CHECK(s[i]->tag == B.link.linkTag(), "svc:tag", "the service was given another tag than the link's");
    MC_CHECK(B.got.empty(), "svc:app", "the application was handed a message for a service");
    A.said.push_back("then"); send(A, "then", true); MC_CHECK(rest(A, B), "svc:rest", "the links did not come to rest"); judge_said(A, B);
  }
  MC_CHECK(quiet_blocks() <= base, "leak", "%lld blocks remain", (long long) (quiet_blocks() - base));
}

int main(int argc, char** argv) {
  const bool T = mc::thorough; std::vector<mc::Config> c;
  c.emplace_back("logs", [=]() { plat::reset(); logs(T ? 9 : 7); }, 3, "every history of 7 (thorough 9) writes, sends, polls and deliveries from a live session, five settings of who allows and who reads");
  c.emplace_back("texts", []() { plat::reset(); texts(); }, 2, "texts of every byte, of 1 to 1900 bytes, in one to three fragments, acknowledged or not");
  c.emplace_back("refused", []() { plat::reset(); refused(); }, 1, "before a session, after it, with nothing to write, and with the queue full");
  c.emplace_back("identities", [=]() { plat::reset(); identities(T ? 10 : 8); }, 3, "every history of 8 (thorough 10) changes of identity, enquiries from either side, and one new session");
  c.emplace_back("services", []() { plat::reset(); services(); }, 2, "0 to 3 services, one or two messages for slots 0, 1, 2 and 15, ignored, acknowledged and replied to");
  return mc::main(argc, argv, "C49", c, {"nothing is lost on the stream (C22, C23); texts hold no null byte and fit the other end's message size", "the build option that lets values hold identities (CONFIG_C3P_IDENTITY_SUPPORT) is on for this check",
    "an end asks for the other's identity through the link's console command, which is the only public way", "identities are UUIDs, the only kind the library can read back"});
}
