/* C22: links on a stream with faults. */
#include "../mc/mc.h"
#include "m2m.h"
#include "hdrref.h"
using namespace m2m;

static const uint32_t TIMEOUT = 20, KEEPALIVE = 50, MTU = 256;
static M2MLinkOpts opts() { return M2MLinkOpts(TIMEOUT, KEEPALIVE, MTU, TCode::CBOR, 0); }

/* What happens to the stream, and where. */
enum Kind { DROP, INSERT, REPLACE, FLIP, CUT, TWICE };
struct Fault { int dir; unsigned at; Kind kind; S v; unsigned n = 1; };
static S show(const Fault& f) {
  static const char* K[] = { "dropped", "inserted", "replaced", "flipped", "lost with the 7 behind it", "repeated" };
  char b[128]; snprintf(b, sizeof(b), "byte %u of %s %s %s", f.at, f.dir ? "B>A" : "A>B", K[f.kind], f.v.size() > 24 ? "" : mc::hex(f.v).c_str());
  return b;
}
struct Net {
  Peer& A; Peer& B; std::vector<Fault> faults;
  unsigned seen[2] = { 0, 0 }; S heard[2];              // bytes that went in; what each receiver was really given
  unsigned chunk = 0;
  Net(Peer& a, Peer& b) : A(a), B(b) {}
  void carry(int dir) {
    Peer& from = dir ? B : A; Peer& to = dir ? A : B;
    S in; in.swap(from.out.fifo);
    S out;
    for (char c : in) {
      const unsigned i = seen[dir]++;
      bool keep = true;
      for (auto& f : faults) if (f.dir == dir) {
        if (f.at == i) switch (f.kind) {
          case DROP: keep = false; break;
          case INSERT: out += f.v; break;
          case REPLACE: c = f.v[0]; break;
          case FLIP: c = (char) (c ^ f.v[0]); break;
          case CUT: keep = false; break;
          case TWICE: out += c; break;
        }
        else if (f.kind == CUT && i > f.at && i < f.at + 8) keep = false;
      }
      if (keep) out += c;
    }
    heard[dir] += out;
    if (!chunk) feed(to, out);
    else for (size_t i = 0; i < out.size(); i += chunk) { feed(to, out.substr(i, chunk)); to.poll(); }
  }
  bool quiet() { return idle(A, B); }
  unsigned settle(unsigned rounds) {
    for (unsigned i = 0; i < rounds; i++) { A.poll(); B.poll(); carry(0); carry(1); plat::advance_ms(1); if (quiet()) return i + 1; }
    return quiet() ? rounds : 0;
  }
};
/* Everything handed over stands in the stream, framed by an intact header, in this order. */
static void check_framed(const char* who, const std::vector<Seen>& got, const S& heard) {
  size_t at = 0;
  for (auto& m : got) {
    bool found = false;
    for (; at + 4 <= heard.size() && !found; at++) {
      hdr::Ref r; const S rest = heard.substr(at);
      if (hdr::read(rest, r) != 0 || !hdr::proper(r) || r.total > rest.size()) continue;
      if (r.code != 0x0F || r.id != m.id || !!(r.low & 2) != m.reply || !!(r.low & 1) != m.expects) continue;
      const S pay = rest.substr(r.total - r.payload, r.payload);
      if (m.text[0] != '<' && pay.find(m.text.c_str()) == S::npos) continue;
      found = true; at += r.total - 1;
    }
    MC_CHECK(found, "link:framing", "%s was handed %s, which the stream it heard does not frame", who, m2m::show(m).c_str());
  }
}
/* Clean traffic brings the link back: probes are sent until one arrives, then everything must. */
static void check_recovery(Net& n) {
  const unsigned fa = n.faults.empty() ? 0 : n.faults[0].at; (void) fa;
  bool back = false;
  unsigned i = 0;
  for (; i < 24 && !back; i++) {
    const size_t a0 = n.A.got.size(), b0 = n.B.got.size();
    const S t = "probe" + std::to_string(i);
    const int ra = send(n.A, "A" + t), rb = send(n.B, "B" + t);
    const unsigned s = n.settle(i < 2 ? 200 : 100);
    bool ga = false, gb = false;
    for (size_t k = b0; k < n.B.got.size(); k++) if (n.B.got[k].text == "A" + t) gb = true;
    for (size_t k = a0; k < n.A.got.size(); k++) if (n.A.got[k].text == "B" + t) ga = true;
    back = ra >= 0 && rb >= 0 && ga && gb && s;
  }
  MC_CHECK(back, "link:recovery", "24 rounds of clean traffic did not restore the link: A is %s, B is %s", state_name(n.A.link.currentState()), state_name(n.B.link.currentState()));
  mc::op("back in service after %u probes", i);
  n.A.got.clear(); n.B.got.clear();
  std::vector<S> ta, tb;
  for (int k = 0; k < 3; k++) { ta.push_back("Alast" + std::to_string(k)); tb.push_back("Blast" + std::to_string(k)); MC_CHECK(send(n.A, ta.back(), k == 1) >= 0 && send(n.B, tb.back(), k == 2) >= 0, "link:recovery-send", "a send was refused after recovery"); }
  MC_CHECK(n.settle(300), "link:recovery-idle", "the link does not come to rest after recovery: A is %s, B is %s", state_name(n.A.link.currentState()), state_name(n.B.link.currentState()));
  std::vector<S> ga, gb; for (auto& m : n.A.got) if (!m.reply) ga.push_back(m.text); for (auto& m : n.B.got) if (!m.reply) gb.push_back(m.text);
  MC_CHECK(ga == tb && gb == ta, "link:recovery-delivery", "after recovery, 3 messages each way: %zu and %zu were handed over", gb.size(), ga.size());
  MC_CHECK(n.A.link.isConnected() && n.B.link.isConnected(), "link:recovery-connected", "A connected %d, B connected %d", n.A.link.isConnected(), n.B.link.isConnected());
}
static const unsigned SPAN = 130;       // how many bytes of each direction are subject to faults
static unsigned bytes_of_session[2];
/* The session every fault is tried on: establishment, then messages both ways. */
static void session(Net& n) {
  plat::set_ms(100000);
  n.settle(60);
  send(n.A, "one"); send(n.A, "two", true); send(n.B, "three"); 
  n.settle(40);
  send(n.B, "four", true); send(n.A, S(30, 'f')); send(n.A, "six");
  n.settle(40);
}
static void run(const std::vector<Fault>& f, unsigned chunk) {
  const int64_t base = quiet_blocks();
  {
    Peer A(opts(), 0), B(opts(), 1);
    Net n(A, B); n.faults = f; n.chunk = chunk;
    session(n);
    // Up to here the faults. A fault that has not been reached has no effect.
    n.faults.clear();
    n.settle(300);
    check_framed("B", B.got, n.heard[0]); check_framed("A", A.got, n.heard[1]);
    check_recovery(n);
  }
  const int64_t left = quiet_blocks() - base - 0;
  MC_CHECK(left <= 0, "link:fault-leak", "%lld blocks remain", (long long) left);
}
static Fault any(bool rich) {
  Fault f; f.dir = mc::choose(2);
  f.at = mc::choose(bytes_of_session[f.dir]);
  static const std::vector<int> V = { 0x00, 0x01, 0x0F, 0x10, 0x14, 0xFF };
  if (rich) {
    f.kind = (Kind) mc::choose(6);
    if (f.kind == INSERT || f.kind == REPLACE) f.v = S(1, (char) mc::pick(V));
    if (f.kind == FLIP) f.v = S(1, (char) (1 << mc::choose(8)));
  }
  else {
    f.kind = (Kind) mc::choose(3);
    if (f.kind == INSERT) f.v = S(1, 0x01);
    if (f.kind == REPLACE) { f.kind = FLIP; f.v = S(1, 0x01); }
  }
  return f;
}
static void single() {
  std::vector<Fault> f; 
  { f.push_back(any(true)); const unsigned c[] = { 0, 1, 4 }; const unsigned ch = mc::pick(c); mc::op("%s, delivered in %s", show(f[0]).c_str(), ch == 0 ? "whole buffers" : ch == 1 ? "single bytes" : "fours"); run(f, ch); }
}
static void pairs() {
  std::vector<Fault> f; f.push_back(any(false));
  Fault g; g.dir = mc::choose(2);
  const unsigned lo = g.dir == f[0].dir ? f[0].at + 1 : 0;
  if (lo >= bytes_of_session[g.dir]) throw mc::Prune();
  if (mc::thorough) g.at = lo + mc::choose(bytes_of_session[g.dir] - lo);
  else { g.at = lo + 9 * mc::choose((bytes_of_session[g.dir] - lo + 8) / 9); }
  g.kind = (Kind) mc::choose(3);
  if (g.kind == INSERT) g.v = S(1, 0x01);
  if (g.kind == REPLACE) { g.kind = FLIP; g.v = S(1, 0x01); }
  f.push_back(g);
  mc::op("%s; %s", show(f[0]).c_str(), show(g).c_str());
  run(f, 0);
}
/* Whole frames of every kind, and noise of every alignment, dropped into the stream. */
static S frame(unsigned code, unsigned low, uint32_t id, const S& pay) { hdr::Ref r; r.code = code; r.low = low; r.id = id; r.payload = (uint32_t) pay.size(); hdr::fit(r); return hdr::write(r) + pay; }
static void foreign() {
  static const std::vector<S> PAY = { "", S("\xa0", 1), S("\xa1\x61\x62\x63xyz", 7), S("\xa1\x61\x74\x61X", 5), S("\xa1\x65ident\x01", 8), S("\xff\xff", 2), S("\xa1", 1), S("\x83\x01\x02\x03", 4), S(8, '\0') };
  const unsigned code = 1 + mc::choose(0x1F), low = mc::choose(4);
  if (code == 0x0A) throw mc::Prune();
  const uint32_t id = low ? 0x1234 : mc::choose(2) * 0x55;
  const S p = mc::pick(PAY);
  const S fr = frame(code, low, id, p);
  Fault f; f.dir = 0; f.kind = INSERT; f.v = fr; 
  f.at = mc::pick(std::vector<unsigned>{ 0, bytes_of_session[0] / 3, bytes_of_session[0] / 2, bytes_of_session[0] - 1 });
  mc::op("inserted: %s", mc::hex(fr).c_str());
  run({ f }, mc::flip() ? 1 : 0);
}
/* A frame at rest: between messages, on an established link, on its own. */
static void at_rest() {
  static const std::vector<S> PAY = { "", S("\xa0", 1), S("\xa1\x61\x62\x63xyz", 7), S("\xa1\x61\x74\x61X", 5), S("\xa1\x65ident\x01", 8), S("\xa1\x65ident\xd9\x64\x00\x41\x00", 12), S("\xff\xff", 2), S("\xa1", 1), S("\x83\x01\x02\x03", 4), S(8, '\0'), S(40, 'a') };
  const int64_t base = quiet_blocks();
  {
    const unsigned code = 1 + mc::choose(0x1F), low = mc::choose(4);
    if (code == 0x0A) throw mc::Prune();
    const uint32_t id = low ? 0x1234 : mc::choose(2) * 0x55;
    M2MLinkOpts o(TIMEOUT, KEEPALIVE, MTU, TCode::CBOR, mc::flip() ? M2MLINK_FLAG_ALLOW_LOG_WRITE : 0);
    Peer A(o, 0), B(o, 1);
    Net n(A, B);
    plat::set_ms(100000);
    MC_CHECK(n.settle(60), "link:connect", "no link");
    const unsigned k = 1 + mc::choose(4);
    const S fr = frame(code, low, id, mc::pick(PAY));
    mc::op("%u of %s", k, mc::hex(fr).c_str());
    for (unsigned i = 0; i < k; i++) { feed(B, fr); n.heard[0] += fr; if (k & 1) { StringBuilder log; B.turn(); B.link.poll(&log); n.carry(0); n.carry(1); } }
    n.settle(300);
    check_framed("B", B.got, n.heard[0]); check_framed("A", A.got, n.heard[1]);
    if (code == 5) {      // a HANGUP was asked for: then it hangs up, and starts again when told to
      n.settle(300);
      for (Peer* p : { &A, &B }) { p->link.hangup(false); p->poll(); p->link.reset(); }
      n.settle(300);
    }
    check_recovery(n);
  }
  const int64_t left = quiet_blocks() - base;
  MC_CHECK(left <= 0, "link:foreign-leak", "%lld blocks remain", (long long) left);
}
/* Noise: short strings over the bytes that mean something to the framing, at rest. */
static void noise() {
  static const u8 W[] = { 0x01, 0x10, 0x11, 0x12, 0x04, 0x16, 0x17, 0x00, 0x0F, 0xFF };
  const int64_t base = quiet_blocks();
  {
    const unsigned n = 1 + mc::choose(mc::thorough ? 6 : 5);
    S s; for (unsigned i = 0; i < n; i++) s += (char) W[mc::choose(10)];
    Peer A(opts(), 0), B(opts(), 1);
    Net net(A, B);
    net.chunk = (n >= 5 && !mc::thorough) ? 1 : mc::choose(2);
    plat::set_ms(100000);
    MC_CHECK(net.settle(60), "link:connect", "no link");
    mc::op("noise %s, %s", mc::hex(s).c_str(), net.chunk ? "stream in single bytes" : "stream in whole buffers");
    feed(B, s); net.heard[0] += s;
    if (net.chunk) B.poll();
    check_recovery(net);
  }
  const int64_t left = quiet_blocks() - base;
  MC_CHECK(left <= 0, "link:noise-leak", "%lld blocks remain", (long long) left);
}
int main(int argc, char** argv) {
  mc::prime = [] { Peer A(opts(), 0), B(opts(), 1); Net n(A, B); session(n); for (int d = 0; d < 2; d++) bytes_of_session[d] = n.seen[d]; n.settle(200); check_recovery(n); m2m::key(A); };
  std::vector<mc::Config> c;
  c.emplace_back("single", single, 2, "every drop, repetition, loss of 8, bit flip, replacement and insertion of 6 values at every byte of either direction of a session, from establishment on, in three fragmentations");
  c.emplace_back("pairs", pairs, 2, "a drop, insertion or flip at every byte, and a second one at every 9th (thorough: every) byte after it");
  c.emplace_back("foreign", foreign, 2, "a frame of every code and flags, of 9 payloads, at 4 places in the session");
  c.emplace_back("at-rest", at_rest, 2, "1..4 frames of every code and flags, of 11 payloads, on an idle link");
  c.emplace_back("noise", noise, 2, "every string of up to 5 (thorough 6) of the 10 bytes that mean most to the framing, on an idle link, in two fragmentations (quick, 5 bytes: one)");
  return mc::main(argc, argv, "C22", c, {"polls are fair and time passes", "payloads carry no checksum, so damage inside a payload is delivered as it is"});
}
