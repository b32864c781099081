/* C50: whatever a counterparty says in well-formed frames, the link stays whole. */
#include "../mc/mc.h"
#include "m2m.h"
#include "hdrref.h"
#include "cborval.h"
#include "Identity/IdentityUUID.h"
#include <memory>
using namespace m2m;

static const uint32_t TIMEOUT = 20, KEEPALIVE = 50, MTU = 512;
static M2MLinkOpts opts(bool logs) { return M2MLinkOpts(TIMEOUT, KEEPALIVE, MTU, TCode::CBOR, logs ? M2MLINK_FLAG_ALLOW_LOG_WRITE : 0); }
struct End : public Peer {
  S log; char name; std::vector<S> said;
  End(bool logs, int which) : Peer(opts(logs), which), name(which ? 'B' : 'A') {}
  int8_t poll() { turn(); StringBuilder l; const int8_t r = link.poll(&l); log += bytes_of(l); return r; }
};
static unsigned rest(End& a, End& b, unsigned rounds = 400) {
  for (unsigned i = 0; i < rounds; i++) { a.poll(); b.poll(); deliver(a, b); deliver(b, a); plat::advance_ms(1); if (idle(a, b)) { a.poll(); b.poll(); if (idle(a, b)) return i + 1; } }
  return 0;
}
static bool up(End& a, End& b) { return rest(a, b) && a.link.currentState() == M2MLinkState::LIVE && b.link.currentState() == M2MLinkState::LIVE; }

/* ---- What may be said ---- */
struct Value { const char* name; S bytes; };
static S vendor(unsigned tc, const S& content) { return ref::head(6, val::VENDOR | tc) + content; }
static const std::vector<Value>& values() {
  static const std::vector<Value> v = [] {
    std::vector<Value> r; auto add = [&](const char* n, const S& b) { r.push_back(Value{ n, b }); };
    add("nothing", ""); add("0", ref::integer(0)); add("24", ref::integer(24)); add("300", ref::integer(300)); add("70000", ref::integer(70000)); add("2^32-1", ref::integer(0xFFFFFFFFLL)); add("2^40", ref::integer(1LL << 40));
    add("2^64-1", ref::head(0, ~0ULL, 8)); add("-1", ref::integer(-1)); add("-200", ref::integer(-200)); add("-40000", ref::integer(-40000)); add("-2^40", ref::integer(-(1LL << 40))); add("-2^64", ref::head(1, ~0ULL, 8));
    add("\"\"", ref::text("")); add("\"hi\"", ref::text("hi")); add("text with formats", ref::text("%s%n%x%s")); add("text of 300", ref::text(S(300, 'z'))); add("text with a null", ref::text(S("a\0b", 3))); add("text of -1", S("\x7b\xff\xff\xff\xff\xff\xff\xff\xff", 9));
    add("text cut short", S("\x65" "ab")); add("text of 4 GB", S("\x7a\xff\xff\xff\xff" "abc", 8)); add("bytes", ref::bytes("bin")); add("no bytes", ref::bytes("")); add("bytes cut short", S("\x58\xff" "abc", 5)); add("300 bytes", ref::bytes(S(300, '\1')));
    add("[]", S("\x80")); add("[1,2]", S("\x82\1\2")); add("array cut short", S("\x85\1")); add("array of 2^32-1", S("\x9a\xff\xff\xff\xff\1", 6)); add("nest", S(60, '\x81') + S("\1")); add("endless", S("\x9f\1\xff")); add("open text", S("\x7f\x61" "a\xff", 4));
    add("{}", S("\xa0")); add("{\"b\":1}", S("\xa1\x61" "b\1")); add("{\"b\":\"x\"}", S("\xa1\x61" "b\x61x")); add("{1:2}", S("\xa1\1\2")); add("map cut short", S("\xa2\x61" "b\1"));
    add("true", S("\xf5")); add("null", S("\xf6")); add("undefined", S("\xf7")); add("half", S("\xf9\x3c\0", 3)); add("float", ref::f32(1.5f)); add("double", ref::f64(-2.25)); add("simple 200", S("\xf8\xc8", 2)); add("break", S("\xff"));
    add("a date", S("\xc1\x1a\x5f\0\0\0", 6)); add("typed array of floats", ref::head(6, 85) + ref::bytes(S(12, '\1'))); add("typed array of bytes", ref::head(6, 64) + ref::bytes("abc"));
    static char names[16][4][40]; unsigned n = 0;
    for (unsigned tc : { 0x38u, 0x39u, 0x3Au, 0x3Fu, 0x30u, 0x51u, 0x60u, 0x63u, 0xE0u, 0xE1u, 0xE2u, 0xE4u, 0xE6u, 0xE9u, 0x04u, 0xFFu }) {
      const S content[4] = { ref::bytes(S("\0\x10" "0123456789abcdef", 18)), S("\xa1\x61" "b\1"), ref::head(6, 85) + ref::bytes(S(12, '\2')), S("\1") };
      static const char* CN[4] = { "bytes", "map", "typed array", "number" };
      for (unsigned c = 0; c < 4; c++) { snprintf(names[n][c], 40, "vendor %02x of %s", tc, CN[c]); add(names[n][c], vendor(tc, content[c])); }
      n++;
    }
    return r;
  }();
  return v;
}
struct Said { S payload, what; S text; bool log_text = false; S log; };
static S brief(const S& s) { return s.size() > 24 ? mc::hex(s.substr(0, 24)) + ".." : mc::hex(s); }
static const char* KEYS[] = { "b", "ident", "t", "x" };
static const unsigned CODES[] = { 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0E, 0x0F, 0x10, 0x11, 0x1F };
static S frame(unsigned code, unsigned low, uint32_t id, const S& pay) { hdr::Ref r; r.code = code; r.low = low; r.id = id; r.payload = pay.size(); hdr::fit(r); return hdr::write(r) + pay; }

struct Scene {
  const bool allow; const int answer; std::unique_ptr<IdentityUUID> me; End A, B; bool spoken = false, over = false;
  Scene(bool allow_, int answer_, bool identity) : allow(allow_), answer(answer_), A(true, 0), B(allow_, 1) {
    plat::set_ms(100000); B.answer = answer;
    if (identity) { me.reset(new IdentityUUID("B", "01234567-89ab-cdef-0123-456789abcdef")); B.link.localIdentity(me.get()); }
    MC_CHECK(up(A, B), "establish", "two ends did not establish a session");
  }
  /* One frame arrives at B. */
  void hear(unsigned code, unsigned low, uint32_t id, const S& pay) {
    const bool asks = low & 1, reply = low & 2; const size_t got = B.got.size(); const S before = B.out.fifo, log = B.log;
    const M2MLinkState was = B.link.currentState();
    feed(B, frame(code, low, id, pay)); for (int i = 0; i < 4; i++) B.poll();
    mc::steps(1);
    const S sent = B.out.fifo.substr(before.size()); B.out.fifo = before;
    if (code == 0x05) over = true;   // hangup
    if (was != M2MLinkState::LIVE || over || code == 1) return;
    MC_CHECK(B.link.currentState() == M2MLinkState::LIVE, "state", "the link went from LIVE to %s", state_name(B.link.currentState()));
    MC_CHECK(B.got.size() == got + (code == 0x0F ? 1 : 0), "handed", "the application was handed %zu messages", B.got.size() - got);
    if (B.got.size() > got) {
      const Seen& s = B.got.back();
      MC_CHECK(s.reply == reply && s.expects == asks && s.id == id, "seen", "the application saw %s", show(s).c_str());
      B.got.pop_back();
    }
    if (code != 0x08 || reply || !allow) MC_CHECK(B.log == log, "log", "\"%s\" was logged", B.log.c_str());
    /* What is said back: to a request, at most one reply under its id; to anything else, nothing. */
    size_t at = 0; unsigned replies = 0;
    while (at < sent.size()) {
      hdr::Ref r; MC_CHECK(hdr::read(sent.substr(at), r) == 0 && hdr::proper(r) && at + r.total <= sent.size(), "reply:frame", "bytes that are no message: %s", mc::hex(sent.substr(at)).c_str());
      at += r.total; if (r.code == 1) continue;
      replies++;
      MC_CHECK((r.low & 2) && r.id == id && r.code == code, "reply:what", "code %u flags %u id %x was sent back", r.code, r.low, r.id);
    }
    const bool own = code == 0x02 || code == 0x09 || code == 0x08;
    const int want = code == 0x0F ? (asks && answer) : own && asks && !reply;
    if (!(reply && asks)) MC_CHECK((int) replies == want, "reply:count", "%u replies were sent, not %d", replies, want);
    else MC_CHECK(replies <= 1, "reply:count", "%u replies were sent", replies);
  }
  /* The two still talk, or can after starting over. */
  void judge() {
    if (over) {
      A.link.hangup(false); B.link.hangup(false); rest(A, B); A.poll(); B.poll();
      MC_CHECK(A.link.reset() == 0 && B.link.reset() == 0, "reset", "reset() was refused after a hangup");
      for (int i = 0; i < 4; i++) { A.poll(); B.poll(); } A.out.fifo.clear(); B.out.fifo.clear();
    }
    MC_CHECK(up(A, B), "usable", "no session: %s and %s", state_name(A.link.currentState()), state_name(B.link.currentState()));
    A.got.clear(); B.got.clear();
    int r = send(A, "still", true); MC_CHECK(r >= 0, "usable:send", "send() returned %d", r); rest(A, B);
    r = send(B, "here", true); MC_CHECK(r >= 0, "usable:send", "send() returned %d", r); rest(A, B);
    auto plain = [](End& e) { S o; for (auto& m : e.got) if (!m.reply) o += m.text + ";"; return o; };
    MC_CHECK(plain(B) == "still;" && plain(A) == "here;", "usable:got", "B was handed \"%s\" and A \"%s\"", plain(B).c_str(), plain(A).c_str());
  }
};
static const char* flags_text(unsigned low) { return low == 0 ? "" : low == 1 ? ", expecting a reply" : low == 2 ? ", a reply" : ", a reply expecting a reply"; }

/* What a log message with this value must leave in the log: 1 that text, 0 nothing, -1 not judged. */
static int log_text(const S& v, S& text) {
  ref::Head h; if (v.empty() || ref::read_head(v, 0, h) != 1) return -1;
  if (h.major == 3 && h.arg == v.size() - h.len) { text = val::c_text(v.substr(h.len)); return 1; }
  return h.major < 2 || h.major == 4 || h.major == 5 || h.major == 7 ? 0 : -1;
}
static S some_payload(S& what, int& logs, S& text) {
  const unsigned shape = mc::choose(7); if (shape == 6) { what = "no payload"; return S(); }
  const Value& v = values()[mc::choose(values().size())];
  if (shape == 0 || shape == 5) logs = log_text(v.bytes, text);
  if (shape < 4) { what = S("{") + KEYS[shape] + ": " + v.name + "}"; return S("\xa1") + ref::text(KEYS[shape]) + v.bytes; }
  if (shape == 4) { what = v.name; return v.bytes; }
  what = S("{x: 1, b: ") + v.name + ", t: \"y\"}"; return S("\xa3\x61x\1\x61" "b") + v.bytes + S("\x61t\x61y");
}
static void single() {
  const int64_t base = m2m::quiet_blocks();
  {
    const unsigned setting = mc::choose(3); Scene s(setting != 1, setting == 0 ? 1 : 2, setting == 2);
    S what, text; int logs = -1; const unsigned code = CODES[mc::choose(sizeof(CODES) / sizeof(*CODES))]; const S pay = some_payload(what, logs, text);
    for (unsigned low = 0; low < 4 && !s.over; low++) {
      mc::op("code %02x%s, %s (%s)", code, flags_text(low), what.c_str(), brief(pay).c_str());
      const S before = s.B.log;
      s.hear(code, low, low ? 0x4321 + low : 0, pay);
      if (code == 0x08 && low < 2 && s.allow && logs >= 0) {
        const S more = s.B.log.substr(before.size());
        if (logs) MC_CHECK(more.size() && more.find(text) != S::npos && (text.size() < 2 || more.find(text, more.find(text) + 1) == S::npos), "log:text", "\"%s\" was logged for \"%s\"", more.substr(0, 80).c_str(), text.substr(0, 80).c_str());
        else MC_CHECK(more.empty(), "log:no-text", "\"%s\" was logged for a value that is no text", more.c_str());
      }
    }
    s.judge();
  }
  MC_CHECK(m2m::quiet_blocks() <= base, "leak", "%lld blocks remain", (long long) (m2m::quiet_blocks() - base));
}
static void pairs(unsigned n) {
  const int64_t base = m2m::quiet_blocks();
  {
    Scene s(true, 2, false);
    static const char* PAY[] = { "", "\xa1\x61" "b\x62hi", "\xa1\x61" "b\1", "\x81", "\xa1\x65ident\xda\0\0\xe2\1" };
    for (unsigned i = 0; i < n; i++) {
      const unsigned code = CODES[mc::choose(sizeof(CODES) / sizeof(*CODES))], low = mc::choose(4), p = mc::choose(n > 2 ? 2 : 4); const bool same = i && mc::flip();
      mc::op("code %02x%s, payload %u%s", code, flags_text(low), p, same ? ", under the id before" : "");
      s.hear(code, low, low ? (same ? 0x77 : 0x77 + i) : 0, PAY[p]);
    }
    s.judge();
  }
  MC_CHECK(m2m::quiet_blocks() <= base, "leak", "%lld blocks remain", (long long) (m2m::quiet_blocks() - base));
}
static void garbage() {
  const int64_t base = m2m::quiet_blocks();
  {
    Scene s(true, 1, false); static const unsigned CODE[] = { 0x09, 0x08, 0x0F };
    const unsigned code = CODE[mc::choose(3)], a = mc::choose(256), tail = mc::choose(3);
    for (unsigned b = 0; b < 256; b++) {
      const S two = S() + (char) a + (char) b, pay = tail == 0 ? two : tail == 1 ? S("\xa1\x61" "b") + two : two + S("\x61" "b\x61x\xff\0", 6);
      if (b % 16 == 0) mc::op("code %02x, %s and the 15 following", code, mc::hex(pay).c_str());
      s.hear(code, 1, 0x100 + b, pay);
    }
    s.judge();
  }
  MC_CHECK(m2m::quiet_blocks() <= base, "leak", "%lld blocks remain", (long long) (m2m::quiet_blocks() - base));
}
/* A frame at any point of the establishment. */
static void stages() {
  const int64_t base = m2m::quiet_blocks();
  {
    plat::set_ms(100000); End A(true, 0), B(true, 1); const unsigned stage = mc::choose(16), code = CODES[mc::choose(sizeof(CODES) / sizeof(*CODES))], low = mc::choose(4), p = mc::choose(4);
    static const char* PAY[] = { "", "\xa1\x61" "b\x62hi", "\xa1\x61" "b\1", "\x81" };
    for (unsigned i = 0; i < stage; i++) { switch (i % 4) { case 0: A.poll(); break; case 1: deliver(A, B); break; case 2: B.poll(); break; case 3: deliver(B, A); plat::advance_ms(1); break; } }
    mc::op("after %u quarter rounds (%s): code %02x%s, payload %u", stage, state_name(B.link.currentState()), code, flags_text(low), p);
    feed(B, frame(code, low, low ? 0x77 : 0, PAY[p])); mc::steps(1);
    rest(A, B, 300);
    if (A.link.currentState() != M2MLinkState::LIVE || B.link.currentState() != M2MLinkState::LIVE) {
      MC_CHECK(code == 0x05, "stage:live", "the session was not established: %s and %s", state_name(A.link.currentState()), state_name(B.link.currentState()));
      A.link.hangup(false); B.link.hangup(false); rest(A, B); A.poll(); B.poll(); A.link.reset(); B.link.reset(); for (int i = 0; i < 4; i++) { A.poll(); B.poll(); } A.out.fifo.clear(); B.out.fifo.clear();
      MC_CHECK(up(A, B), "stage:again", "no session after starting over");
    }
    A.got.clear(); B.got.clear(); send(A, "still", true); rest(A, B);
    MC_CHECK(B.got.size() == 1 && B.got[0].text == "still", "stage:got", "B was handed %zu messages", B.got.size());
  }
  MC_CHECK(m2m::quiet_blocks() <= base, "leak", "%lld blocks remain", (long long) (m2m::quiet_blocks() - base));
}

int main(int argc, char** argv) {
  const bool T = mc::thorough; values(); std::vector<mc::Config> c;
  c.emplace_back("single", []() { plat::reset(); single(); }, 3, "one of 14 codes with each of four flag settings, over 660 payloads, against three kinds of end");
  c.emplace_back("pairs", [=]() { plat::reset(); pairs(T ? 3 : 2); }, 3, "every sequence of 2 frames of 14 codes, four flag settings and four payloads (thorough: 3 frames, two payloads), under the same id or another");
  c.emplace_back("garbage", []() { plat::reset(); garbage(); }, 3, "log, identity and application messages whose payload is, begins with, or holds as a value any two bytes");
  c.emplace_back("stages", []() { plat::reset(); stages(); }, 2, "a frame of any code, flags and four payloads at each of 16 points of the establishment");
  return mc::main(argc, argv, "C50", c, {"the counterparty's frames are well formed (noise is C22's), and a session it hangs up is over", "values cannot hold identities in this build (C49 judges the other)"});
}
