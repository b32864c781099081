/* C25: buffer pipes conserve every byte. */
#include "cborval.h"
#include "Pipes/BufferAccepter/BufferAccepter.h"
#include "Pipes/BufferAccepter/LineCoDec/LineCoDec.h"
#include "Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.h"

using val::S;

/* An end of the pipe: how much it announces, and how much of that it takes, is chosen anew at each offer. */
struct Valve : public BufferAccepter {
  S got; int room = 0, takes = 0; S bad;
  void set(unsigned most) { room = (int) mc::choose(most + 1); takes = room ? (int) mc::choose((uint32_t) room + 1) : 0; }
  int32_t bufferAvailable() { return room; }
  int8_t pushBuffer(StringBuilder* b) {
    const int n = b->length();
    if (n > room) bad = "it was offered " + val::num((unsigned) n) + " bytes with room for " + val::num((unsigned) room);
    const int t = n < takes ? n : takes;
    if (t == 0) return -1;
    got += S((char*) b->string(), (size_t) t);
    b->cull(t); room -= t; takes -= t;
    return t == n ? 1 : 0;
  }
};
static S peek(StringBuilder& b) { S r((size_t) b.length(), 0); if (!r.empty()) b.copyToBuffer((uint8_t*) &r[0], b.length(), 0); return r; }     // (without joining its pieces)
static S CONTENT;
static const char* lay(StringBuilder* b, const S& s, unsigned how) {       // the same bytes, in one to three pieces
  size_t cut[4] = {0, s.size(), s.size(), s.size()};
  if (how == 1) cut[1] = s.size() / 2; else if (how == 2) { cut[1] = 1; cut[2] = s.size() - 1; }
  for (int i = 0; i < 3; i++) if (cut[i + 1] > cut[i]) b->concat((uint8_t*) s.data() + cut[i], (int) (cut[i + 1] - cut[i]));
  return how == 0 ? "one piece" : how == 1 ? "two pieces" : "three pieces";
}

struct Run {
  S offered;                       // everything ever offered first
  size_t taken = 0;                // how much of it has been claimed
  StringBuilder line;
  /* One offer of what is left plus n more bytes. */
  void offer(BufferAccepter* p, unsigned n, const char* what) {
    const S left = offered.substr(taken), more = CONTENT.substr(offered.size(), n);
    MC_CHECK(peek(line) == left, "rest", "%s: the caller is left with something else than the bytes not taken", what);
    lay(&line, more, mc::choose(more.size() > 2 ? 3 : more.size() == 2 ? 2 : 1)); offered += more;
    const int before = line.length(); const int r = p->pushBuffer(&line); const int took = before - line.length();
    MC_CHECK(took >= 0, "grew", "%s: the caller's buffer grew from %d to %d bytes", what, before, line.length());
    taken += (size_t) took;
    MC_CHECK(peek(line) == offered.substr(taken), "rest", "%s: taking %d of %d bytes left other bytes than those behind them", what, took, before);
    const int w = before == 0 ? -1 : took == before ? 1 : took ? 0 : -1;
    MC_CHECK(r == w, "result", "%s: taking %d of %d bytes returned %d", what, took, before, r);
    mc::steps(1);
  }
  void arrived(const S& got, bool exact, const char* what) {
    MC_CHECK(got == offered.substr(0, got.size()), "stream", "%s received %s of %s", what, mc::hex(got).c_str(), mc::hex(offered).c_str());
    MC_CHECK(exact ? got.size() == taken : got.size() >= taken, "lost", "%zu bytes were taken, and %s received %zu", taken, what, got.size());
  }
};

enum { STAGES = 6 };
static const char* STAGE[STAGES] = {"sink", "fork", "fork of one", "line codec", "value source", "fork of a fork and a line codec"};
static void chain(unsigned offers, unsigned most, unsigned size) {
  const unsigned st = mc::choose(STAGES); const char* what = STAGE[st];
  static StringBuilderSink* prime = nullptr; (void) prime;
  const int64_t base = quiet_blocks();
  {
    Valve a, b, c; Run run;
    if (st == 0) {
      const int max = (int) mc::choose(most + 2); StringBuilderSink k(max); S got;
      for (unsigned i = 0; i < offers; i++) {
        const unsigned n = mc::choose(size + 1), drain = mc::choose(2);
        mc::op("%u more bytes to the sink of %d", n, max);
        const int had = k.length(), announced = k.bufferAvailable(), before = run.line.length() + (int) n; const size_t t0 = run.taken;
        MC_CHECK(announced == max - had, "room", "a sink of %d with %d in it announces %d", max, had, announced);
        run.offer(&k, n, what);
        const int must = before < announced ? before : announced;
        MC_CHECK((int) (run.taken - t0) == must, "room", "of %d bytes, %zu were taken into room for %d", before, run.taken - t0, announced);
        MC_CHECK(k.length() <= max, "overfull", "a sink of %d holds %d", max, k.length());
        S all = got + S((char*) k.string(), (size_t) k.length());
        run.arrived(all, true, what);
        if (drain) { got = all; k.clear(); }
      }
    }
    else {
      BufferAccepterFork fork(&a, &b), one_l(&a, nullptr), one_r(nullptr, &a);
      LineEndingCoDec lc(&a, (LineTerm) 1); C3PTypePipeSource src(TCode::CBOR, &a);
      LineEndingCoDec inner(&a); BufferAccepterFork fork2(&b, &c), fork3(&inner, &fork2);
      const bool right = st == 2 && mc::flip();
      BufferAccepter* p = st == 1 ? (BufferAccepter*) &fork : st == 2 ? (BufferAccepter*) (right ? &one_r : &one_l) : st == 3 ? (BufferAccepter*) &lc : st == 4 ? (BufferAccepter*) &src : (BufferAccepter*) &fork3;
      for (unsigned i = 0; i < offers; i++) {
        a.set(most); if (st == 1 || st == 5) b.set(most); if (st == 5) c.set(most);
        const unsigned n = mc::choose(size + 1); const size_t t0 = run.taken;
        mc::op("%u more bytes through the %s; room %d/%d/%d, of which %d/%d/%d is used", n, what, a.room, b.room, c.room, a.takes, b.takes, c.takes);
        int w = a.room; if ((st == 1 || st == 5) && b.room < w) w = b.room; if (st == 5 && c.room < w) w = c.room;
        MC_CHECK(p->bufferAvailable() == w, "room", "the %s announces %d: its ends have room for %d, %d and %d", what, p->bufferAvailable(), a.room, b.room, c.room);
        const bool full = a.takes == a.room && (st == 1 || st == 5 ? b.takes == b.room : true) && (st == 5 ? c.takes == c.room : true);
        const int before = run.line.length() + (int) n;
        run.offer(p, n, what);
        MC_CHECK((int) (run.taken - t0) <= w, "overfull", "the %s took %zu bytes with room for %d", what, run.taken - t0, w);
        // where the ends take all they announce, so must the stage
        if (full && st != 5) MC_CHECK((int) (run.taken - t0) == (before < w ? before : w), "idle", "the %s took %zu of %d bytes with room for %d", what, run.taken - t0, before, w);
        const bool forked = st == 1 || st == 5;
        run.arrived(a.got, !forked, what); if (forked) run.arrived(b.got, false, "the right side"); if (st == 5) run.arrived(c.got, false, "the third end");
        if (forked) { size_t m = a.got.size(); if (b.got.size() < m) m = b.got.size(); if (st == 5 && c.got.size() < m) m = c.got.size(); MC_CHECK(run.taken == m, "claim", "the %s claims %zu bytes, but every end has %zu", what, run.taken, m); }
        if (forked) MC_CHECK(a.bad.empty() && b.bad.empty() && c.bad.empty(), "overfull", "%s: %s%s%s", what, a.bad.c_str(), b.bad.c_str(), c.bad.c_str());
        S key = val::num(st) + "/" + val::num(right) + "/" + val::num(run.line.length()) + "/" + val::num(a.got.size() - run.taken) + "/" + val::num(b.got.size() - (forked ? run.taken : 0)) + "/" + val::num(c.got.size() - (st == 5 ? run.taken : 0));
        mc::state(key, offers - 1 - i);
      }
    }
  }
  MC_CHECK(quiet_blocks() == base, "leak", "%lld blocks were not released", (long long) (quiet_blocks() - base));
}
/* Nothing downstream: nothing is taken. */
static void nowhere() {
  BufferAccepterFork fork; LineEndingCoDec lc; C3PTypePipeSource src(TCode::CBOR, nullptr); Run r;
  BufferAccepter* p[] = {&fork, &lc, &src}; const unsigned k = mc::choose(3);
  mc::op("stage %u with nothing behind it", k);
  MC_CHECK(p[k]->bufferAvailable() <= 0, "room", "with nothing behind it, a stage announces %d", p[k]->bufferAvailable());
  r.offer(p[k], 1 + mc::choose(4), "a stage with nothing behind it");
}

int main(int argc, char** argv) {
  const bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  for (int i = 0; i < 64; i++) CONTENT += (char) (i % 7 == 3 ? '\n' : i % 7 == 4 ? '\r' : i == 9 ? 0 : 'a' + i % 26);
  std::vector<mc::Config> c;
  c.push_back({"chain", [=]{ chain(th ? 4 : 3, th ? 4 : 3, 3); }, 3, "3 (4) offers of 0..3 more bytes, in one to three pieces, through each of 6 arrangements of stages; at each, each end announces room for 0..3 (4) bytes and takes any number up to that"});
  c.push_back({"nowhere", nowhere, 1, "every stage with nothing behind it"});
  return mc::main(argc, argv, "C25", c, {
    "the caller offers again what was not taken, followed by anything more", "an end never takes more than it announces", "the line codec is only used without replacing or holding lines back: those features are unfinished"});
}
