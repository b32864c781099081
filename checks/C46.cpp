/* C46: the log keeps every accepted line, whole and in order. */
#include "mc.h"
#include "AbstractPlatform.h"
#include "C3PLogger.h"
#include <algorithm>

typedef std::string S;

/* The far end of the log: how much it takes is chosen anew at each push; it answers as the contract of BufferAccepter says. */
struct Sink : public BufferAccepter {
  S got; unsigned pushes = 0; bool bad = false, greedy = false; unsigned left = 0;
  int32_t bufferAvailable() override { return greedy ? 1000 : (int32_t) left; }
  int8_t pushBuffer(StringBuilder* b) override {
    pushes++;
    const int n = b->length(); if (n == 0) return -1;
    unsigned t;
    if (greedy) t = 3; else switch (t = mc::choose(4)) { default: break; }
    const int take = t == 0 ? 0 : t == 1 ? 1 : t == 2 ? n - 1 : n;
    if (take <= 0) return -1;
    got += S((char*) b->string(), (size_t) take); b->cull(take);
    return take == n ? 1 : 0;
  }
};

static const char* const SEV[] = {"EMERGENCY ", "ALERT     ", "CRITICAL  ", "ERROR     ", "WARNING   ", "NOTICE    ", "INFO      ", "DEBUG     "};
static S sev(unsigned s) { return SEV[s < 7 ? s : 7]; }
static S text(StringBuilder& b) { S r((size_t) b.length(), 0); if (!r.empty()) b.copyToBuffer((uint8_t*) &r[0], b.length(), 0); return r; }

struct Model {
  unsigned wide = 1, flags, limit = 7; bool linked = false;
  S line(unsigned s, const S& tag, const S& msg) {
    S r; char t[16];
    if (flags & 2) { snprintf(t, sizeof(t), "%10u ", plat::now_ms); r += t; }
    if (flags & 1) r += sev(s);
    if (flags & 4) {
      wide = std::max<unsigned>(wide, (unsigned) std::min<size_t>(24, tag.size()));
      const S cut = tag.substr(0, 24); r += S(wide - cut.size(), ' ') + cut + " ";
    }
    return r + msg + "\n";
  }
  S key() const { return S(1, (char) wide) + (char) flags + (char) limit + (char) linked; }
};

static const S LONG = "a-tag-of-twenty-six-chars-";
static const S TAGS[] = {"m", "", "main", LONG.substr(0, 24), LONG};
static const S MSGS[] = {"x", "", "two parts"};
static void put(StringBuilder* b, const S& m) { if (m.size() > 3) { b->concat(m.substr(0, 3).c_str()); b->concat(m.substr(3).c_str()); } else b->concat(m.c_str()); }

/* Histories of lines, settings and sink behaviour: what was delivered and what is still held are together what was logged. */
static void history(unsigned depth, bool formats) {
  static const unsigned F[] = {0, 7, 4}; plat::reset(); plat::set_ms(7);
  const int64_t base = mc::live_blocks();
  {
    Sink sink; Model m; m.flags = formats ? mc::choose(8) : mc::pick(F);
    const bool now = !formats && mc::flip(); C3PLogger log((uint8_t) m.flags, now ? &sink : nullptr); m.linked = now;
    S want, out;      // everything accepted; everything that left the logger
    MC_CHECK(log.verbosity() == 7, "verbosity", "a new log accepts up to %u", log.verbosity());
    for (unsigned i = 0; i < depth; i++) {
      const size_t held = want.size() - out.size() - sink.got.size();
      mc::state(m.key() + want.substr(want.size() - held) + "|" + S(1, (char) held), depth - i);
      const unsigned what = mc::choose(formats ? 3 : 4);
      if (what == 0) {
        const unsigned s = formats ? 3 * mc::choose(3) : (mc::flip() ? 3 : 8); const S& tag = formats ? mc::pick(TAGS) : TAGS[mc::choose(2) * 2]; const S& msg = formats ? mc::pick(MSGS) : MSGS[0];
        StringBuilder b; put(&b, msg); sink.pushes = 0;
        mc::op("print(%u, \"%s\", \"%s\")", s, tag.c_str(), msg.c_str());
        const S was = sink.got; const int r = log.print((uint8_t) s, tag.c_str(), &b);
        if (s > m.limit) {
          MC_CHECK(r != 0, "filter", "a line of severity %u was accepted by a log limited to %u", s, m.limit);
          MC_CHECK(text(b) == msg, "filter:kept", "a line that is not wanted was taken from its owner");
          MC_CHECK(sink.got == was, "filter:passed", "a line that is not wanted was passed on");
        }
        else {
          MC_CHECK(r == 0, "accept", "a line of severity %u was refused by a log limited to %u: %d", s, m.limit, r);
          MC_CHECK(b.length() == 0, "accept:left", "the accepted line is still with its owner");
          want += m.line(s, tag, msg);
        }
      }
      else if (what == 1) {
        if (formats) { const unsigned bit = 1u << mc::choose(3); const bool on = !(m.flags & bit); mc::op("%s %s", bit == 1 ? "severity" : bit == 2 ? "time" : "tag", on ? "on" : "off");
          if (bit == 1) log.printSeverity(on); else if (bit == 2) log.printTime(on); else log.printTag(on); m.flags ^= bit; }
        else { static const uint8_t V[] = {7, 3, 2, 255}; const uint8_t v = mc::pick(V); mc::op("verbosity(%u)", v); log.verbosity(v); m.limit = v; }
      }
      else if (what == 2) {
        StringBuilder b; const unsigned how = mc::choose(2); if (how) b.concat("have");
        mc::op("fetchLog into %s", how ? "a used buffer" : "an empty buffer"); log.fetchLog(&b);
        const S t = text(b); MC_CHECK(t.substr(0, how * 4) == S(how ? "have" : ""), "fetch:clobber", "fetching replaced what was in the buffer");
        MC_CHECK(t.substr(how * 4) == want.substr(out.size() + sink.got.size()), "fetch", "\"%s\" was fetched where \"%s\" was waiting", t.substr(how * 4).c_str(), want.substr(out.size() + sink.got.size()).c_str());
        // What was fetched went before whatever the sink gets from now on; count both as delivered, in that order.
        out += sink.got + t.substr(how * 4); sink.got.clear();
        StringBuilder e; log.fetchLog(&e); MC_CHECK(e.length() == 0, "fetch:twice", "the log was fetched twice"); log.fetchLog(nullptr);
      }
      else { m.linked = mc::flip(); mc::op("setSink(%s)", m.linked ? "sink" : "none"); log.setSink(m.linked ? &sink : nullptr); }
      MC_CHECK(log.printSeverity() == !!(m.flags & 1) && log.printTime() == !!(m.flags & 2) && log.printTag() == !!(m.flags & 4) && log.verbosity() == m.limit, "settings", "a setting is not as it was set");
      const S all = out + sink.got; MC_CHECK(all == want.substr(0, all.size()), "order", "\"%s\" was delivered where \"%s\" was logged", all.c_str(), want.c_str());
      plat::advance_ms(1);
    }
    /* With a sink that takes everything, the next line brings all that was waiting, then itself. */
    if (mc::flip()) {
      sink.greedy = true; log.setSink(&sink); log.verbosity(7); StringBuilder b; b.concat("last"); mc::op("a last line, to a sink that takes everything");
      log.print(0, "m", &b); want += m.line(0, "m", "last");
      MC_CHECK(out + sink.got == want, "flush", "\"%s\" of \"%s\" reached the sink", (out + sink.got).c_str(), want.c_str());
    }
    else { StringBuilder b; mc::op("fetchLog"); log.fetchLog(&b); MC_CHECK(out + sink.got + text(b) == want, "held", "\"%s\" of \"%s\" can be had", (out + sink.got + text(b)).c_str(), want.c_str()); }
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks remain", (long long) (mc::live_blocks() - base));
}

/* Every severity against every limit. */
static void limits() {
  const unsigned lim = mc::choose(256);
  C3PLogger log(1); log.verbosity((uint8_t) lim); S want;
  for (unsigned s = 0; s < 256; s++) {
    StringBuilder b; b.concat("x"); const int r = log.print((uint8_t) s, "t", &b);
    MC_CHECK((r == 0) == (s <= lim), "limit", "severity %u against limit %u returned %d", s, lim, r);
    if (s <= lim) want += sev(s) + "x\n";
  }
  mc::steps(256); mc::op("256 severities against limit %u", lim);
  StringBuilder b; log.fetchLog(&b); MC_CHECK(text(b) == want, "limit:text", "the log has other lines than those accepted");
}

/* Tags of every length: right-justified in a column that is never narrower than any tag before, up to 24. */
static void columns(unsigned depth) {
  C3PLogger log(4); Model m; m.flags = 4; S want;
  for (unsigned i = 0; i < depth; i++) {
    const unsigned n = mc::choose(i == 0 ? 41 : 27); const S tag = i == 1 ? S(n, 'q') : S(n, 'z'); StringBuilder b; b.concat("x"); mc::op("a tag of %u", n);
    log.print(3, tag.c_str(), &b); want += m.line(3, tag, "x");
    StringBuilder o; log.fetchLog(&o); MC_CHECK(text(o) == want, "column", "\"%s\" for \"%s\"", text(o).c_str(), want.c_str()); want.clear();
  }
}

/* The formatting form of c3p_log() hands the platform exactly one rendered line. */
static void variadic() {
  const unsigned s = mc::choose(9), k = mc::choose(4); plat::log.clear(); mc::op("c3p_log(%u, ..., form %u)", s, k);
  S want;
  switch (k) {
    case 0: c3p_log((uint8_t) s, "tag", "plain"); want = "plain"; break;
    case 1: c3p_log((uint8_t) s, "tag", "%d|%u|%s|%c", -5, 4000000000u, "str", '!'); want = "-5|4000000000|str|!"; break;
    case 2: c3p_log((uint8_t) s, "tag", "%08x%%", 0xBEEF); want = "0000beef%"; break;
    case 3: { const S big(600, 'b'); c3p_log((uint8_t) s, "tag", "<%s>", big.c_str()); want = "<" + big + ">"; } break;
  }
  MC_CHECK(plat::log.size() == 1, "variadic", "%zu lines reached the platform", plat::log.size());
  MC_CHECK(plat::log[0].find(want) != S::npos && plat::log[0].size() <= want.size() + 8, "variadic:text", "\"%s\" for \"%s\"", plat::log[0].c_str(), want.c_str());
}

int main(int argc, char** argv) {
  const char* t = getenv("VERIF_TIER"); const bool th = t && S(t) == "thorough"; const unsigned d = th ? 7 : 5, f = th ? 4 : 3;
  std::vector<mc::Config> c;
  c.push_back(mc::Config("histories", [d] { history(d, false); }, 3, "up to " + std::to_string(d) + " steps of lines, limits, fetching and (un)linking the sink, which takes nothing, one byte, all but one, or all of each push"));
  c.push_back(mc::Config("formats", [f] { history(f, true); }, 3, "up to " + std::to_string(f) + " lines of three severities, five tags and three messages, under every combination of the three settings"));
  c.push_back(mc::Config("limits", limits, 1, "all 256 severities against all 256 limits"));
  c.push_back(mc::Config("columns", [th] { columns(th ? 3 : 2); }, 1, "sequences of tags of 0 to 26 (first: 40) characters"));
  c.push_back(mc::Config("variadic", variadic, 0, "four kinds of formatting call at nine severities"));
  return mc::main(argc, argv, "C46", c, {"A sink follows the contract of BufferAccepter: it takes from the front, and answers -1, 0 or 1 for nothing, part or all."});
}
