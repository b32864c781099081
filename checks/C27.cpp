/* C27: the console; every short input in every fragmentation, against a model that reads it a byte at a time. */
#include "../mc/mc.h"
#include "Console/C3PConsole.h"
#include <vector>
#include <string>
#include <deque>
#include <memory>
#include <ctype.h>
typedef std::string S;

/* What the handlers were told. */
struct Call { S who; std::vector<S> args; };
static std::vector<Call> calls;
static ParsingConsole* con;
static int handler(const char* who, StringBuilder* out, StringBuilder* args, int ret = 0) {
  Call c; c.who = who; for (int i = 0; i < args->count(); i++) c.args.push_back((const char*) args->position(i));
  calls.push_back(c); out->concatf("@%s@", who); return ret;
}
static int cb_one(StringBuilder* o, StringBuilder* a) { return handler("one", o, a, a->count() > 1 ? -1 : 0); }
static int cb_two(StringBuilder* o, StringBuilder* a) { return handler("two", o, a, 0); }
static int cb_bad(StringBuilder* o, StringBuilder* a) { return handler("bad", o, a, -1); }
static int cb_term(StringBuilder* o, StringBuilder* a) { con->setRXTerminator(con->getRXTerminator() == LineTerm::LF ? LineTerm::CR : LineTerm::LF); return handler("term", o, a, 0); }
static int cb_conf(StringBuilder* o, StringBuilder* a) { handler("conf", o, a); return con->console_handler_conf(o, a); }

struct Def { S name; char sc; unsigned req; S who; consoleCallback cb; int ret_with(size_t n) const { return who == "bad" ? -1 : who == "one" ? (n > 1 ? -1 : 0) : 0; } };
static S upper(S s) { for (char& c : s) c = (char) toupper((unsigned char) c); return s; }
static S trim(const S& s) { size_t a = 0, b = s.size(); while (a < b && isspace((unsigned char) s[a])) a++; while (b > a && isspace((unsigned char) s[b-1])) b--; return s.substr(a, b - a); }

struct Model {
  std::vector<Def> defs; LineTerm term = LineTerm::LF; size_t max_len = 128; unsigned max_history = 8; bool hist_fail = false, help = false, echo = false, prompt = false; S prompt_str;
  S buf; std::deque<S> history; std::vector<Call> calls; S marks, said;     // marks: what handlers and helps write; said: echo and prompts
  S terminator() const { return term == LineTerm::LF ? S("\n") : term == LineTerm::CR ? S("\r") : term == LineTerm::CRLF ? S("\r\n") : S(1, '\0'); }
  const Def* lookup(const S& w) const {
    for (const Def& d : defs) if (upper(d.name) == upper(w)) return &d;
    if (w.size() == 1) for (const Def& d : defs) if (d.sc == w[0]) return &d;
    return nullptr;
  }
  void keep(const S& l) { history.push_back(l); while (history.size() > max_history) history.pop_front(); }
  void line(const S& raw) {
    const S l = trim(raw); if (l.empty()) return;
    std::vector<S> w; S cur; for (char c : l + " ") { if (c == ' ') { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += c; }
    const Def* d = lookup(trim(w[0])); w.erase(w.begin()); bool ok = false;
    if (d && w.size() >= d->req) {
      calls.push_back({d->who, w}); marks += "@" + d->who + "@"; ok = true;
      if (d->who == "term") term = term == LineTerm::LF ? LineTerm::CR : LineTerm::LF;
      if (d->who == "conf") conf(w);
      if (d->ret_with(w.size()) && help) marks += "@help " + d->who + "@";
    }
    else if (d) marks += "@help " + d->who + "@";
    if (ok || hist_fail) keep(l);
    if (prompt && !prompt_str.empty()) said += prompt_str;
  }
  void conf(const std::vector<S>& w) {
    auto num = [&](size_t i) { return i < w.size() ? atoi(w[i].c_str()) : 0; };
    if (w.empty()) return;
    if (w[0] == "echo") { if (w.size() > 1) echo = num(1); }
    else if (w[0] == "help-on-fail") { if (w.size() > 1) help = num(1); }
    else if (w[0] == "prompt") { if (w.size() > 1) prompt = num(1); }
    else if (w[0] == "rxterm") { if (w.size() > 1 && num(1) >= 0 && num(1) <= 3) term = (LineTerm) num(1); }
    else if (w[0] == "history" && w.size() > 1) {
      if (w[1] == "clear") history.clear();
      else if (w[1] == "depth") { if (w.size() > 2) { max_history = num(2); while (history.size() > max_history) history.pop_front(); } }
      else if (w[1] == "logerrors") { if (w.size() > 2) hist_fail = num(2); }
    }
  }
  void drain() { size_t p; while ((p = buf.find(terminator())) != S::npos) { const S l = buf.substr(0, p); buf.erase(0, p + terminator().size()); line(l); } }
  void push(const S& in, bool whole) {                      // whole: no backspaces, so that the limit is well defined
    if (whole) { if (echo) said += in; buf += in; if (buf.size() > max_len) buf.clear(); else drain(); return; }
    for (char c : in) {
      if (c == 8) { if (echo) said += "\x08 \x08"; if (!buf.empty()) buf.pop_back(); }
      else { if (echo) said += c; buf += c; drain(); }
    }
  }
};
static S show(const std::vector<Call>& v) { S s; for (auto& c : v) { s += c.who + "("; for (auto& a : c.args) s += "'" + a + "' "; s += ") "; } return s; }
static S esc(const S& s) { S r; char b[8]; for (unsigned char c : s) { if (c < 32 || c > 126) { snprintf(b, sizeof(b), "\\x%02x", c); r += b; } else r += (char) c; } return r; }
/* The marks among a console's output, in order. */
static S marks_of(const S& out) { S r; for (size_t i = 0; i < out.size(); i++) if (out[i] == '@') { size_t e = out.find('@', i + 1); if (e == S::npos) break; r += out.substr(i, e - i + 1); i = e; } return r; }
static S flat(const S& s) { S r; for (char c : s) if (c != '\n' && c != '\r') r += c; return r; }
static std::deque<S> history_of(ParsingConsole& c) {      // entries may themselves hold line feeds
  StringBuilder sb; c.printHistory(&sb); const S all((const char*) sb.string(), sb.length()); std::deque<S> r;
  size_t p = all.find("\t0:  "); if (p == S::npos) return r;
  for (int i = 1; ; i++) { p = all.find(":  ", p) + 3; const size_t e = all.find("\n\t" + std::to_string(i) + ":  ", p); if (e == S::npos) { r.push_back(all.substr(p, all.size() - p - 1)); return r; } r.push_back(all.substr(p, e - p)); p = e; }
}

struct Rig {
  std::vector<std::unique_ptr<ConsoleCommand>> own;         // outlives the console
  std::unique_ptr<ParsingConsole> c; Model m; S log;
  Rig(unsigned max_len) { c.reset(new ParsingConsole(max_len)); con = c.get(); calls.clear(); m.max_len = max_len; MC_CHECK(c->init() == (max_len < 8 ? -1 : 0), "init", "init() with room for %u", max_len); }
  static const char* intern(const S& s) { static std::deque<S> all; for (auto& t : all) if (t == s) return t.c_str(); all.push_back(s); return all.back().c_str(); }
  void define(const Def& d, int how) {
    const char *p = intern("@help " + d.who + "@"), *name = intern(d.name);
    int r;
    if (how == 0 && !d.sc) r = c->defineCommand(name, "does", p, (uint8_t) d.req, d.cb);
    else if (how <= 1) r = c->defineCommand(name, d.sc, "does", p, (uint8_t) d.req, d.cb);
    else { own.emplace_back(new ConsoleCommand(name, d.sc, "does", p, (uint8_t) d.req, d.cb)); r = how == 2 ? c->defineCommand(own.back().get()) : c->defineCommands(own.back().get(), 1); }
    MC_CHECK(r == 0, "define", "defineCommand(%s) returned %d", d.name.c_str(), r); m.defs.push_back(d);
  }
  void push(const S& in, bool whole = false) {
    mc::op("push '%s'", esc(in).c_str());
    StringBuilder sb; if (in.size()) sb.concat((uint8_t*) in.data(), (int) in.size());
    const int r = c->pushBuffer(&sb);
    m.push(in, whole);
    MC_CHECK(r == 1 && sb.length() == 0, "claim", "pushBuffer() returned %d and left %d bytes", r, sb.length());
    check();
  }
  void fetch() { StringBuilder l; MC_CHECK((int) c->logLength() >= 0, "log-length", "logLength()"); const int n = (int) c->logLength(); c->fetchLog(&l); MC_CHECK(l.length() == n, "log-length", "logLength() was %d, the log %d bytes", n, l.length()); log.append((const char*) l.string(), l.length()); }
  void check() {
    MC_CHECK(show(calls) == show(m.calls), "calls", "handlers called: %s; expected: %s", show(calls).c_str(), show(m.calls).c_str());
    fetch();
    MC_CHECK(marks_of(log) == m.marks, "output", "output '%s' holds %s; expected %s", esc(log).c_str(), marks_of(log).c_str(), m.marks.c_str());
    const std::deque<S> h = history_of(*c);
    MC_CHECK(h == m.history && c->historyDepth() == h.size(), "history", "history of %u entries (says %u), expected %u; last '%s', expected '%s'", (unsigned) h.size(), c->historyDepth(), (unsigned) m.history.size(), h.size() ? h.back().c_str() : "", m.history.size() ? m.history.back().c_str() : "");
  }
  S key() { S k = m.buf + "|" + std::to_string((int) m.term) + std::to_string(m.max_history) + (m.hist_fail ? "f" : "") + (m.help ? "h" : "") + (m.echo ? "e" : "") + (m.prompt ? "p" : ""); for (auto& s : m.history) k += "/" + s; return k; }
};
static void leaks(int64_t base, const char* what) { MC_CHECK(mc::live_blocks() == base, "leak", "%s: %lld blocks allocated", what, (long long) (mc::live_blocks() - base)); }

static const Def ONE = {"a", 'b', 1, "one", cb_one}, TWO = {"ab", '\0', 0, "two", cb_two}, BAD = {"bb", 'a', 0, "bad", cb_bad}, TERM = {"t", '\0', 0, "term", cb_term}, CONF = {"c", '\0', 0, "conf", cb_conf};
static void warm() { static bool done = false; if (done) return; done = true; Rig r(128); r.define(ONE, 1); r.define(TWO, 0); r.define(BAD, 2); r.define(TERM, 0); r.define(CONF, 0); r.push("bb\n"); calls.clear(); calls.shrink_to_fit(); }

/* Typing: a byte at a time, each handed over at once or together with what follows. */
static void typing_body(LineTerm t, bool sw) {
  Rig r(128); r.define(ONE, 1); r.define(sw ? TERM : TWO, 0); r.define(BAD, 2);
  r.m.hist_fail = mc::flip(); r.c->historyFail(r.m.hist_fail); r.m.help = r.m.hist_fail; r.c->printHelpOnFail(r.m.help); r.m.term = t; r.c->setRXTerminator(t); r.c->maxHistoryDepth(2); r.m.max_history = 2;
  MC_CHECK(r.c->getRXTerminator() == t && r.c->maxHistoryDepth() == 2 && r.c->historyFail() == r.m.hist_fail, "settings", "settings do not read back");
  static const char LF[] = {'a', 'b', 'B', ' ', '\n', '\r', 8}, ZB[] = {'a', 'b', 'B', ' ', '\0', '\n', 8}, SW[] = {'a', 't', ' ', '\n', '\r', 8};
  const unsigned N = mc::thorough ? 8 : (t == LineTerm::LF && !sw) ? 6 : 5; S pending, frags;
  for (unsigned i = N; i > 0; i--) {
    const char c = sw ? mc::pick(SW) : t == LineTerm::ZEROBYTE ? mc::pick(ZB) : mc::pick(LF);
    pending += c;
    if (i == 1 || mc::flip()) { r.push(pending); frags = r.m.buf.empty() ? S() : frags + std::to_string(pending.size()); pending.clear(); mc::state(r.key() + "#" + frags, i - 1); }
  }
}
static void typing(LineTerm t, bool sw = false) {
  warm(); const int64_t base = mc::live_blocks(); bool cut = false;
  try { typing_body(t, sw); } catch (mc::Prune&) { cut = true; }
  calls.clear(); calls.shrink_to_fit(); leaks(base, "after typing"); if (cut) throw mc::Prune();
}

/* Whole words, so that longer sessions are reached. */
static void session_body() {
  Rig r(128); r.define(ONE, 1); r.define(TWO, 0); r.define(BAD, 2); r.define(CONF, 3);
  r.m.prompt_str = "$"; r.c->setPromptString("$");
  static const char* const W[] = {"a 1\n", "ab\n", "AB x y z\n", "bb\n", "a\n", "zz\n", "b 1 2\n", "ab\x08", "\n", "\r\n", "bb\nab\nzz", " ",
    "c history clear\n", "c history depth 1\n", "c history depth 0\n", "c history depth 3\n", "c history logerrors 1\n", "c history logerrors 0\n", "c help-on-fail 1\n", "c prompt 1\n", "c prompt 0\n", "c rxterm 1\r", "c rxterm 2\n", "c history\n", "c echo 0\n", "c HISTORY\n"};
  const unsigned N = mc::thorough ? 5 : 4;
  for (unsigned i = N; i > 0; i--) {
    S w = mc::pick(W); if (r.m.term == LineTerm::CR && w.size() && w.back() == '\n') w.back() = '\r';
    r.push(w);
    const bool same = r.c->emitPrompt() == r.m.prompt && r.c->historyFail() == r.m.hist_fail && r.c->printHelpOnFail() == r.m.help && r.c->localEcho() == r.m.echo && r.c->maxHistoryDepth() == r.m.max_history && r.c->getRXTerminator() == r.m.term && !r.c->hasColor();
    MC_CHECK(same, "settings", "settings: prompt %d history of failures %d help %d echo %d depth %u terminator %u; expected %d %d %d %d %u %u", r.c->emitPrompt(), r.c->historyFail(), r.c->printHelpOnFail(), r.c->localEcho(), r.c->maxHistoryDepth(), (unsigned) r.c->getRXTerminator(), r.m.prompt, r.m.hist_fail, r.m.help, r.m.echo, r.m.max_history, (unsigned) r.m.term);
    mc::state(r.key(), i - 1);
  }
}
static void session() { warm(); session_body(); }

/* The limit. */
static void limit() {
  warm(); const unsigned MAX = mc::flip() ? 8 : 11; Rig r(MAX); r.define(ONE, 1); r.define(TWO, 0); r.define(BAD, 2);
  static const char* const W[] = {"a 1", "a", " 23", "\n", "ab\n", "bb\nab\nbb", "abababab", "ababababa", "ababab ab\n", "bb bb bb bb\n", "bb bb bb b\n", "a 45678\n", "a 4567\n"};
  const unsigned N = mc::thorough ? 6 : 5;
  for (unsigned i = N; i > 0; i--) { r.push(mc::pick(W), true); mc::state(r.key() + std::to_string(MAX), i - 1); }
}
/* Which command a word names. */
static void lookup() {
  warm(); static const char* const NAMES[] = {"a", "ab", "A", "aB", "[", "{", "abc", "b"}; static const char SC[] = {'\0', 'a', 'A', 'b', '{'}; static const char* const WHO[] = {"one", "two", "bad"}; static const consoleCallback CB[] = {cb_one, cb_two, cb_bad};
  Rig r(64); const unsigned n = 1 + mc::choose(mc::thorough ? 3 : 2);
  for (unsigned i = 0; i < n; i++) { Def d; d.name = mc::pick(NAMES); d.sc = mc::pick(SC); d.req = mc::choose(2); d.who = WHO[i]; d.cb = CB[i]; mc::op("define %s/%c, %u arguments", d.name.c_str(), d.sc ? d.sc : '-', d.req);
    r.define(d, (int) mc::choose(n > 2 ? 1 : 4)); }
  static const char* const LINES[] = {"a", "b", "A", "B", "ab", "AB", "[", "{", "abc", "aBC", "ac", "abcd", "a x", "{ x y", "b  x"};
  for (auto l : LINES) r.push(S(l) + "\n");
  StringBuilder all; r.c->printHelp(&all); const S text((const char*) all.string(), all.length()); size_t p = 0;
  for (auto& d : r.m.defs) { p = text.find("\n" + d.name + " ", p); MC_CHECK(p != S::npos, "help", "command '%s' is not in the help, or out of order:\n%s", d.name.c_str(), text.c_str()); p++; }
  for (auto l : LINES) if (!strchr(l, ' ')) { StringBuilder h; char w[8]; strcpy(w, l); r.c->printHelp(&h, w); const Def* d = r.m.lookup(l); const S t((const char*) h.string(), h.length());
    MC_CHECK(marks_of(t) == (d ? "@help " + d->who + "@" : S()), "help", "help for '%s': %s", l, t.c_str()); }
}
/* What is said downstream, whatever the downstream answers. */
struct Down : BufferAccepter {
  S got; int answer = 1; int8_t pushBuffer(StringBuilder* b) override { if (answer == 1) { got.append((const char*) b->string(), b->length()); b->clear(); } else if (answer == 0) { got.append((const char*) b->string(), b->length() / 2); b->cull(b->length() / 2); } return (int8_t) answer; }
  int32_t bufferAvailable() override { return 77; }
};
static void relay() {
  warm(); Rig r(64); MC_CHECK(r.c->bufferAvailable() == -1, "available", "no downstream, but room for %d", r.c->bufferAvailable()); Def q = TWO; r.define(q, 0); Def b = BAD; r.define(b, 1); Down d; r.c->setEfferant(&d); MC_CHECK(r.c->bufferAvailable() == 77, "available", "room for %d", r.c->bufferAvailable());
  r.m.echo = mc::flip(); r.c->localEcho(r.m.echo); r.m.prompt = mc::flip(); r.c->emitPrompt(r.m.prompt); r.m.prompt_str = "$ "; r.c->setPromptString("$ ");
  static const char* const W[] = {"ab\n", "a", "b\n", "\x08", "bb\x08" "b\n", "ab\nbb\na", "(note)", "(prompt)", "(fetch)"};
  S expected, fetched; const unsigned N = mc::thorough ? 5 : 4;
  auto settle = [&](const S& s) { expected += s; };
  for (unsigned i = 0; i < N; i++) {
    const S w = mc::pick(W); d.answer = mc::flip() ? 1 : -1; const S before = d.got; mc::op("'%s' with the downstream answering %d", esc(w).c_str(), d.answer);
    const size_t n_marks = r.m.marks.size(), n_said = r.m.said.size(); (void) n_marks; (void) n_said;
    if (w == "(note)") { StringBuilder n("hello"); r.c->printToLog(&n); settle("hello"); MC_CHECK(n.isEmpty(), "claim", "printToLog() left its argument"); }
    else if (w == "(prompt)") { r.c->printPrompt(); settle("$ "); }
    else if (w == "(fetch)") { StringBuilder l; r.c->fetchLog(&l); fetched.append((const char*) l.string(), l.length()); d.got += S((const char*) l.string(), l.length()); }
    else {
      StringBuilder sb((uint8_t*) w.data(), (int) w.size()); r.c->pushBuffer(&sb);
      /* A run of input is echoed before its commands say anything. */
      size_t p = 0; while (true) { size_t e = w.find(8, p); const S seg = w.substr(p, e == S::npos ? S::npos : e - p); const size_t m0 = r.m.marks.size(); if (r.m.echo) settle(seg);
        std::vector<S> out; S rest = r.m.buf + seg; r.m.buf.clear(); size_t q; while ((q = rest.find('\n')) != S::npos) { const size_t k = r.m.marks.size(); r.m.line(rest.substr(0, q)); settle(r.m.marks.substr(k)); if (!trim(rest.substr(0, q)).empty()) { if (r.m.marks.size() == k) settle("Command '" + trim(rest.substr(0, q)) + "' not supported."); if (r.m.prompt) settle("$ "); } rest.erase(0, q + 1); } r.m.buf = rest; (void) m0;
        if (e == S::npos) break; if (r.m.echo) settle("\x08 \x08"); if (!r.m.buf.empty()) r.m.buf.pop_back(); p = e + 1; if (p == w.size()) break; }
    }
    MC_CHECK(d.answer == 1 || w == "(fetch)" || d.got == before, "relay", "downstream took what it refused");
    MC_CHECK(flat(expected).compare(0, flat(d.got).size(), flat(d.got)) == 0, "relay", "downstream heard '%s'; expected '%s'", esc(d.got).c_str(), esc(expected).c_str());
    if (d.answer == 1 && w != "(fetch)" && w != "a" ) { StringBuilder n("!"); r.c->printToLog(&n); settle("!"); MC_CHECK(flat(d.got) == flat(expected), "relay", "downstream heard '%s'; expected '%s'", esc(d.got).c_str(), esc(expected).c_str()); }
    mc::state(r.m.buf + "|" + std::to_string(flat(expected).size() - flat(d.got).size()) + (r.m.echo ? "e" : "") + (r.m.prompt ? "p" : "") + flat(expected).substr(flat(d.got).size()), N - i - 1);
  }
  d.answer = 1; { StringBuilder n("!"); r.c->printToLog(&n); settle("!"); }
  MC_CHECK(flat(d.got) == flat(expected), "relay", "downstream heard '%s'; expected '%s'", esc(d.got).c_str(), esc(expected).c_str());
  MC_CHECK(show(calls) == show(r.m.calls), "calls", "handlers called: %s; expected %s", show(calls).c_str(), show(r.m.calls).c_str());
}
/* Long logs. */
static void longlog() { warm(); Rig r(64); const unsigned n = 250 + mc::choose(12); StringBuilder l; for (unsigned i = 0; i < n; i++) l.concat("x"); mc::op("log %u bytes", n); r.c->printToLog(&l); MC_CHECK((unsigned) r.c->logLength() == n, "log-length", "logLength() is %u for %u bytes", (unsigned) r.c->logLength(), n); r.fetch(); MC_CHECK(r.log.size() == n && r.c->logLength() == 0, "log-length", "fetched %u of %u bytes", (unsigned) r.log.size(), n); }

int main(int argc, char** argv) {
  const S T = getenv("VERIF_TIER") && S(getenv("VERIF_TIER")) == "thorough" ? "8" : "6", D = T == "8" ? "5" : "4", L = T == "8" ? "6" : "5";
  return mc::main(argc, argv, "C27", {
    {"typing-lf", [] { typing(LineTerm::LF); }, 4, "every input of " + T + " bytes from {a b B space LF CR backspace} in every fragmentation, keeping failed commands and printing help or not, history of two; terminator LF"},
    {"typing-cr", [] { typing(LineTerm::CR); }, 4, "the same, terminator CR"},
    {"typing-crlf", [] { typing(LineTerm::CRLF); }, 4, "the same, terminator CRLF"},
    {"typing-zero", [] { typing(LineTerm::ZEROBYTE); }, 4, "the same with bytes {a b B space NUL LF backspace}, terminator NUL"},
    {"typing-switch", [] { typing(LineTerm::LF, true); }, 4, "the same with bytes {a t space LF CR backspace}, where the command t changes the terminator between LF and CR"},
    {"session", session, 2, "every session of " + D + " pushes from 26, with commands, failures, empty lines, several lines at once, and all settings of the console's own configuration command"},
    {"limit", limit, 2, "every sequence of " + L + " pushes from 13, with a limit of 8 and of 11 bytes"},
    {"lookup", lookup, 3, "every set of one to two (thorough: three) commands with names from eight, abbreviations from five, none or one argument, defined in each of the four ways; fifteen lines and their help"},
    {"relay", relay, 2, "every sequence of " + D + " events from nine with a downstream that takes or refuses, with and without echo and prompts"},
    {"long-log", longlog, 1, "logs of 250 to 261 bytes"},
  }, {"input is text: no zero bytes within lines", "words are separated by spaces", "a push that takes the input buffered over the limit discards it all", "the console is not pushed to from within its handlers"});
}
