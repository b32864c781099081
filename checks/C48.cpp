/* C48: the trace keeps the newest points, and each path's time from start to stop. */
#include "mc.h"
#include "TimerTools/C3PTrace.h"
#include "StringBuilder.h"
#include "cborref.h"
#include <algorithm>
#include <map>

typedef std::string S;
static uint32_t word(unsigned file, unsigned line, unsigned path, unsigned action) { return line | (file << 14) | (path << 23) | (action << 29); }
static S text(StringBuilder& b) { S r((size_t) b.length(), 0); if (!r.empty()) b.copyToBuffer((uint8_t*) &r[0], b.length(), 0); return r; }
static S place(uint32_t w) { char t[32]; snprintf(t, sizeof(t), "F%03u-L%05u", (w >> 14) & 0x1FF, w & 0x3FFF); return t; }
static S at(uint32_t w, uint32_t ts) { return place(w) + ":\t" + std::to_string(ts); }

struct Path {
  bool begun = false; uint32_t from = 0, when = 0;
  std::map<uint32_t, std::vector<uint32_t>> ends;                              // by the place where it stopped
  void start(uint32_t w, uint32_t now) { if (!begun) { begun = true; from = w & 0x7FFFFF; when = now; } }
  void stop(uint32_t w, uint32_t now) { if (begun) ends[w & 0x7FFFFF].push_back(now - when); begun = false; }
};
struct Model {
  size_t cap; bool on = false; std::vector<std::pair<uint32_t, uint32_t>> points; std::map<unsigned, Path> paths;
  void leave(uint32_t w, uint32_t now) {
    if (!on) return;
    points.push_back({w, now}); if (points.size() > cap) points.erase(points.begin());
    if ((w >> 29) == 1) paths[(w >> 23) & 63].start(w, now);
    if ((w >> 29) == 2) { Path& p = paths[(w >> 23) & 63]; p.stop(w, now); }
  }
};
/* The report on one path, its rows in no particular order. */
typedef std::pair<S, std::vector<S>> Section;
static Section want(const Path& p) {
  Section s; s.first = "TracePath from " + place(p.from);
  for (auto& e : p.ends) {
    uint32_t sum = 0, best = ~0u, worst = 0; for (uint32_t d : e.second) { sum += d; best = std::min(best, d); worst = std::max(worst, d); }
    char t[160]; snprintf(t, sizeof(t), "%14s %10u %10u %10u %10u %10u %10u", place(e.first).c_str(), (unsigned) e.second.size(), sum, sum / (unsigned) e.second.size(), worst, best, e.second.back());
    s.second.push_back(t);
  }
  std::sort(s.second.begin(), s.second.end()); return s;
}
static std::vector<S> lines(const S& t) { std::vector<S> r; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); if (e == S::npos) e = t.size(); r.push_back(t.substr(i, e - i)); i = e + 1; } return r; }
static void parse(const S& t, std::vector<S>* points, std::vector<Section>* paths) {
  for (const S& l : lines(t)) {
    const size_t h = l.find("TracePath from ");
    if (h != S::npos) { const size_t e = l.find(":\t", h); MC_CHECK(e != S::npos, "heading", "\"%s\"", l.c_str()); paths->push_back({l.substr(h, e - h), {}}); }
    else if (paths->empty()) points->push_back(l);
    else if (l.find("Execd") == S::npos && l.find("-----") == S::npos) paths->back().second.push_back(l);
  }
  for (auto& p : *paths) std::sort(p.second.begin(), p.second.end());
  std::sort(paths->begin(), paths->end());
}
/* The same in CBOR: the elements of "stops" in no particular order. */
static S chunk(const S& all, size_t& at, const char* what) { const size_t n = at < all.size() ? ref::item_len(all, at) : 0; MC_CHECK(n > 0, "cbor:malformed", "%s at %zu of %s", what, at, mc::hex(all.data(), all.size()).c_str()); const S r = all.substr(at, n); at += n; return r; }
static void examine_cbor(TracePath& p, const Path& m) {
  StringBuilder b; p.serialize(&b, TCode::CBOR); const S all = text(b); size_t at = 0;
  const S head = ref::head(5, 2) + ref::text("start") + ref::integer((uint64_t) m.from) + ref::text("stops") + ref::head(4, m.ends.size());
  MC_CHECK(all.compare(0, head.size(), head) == 0, "cbor:head", "%s, not %s", mc::hex(all.data(), all.size()).c_str(), mc::hex(head.data(), head.size()).c_str());
  at = head.size(); std::vector<S> got, want;
  for (size_t i = 0; i < m.ends.size(); i++) got.push_back(chunk(all, at, "a stop"));
  MC_CHECK(at == all.size(), "cbor:tail", "%zu bytes after the end", all.size() - at);
  for (auto& e : m.ends) {
    StopWatch w(e.first); for (uint32_t d : e.second) w.addRuntime(0, d);
    StringBuilder o; getTypeHelper(TCode::STOPWATCH)->serialize(&w, &o, TCode::CBOR);
    want.push_back(ref::head(5, 2) + ref::text("pnt") + ref::integer((uint64_t) e.first) + ref::text("prof") + text(o));
  }
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
  MC_CHECK(got == want, "cbor:stops", "%s", mc::hex(all.data(), all.size()).c_str());
}

static void compare(C3PTrace& t, const Model& m) {
  MC_CHECK(t.recording() == m.on, "recording", "recording() is %d", t.recording());
  StringBuilder b; t.serialize(&b, TCode::STR);
  std::vector<S> points, wp; std::vector<Section> paths, ws; parse(text(b), &points, &paths);
  for (auto& p : m.points) wp.push_back(at(p.first, p.second));
  for (auto& p : m.paths) if (p.second.begun || !p.second.ends.empty()) ws.push_back(want(p.second));
  std::sort(ws.begin(), ws.end());
  MC_CHECK(points == wp, "points", "%zu points, not %zu: %s", points.size(), wp.size(), text(b).c_str());
  MC_CHECK(paths.size() == ws.size(), "paths", "%zu paths, not %zu: %s", paths.size(), ws.size(), text(b).c_str());
  for (size_t i = 0; i < ws.size(); i++) {
    MC_CHECK(paths[i].first == ws[i].first, "from", "\"%s\", not \"%s\"", paths[i].first.c_str(), ws[i].first.c_str());
    MC_CHECK(paths[i].second == ws[i].second, "statistics", "%s: %zu rows, not %zu: %s", ws[i].first.c_str(), paths[i].second.size(), ws[i].second.size(), text(b).c_str());
  }
}

static const uint32_t STARTS[] = {0, 1000, 0xFFFFFFF9u, 0x7FFFFFFEu};
static void history(unsigned depth, bool wide) {
  plat::reset(); plat::now_us = mc::pick(STARTS);
  Model m; m.cap = 1 + mc::choose(3); C3PTrace* t = new C3PTrace((uint32_t) m.cap);
  const unsigned P[] = {0, wide ? 63u : 1u}, A[][2] = {{1, 1}, {wide ? 511u : 1u, wide ? 16383u : 2u}, {2, 257}};
  if (!mc::flip()) { mc::op("recording(true)"); t->recording(true); m.on = true; }
  for (unsigned i = 0; i < depth; i++) {
    const unsigned k = mc::choose(5);
    if (k < 3) {
      const unsigned p = k ? P[mc::choose(2)] : 0, a = mc::choose(k ? 2 : 3); const uint32_t w = word(A[a][0], A[a][1], p, k); if (k == 1 && plat::now_us == 0) plat::now_us = 1;
      mc::op("leave_trace(%s, path %u, action %u) at %u", place(w).c_str(), p, k, plat::now_us);
      m.leave(w, plat::now_us); t->leave_trace(w);
    }
    else if (k == 3) { const bool on = mc::flip(); mc::op("recording(%d)", on); t->recording(on); m.on = on; }
    else { mc::op("reset()"); t->reset(); m.points.clear(); m.paths.clear(); }
    compare(*t, m);
    if (i + 1 == depth) break;
    S key = std::to_string(m.cap) + (m.on ? "+" : "-") + std::to_string(plat::now_us);
    for (auto& q : m.points) key += "," + std::to_string(q.first) + "@" + std::to_string(q.second);
    for (auto& q : m.paths) { key += ";" + std::to_string(q.first) + (q.second.begun ? "b" : "e") + std::to_string(q.second.from) + "@" + std::to_string(q.second.when); for (auto& e : q.second.ends) { key += "/" + std::to_string(e.first); for (uint32_t d : e.second) key += "." + std::to_string(d); } }
    mc::state(key, depth - i);
    plat::now_us += i & 1 ? 1 : 7;
  }
  delete t;
}
/* Every field of the word is read from its own bits. */
static void words() {
  plat::reset(); plat::now_us = 500;
  C3PTrace* t = new C3PTrace(4); t->recording(true); Model m; m.cap = 4; m.on = true;
  const unsigned bit = mc::choose(24), bit2 = mc::choose(24), pa = mc::choose(7), pb = mc::choose(7), act = mc::choose(8);
  const uint32_t one = (bit < 23 ? 1u << bit : 0), two = (bit2 < 23 ? 1u << bit2 : 0x7FFFFF), path = pa < 6 ? 1u << pa : 63, path2 = pb < 6 ? 1u << pb : 63;
  const uint32_t w[3] = {one | (path << 23) | (1u << 29), one | (path2 << 23) | (act << 29), two | (path << 23) | (2u << 29)};
  for (unsigned i = 0; i < 3; i++) { mc::op("leave_trace(%08x) at %u", w[i], plat::now_us); m.leave(w[i], plat::now_us); t->leave_trace(w[i]); plat::now_us += 100 + 7 * i; compare(*t, m); }
  delete t;
}
/* A path on its own: the same numbers as text and as CBOR. */
static void durations(unsigned n) {
  plat::reset(); TracePath* p = new TracePath(5); Path m;
  static const uint32_t W[] = {1, 0x7FFFFF, (3 << 14) | 9}, D[] = {0, 1, 1000, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu};
  for (unsigned i = 0; i < n; i++) {
    const uint32_t from = W[mc::choose(2)], to = mc::pick(W), d = mc::pick(D), begin = mc::pick(STARTS) + 1; const bool twice = mc::flip();
    mc::op("from %s at %u to %s, %u later%s", place(from).c_str(), begin, place(to).c_str(), d, twice ? ", with a second start between" : "");
    TracePoint a(begin, from), c(begin + 1, to), b(begin + d, to);
    const bool r = p->recordStart(from, &a); MC_CHECK(r, "start", "recordStart() answered %d", r); m.start(from, begin);
    if (twice) { const bool r2 = p->recordStart(to, &c); MC_CHECK(!r2, "start:again", "a second recordStart() answered %d", r2); }
    const bool r3 = p->recordStop(to, &b); MC_CHECK(r3, "stop", "recordStop() answered %d", r3); m.stop(to, begin + d);
    const bool r4 = p->recordStop(to, &c); MC_CHECK(!r4, "stop:again", "recordStop() without a start answered %d", r4);
  }
  StringBuilder b; p->serialize(&b, TCode::STR); std::vector<S> pts; std::vector<Section> s; parse(text(b), &pts, &s);
  MC_CHECK(s.size() == 1 && s[0] == want(m), "statistics", "%s", text(b).c_str());
  examine_cbor(*p, m);
  delete p;
}

/* A point in CBOR. */
static void points() {
  const unsigned b1 = mc::choose(23), b2 = mc::choose(24); const uint32_t one = 1u << b1, two = b2 < 23 ? 1u << b2 : 0x7FFFFF;
  TracePoint q(mc::pick(STARTS) - mc::choose(3), one | two); StringBuilder o; q.serialize(&o, TCode::CBOR);
  const S whole = ref::head(5, 3) + ref::text("F") + ref::integer((uint64_t) (q.trace_word >> 14)) + ref::text("L") + ref::integer((uint64_t) (q.trace_word & 0x3FFF)) + ref::text("T") + ref::integer((uint64_t) q.ts_micros);
  MC_CHECK(text(o) == whole, "cbor:point", "%s", mc::hex(text(o).data(), text(o).size()).c_str());
}

int main(int argc, char** argv) {
  const char* t = getenv("VERIF_TIER"); const bool th = t && S(t) == "thorough"; const unsigned d = th ? 5 : 4;
  std::vector<mc::Config> c;
  c.push_back(mc::Config("histories", [d] { history(d, false); }, 4, "up to " + std::to_string(d) + " points, starts and stops of two paths, resets and switches, in a trace of 1 to 3 points, across the wrap of the clock"));
  c.push_back(mc::Config("edges", [d] { history(d - 1, true); }, 4, "the same with the largest file, line and path"));
  c.push_back(mc::Config("words", words, 2, "each bit of file and line in two points, each bit of two paths, each action"));
  c.push_back(mc::Config("durations", [] { durations(2); }, 2, "sequences of passages between places over six durations, four beginnings"));
  c.push_back(mc::Config("points", points, 0, "each bit of place and several times as CBOR"));
  return mc::main(argc, argv, "C48", c, {"The clock does not read zero in the very microsecond in which a path is begun (such a start counts for none)."});
}
