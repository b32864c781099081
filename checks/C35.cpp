/* C35: three-axis pipes; trees of stages over recording ends, against a model of what each end should hear and each push should answer. */
#include "../mc/mc.h"
#include "Pipes/TripleAxisPipe/TripleAxisPipe.h"
#include <vector>
#include <string>
#include <algorithm>
#include <memory>
#include <math.h>

typedef SpatialSense SS;
static const SS SENSES[] = {SS::ACC, SS::UNITLESS, SS::GYR, SS::MAG, SS::EULER_ANG, SS::BEARING};
struct V { float x, y, z; };
static bool same(const V& a, const V& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
static std::string show(const V& a) { char b[80]; snprintf(b, sizeof(b), "(%.6g %.6g %.6g)", a.x, a.y, a.z); return b; }
static V of(const Vector3f* p) { return V{p->x, p->y, p->z}; }
struct Heard { int who; SS s; V d; bool err; V e; };
static std::vector<Heard> heard;
struct End : TripleAxisPipe {
  int id; int answer; End(int i, int a) : id(i), answer(a) {}
  int8_t pushVector(const SS s, Vector3f* d, Vector3f* e) override { heard.push_back({id, s, of(d), e != nullptr, e ? of(e) : V{0, 0, 0}}); return (int8_t) answer; }
  void printPipe(StringBuilder*, uint8_t, uint8_t) override {}
};
static std::vector<Heard> called; static int callback_answer = 0; static uint32_t last_seq = 0;
static int8_t callback(SS s, Vector3f* d, Vector3f* e, uint32_t seq) { called.push_back({0, s, of(d), e != nullptr, e ? of(e) : V{0, 0, 0}}); last_seq = seq; return (int8_t) callback_answer; }

static const GnomonType GNOMONS[] = {GnomonType::UNDEFINED, GnomonType::RH_POS_X, GnomonType::RH_POS_Y, GnomonType::RH_POS_Z, GnomonType::RH_NEG_X, GnomonType::RH_NEG_Y, GnomonType::RH_NEG_Z,
  GnomonType::LH_POS_X, GnomonType::LH_POS_Y, GnomonType::LH_POS_Z, GnomonType::LH_NEG_X, GnomonType::LH_NEG_Y, GnomonType::LH_NEG_Z};
static V turned(const V& v, GnomonType g) {              // the named axis first, the others cyclically; RH_NEG and LH_POS inverted
  const unsigned axis = (unsigned) g & 3; const bool neg = (unsigned) g & 4, left = (unsigned) g & 8;
  V r = axis == 2 ? V{v.y, v.z, v.x} : axis == 3 ? V{v.z, v.x, v.y} : v;
  if (neg != left) r.x = -r.x;
  return r;
}
/* A tree of stages, and its model. */
struct Node {
  enum Kind { NOTHING, END, TERMINUS, FORK, TURN } kind; int id = 0, answer = 0; SS sense = SS::ACC; GnomonType g = GnomonType::UNDEFINED;
  std::unique_ptr<Node> l, r; std::shared_ptr<TripleAxisPipe> pipe_;   // which remembers how to delete the stage: the base has no virtual destructor
  TripleAxisTerminus* term = nullptr;
  uint32_t count = 0; V d{0, 0, 0}, e{0, 0, 0}; bool has_err = false, last_err = false;
  TripleAxisPipe* pipe() { return pipe_.get(); }
};
static int next_id;
static std::unique_ptr<Node> grow(int depth) {
  std::unique_ptr<Node> n(new Node); n->kind = (Node::Kind) mc::choose(depth ? 5 : 3); n->id = next_id++;
  switch (n->kind) {
    case Node::NOTHING: mc::op("(nothing)"); break;
    case Node::END: { static const int A[] = {0, -1, -2}; n->answer = mc::pick(A); n->pipe_.reset(new End(n->id, n->answer)); mc::op("end %d, answering %d", n->id, n->answer); break; }
    case Node::TERMINUS: n->sense = SENSES[mc::choose(2)]; n->term = new TripleAxisTerminus(n->sense); n->pipe_.reset(n->term); mc::op("terminus %d for %s", n->id, TripleAxisPipe::spatialSenseStr(n->sense)); break;
    case Node::FORK: mc::op("fork {"); n->l = grow(depth - 1); n->r = grow(depth - 1); mc::op("}");
      if (n->id & 1) n->pipe_.reset(new TripleAxisFork(n->l->pipe(), n->r->pipe()));
      else { TripleAxisFork* f = new TripleAxisFork(); f->setLeft(n->l->pipe()); f->setRight(n->r->pipe()); n->pipe_.reset(f); }
      break;
    case Node::TURN: { static const GnomonType G[] = {GnomonType::RH_NEG_Y, GnomonType::LH_NEG_Z, GnomonType::RH_POS_X}; n->g = mc::pick(G); mc::op("turn %u of", (unsigned) n->g); n->l = grow(depth - 1);
      n->pipe_.reset(new TripleAxisConvention(n->l->pipe(), n->g, GnomonType::RH_POS_X)); break; }
  }
  return n;
}
static int expect(Node* n, SS s, V d, bool err, V e, std::vector<Heard>& out) {
  switch (n->kind) {
    case Node::NOTHING: return -2;
    case Node::END: out.push_back({n->id, s, d, err, e}); return n->answer;
    case Node::TERMINUS: if (s != n->sense) return -1; n->count++; n->d = d; n->last_err = err; if (err) { n->e = e; n->has_err = true; } return 0;
    case Node::FORK: { const bool a = n->l->kind != Node::NOTHING && expect(n->l.get(), s, d, err, e, out) == 0, b = n->r->kind != Node::NOTHING && expect(n->r.get(), s, d, err, e, out) == 0; return -2 + a + b; }
    case Node::TURN: if (n->l->kind == Node::NOTHING) return -2; return expect(n->l.get(), s, turned(d, n->g), err, turned(e, n->g), out) == 0 ? 0 : -1;
  }
  return 0;
}
static void check_ends(Node* n) {
  if (n->term) {
    MC_CHECK(n->term->updateCount() == n->count, "terminus:count", "terminus %d counts %u updates, not %u", n->id, n->term->updateCount(), n->count);
    MC_CHECK(same(of(n->term->getData()), n->d), "terminus:data", "terminus %d holds %s, not %s", n->id, show(of(n->term->getData())).c_str(), show(n->d).c_str());
    if (n->last_err || !n->has_err) MC_CHECK(n->term->haveError() == n->has_err && same(of(n->term->getError()), n->e), "terminus:error", "terminus %d holds error %s (%d), not %s", n->id, show(of(n->term->getError())).c_str(), n->term->haveError(), show(n->e).c_str());
    MC_CHECK(n->term->dataFresh() == (n->count > 0), "terminus:fresh", "terminus %d is fresh %d", n->id, n->term->dataFresh());
  }
  if (n->l) check_ends(n->l.get());
  if (n->r) check_ends(n->r.get());
}
static void compare(const std::vector<Heard>& want) {
  MC_CHECK(heard.size() == want.size(), "heard:count", "the ends heard %zu vectors, not %zu", heard.size(), want.size());
  for (size_t i = 0; i < want.size(); i++) {
    const Heard &h = heard[i], &w = want[i];
    MC_CHECK(h.who == w.who && h.s == w.s, "heard:whom", "end %d heard of %s, not end %d of %s", h.who, TripleAxisPipe::spatialSenseStr(h.s), w.who, TripleAxisPipe::spatialSenseStr(w.s));
    MC_CHECK(same(h.d, w.d), "heard:data", "end %d heard %s, not %s", h.who, show(h.d).c_str(), show(w.d).c_str());
    MC_CHECK(h.err == w.err && (!w.err || same(h.e, w.e)), "heard:error", "end %d heard error %s (%d), not %s (%d)", h.who, show(h.e).c_str(), h.err, show(w.e).c_str(), w.err);
  }
}
static void push(TripleAxisPipe* p, Node* n, SS s, V d, bool err, V e) {
  Vector3f dat(d.x, d.y, d.z), er(e.x, e.y, e.z); std::vector<Heard> want; heard.clear();
  const int w = expect(n, s, d, err, e, want);
  const int r = p->pushVector(s, &dat, err ? &er : nullptr);
  mc::steps(1);
  compare(want);
  MC_CHECK(r == w, "answer", "pushing %s answered %d, not %d", TripleAxisPipe::spatialSenseStr(s), r, w);
  MC_CHECK(same(of(&dat), d) && same(of(&er), e), "mutated", "pushing altered the vector given");
  check_ends(n);
}
static const V VECS[] = {{1, -2, 4}, {-0.5f, 8, 16}, {0, 3, -7}};
static void trees(int depth) {
  std::vector<Heard>().swap(heard); heard.reserve(64); next_id = 1;
  const int64_t base = mc::live_blocks();
  {
    std::unique_ptr<Node> n = grow(depth);
    if (n->kind == Node::NOTHING) throw mc::Prune();
    for (unsigned k = 0; k < 4; k++) push(n->pipe(), n.get(), SENSES[k % 2], VECS[k % 3], k >= 2, VECS[(k + 1) % 3]);
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks were not released", (long long) (mc::live_blocks() - base));
}
static void turns() {
  heard.clear(); next_id = 1;
  const GnomonType g = mc::pick(GNOMONS), g2 = mc::pick(GNOMONS); const SS s = mc::pick(SENSES); static const int A[] = {0, -1, -2};
  Node n; n.kind = Node::TURN; n.g = g; n.l.reset(new Node); n.l->kind = mc::flip() ? Node::END : Node::NOTHING; n.l->answer = mc::pick(A); n.l->id = 7;
  End end(7, n.l->answer);
  TripleAxisConvention c; MC_CHECK(c.afferentGnomon() == c.efferentGnomon(), "turn:default", "the two conventions differ from the beginning");
  c.afferentGnomon(g); c.efferentGnomon(g2); MC_CHECK(c.afferentGnomon() == g && c.efferentGnomon() == g2, "turn:set", "the convention is not as set");
  if (n.l->kind == Node::END) c.setNext(&end);
  mc::op("convention %u to %u", (unsigned) g, (unsigned) g2);
  static const float X[] = {0, 1, -3, 0.25f};
  for (float x : X) for (float y : X) for (float z : X) { push(&c, &n, s, {x, y, z}, false, {0, 0, 0}); push(&c, &n, s, {x, y, z}, true, {z, x, y}); }
}
static void terminus(unsigned depth) {
  std::vector<Heard>().swap(called); called.reserve(16); plat::reset();
  const bool cb = mc::flip(); const SS sense = SENSES[mc::choose(2)];
  TripleAxisTerminus t = cb ? TripleAxisTerminus(sense, callback) : TripleAxisTerminus(sense);
  MC_CHECK(t.sense() == sense, "terminus:sense", "the sense is not as set");
  V d{0, 0, 0}, e{0, 0, 0}; bool has = false, fresh = false, sure = true; uint32_t count = 0, when = 0, now = 1000;
  plat::set_ms(now);
  mc::op("terminus for %s%s", TripleAxisPipe::spatialSenseStr(sense), cb ? ", with a callback" : "");
  for (unsigned k = 0; k < depth; k++) {
    now += 7; plat::set_ms(now); called.clear();
    const unsigned what = mc::choose(4);
    if (what == 0) {
      const SS s = SENSES[mc::choose(2)]; const bool err = mc::flip(); callback_answer = cb ? (int) mc::choose(2) : 0;
      Vector3f dat(VECS[k % 3].x, VECS[k % 3].y, VECS[k % 3].z), er(VECS[(k + 1) % 3].x, VECS[(k + 1) % 3].y, VECS[(k + 1) % 3].z);
      mc::op("%s%s", TripleAxisPipe::spatialSenseStr(s), err ? " with error" : "");
      const int r = t.pushVector(s, &dat, err ? &er : nullptr); mc::steps(1);
      MC_CHECK(r == (s == sense ? 0 : -1), "answer", "pushing %s to a terminus for %s answered %d", TripleAxisPipe::spatialSenseStr(s), TripleAxisPipe::spatialSenseStr(sense), r);
      if (s == sense) {
        d = of(&dat); if (err) { e = of(&er); has = true; } sure = err || !has; count++; when = now; fresh = cb ? callback_answer != 0 : true;
        MC_CHECK(called.size() == (cb ? 1u : 0u), "terminus:callback", "%zu callbacks", called.size());
        if (cb) MC_CHECK(called[0].s == sense && same(called[0].d, d) && last_seq == count && (!sure || (called[0].err == has && (!has || same(called[0].e, e)))), "terminus:callback", "the callback was told of %s and error %d, number %u", show(called[0].d).c_str(), called[0].err, last_seq);
      }
      else MC_CHECK(called.empty(), "terminus:callback", "a callback for another sense");
    }
    else if (what == 1) {
      Vector3f a, b; uint32_t c = 0; const int r = t.getDataWithErr(&a, &b, &c); mc::op("read");
      MC_CHECK(r == (fresh ? 1 : 0) && same(of(&a), d) && c == count && (!has || !sure || same(of(&b), e)), "terminus:read", "reading answered %d, %s, number %u", r, show(of(&a)).c_str(), c);
      fresh = false;
    }
    else if (what == 2) { mc::op("read without error"); Vector3f a; const int r = t.getDataWithErr(&a, nullptr, nullptr); MC_CHECK(r == (fresh ? 1 : 0) && same(of(&a), d), "terminus:read", "reading answered %d, %s", r, show(of(&a)).c_str()); fresh = false; }
    else { mc::op("reset"); t.reset(); d = e = V{0, 0, 0}; has = fresh = false; sure = true; count = when = 0; }
    MC_CHECK(same(of(t.getData()), d) && t.updateCount() == count && t.dataFresh() == fresh && t.lastUpdate() == when, "terminus:state", "the terminus holds %s, %u updates, fresh %d, last at %u; should be %s, %u, %d, %u", show(of(t.getData())).c_str(), t.updateCount(), t.dataFresh(), t.lastUpdate(), show(d).c_str(), count, fresh, when);
    if (sure) MC_CHECK(t.haveError() == has && same(of(t.getError()), e), "terminus:error", "the error held is %s (%d), not %s", show(of(t.getError())).c_str(), t.haveError(), show(e).c_str());
  }
}
static void filter(unsigned depth) {
  static const FilteringStrategy S[] = {FilteringStrategy::RAW, FilteringStrategy::MOVING_AVG, FilteringStrategy::MOVING_MED};
  std::vector<Heard>().swap(heard); heard.reserve(16);
  const FilteringStrategy how = mc::pick(S); const uint32_t win = 1 + mc::choose(3); const bool joined = mc::flip(); const SS sense = SENSES[mc::choose(2)];
  const int64_t base = mc::live_blocks();
  {
    End end(3, 0); TripleAxisSingleFilter f(sense, joined ? &end : nullptr, how, (int) win);
    mc::op("%s filter of window %u for %s%s", getFilterStr(how), win, TripleAxisPipe::spatialSenseStr(sense), joined ? "" : ", nothing beyond");
    std::vector<V> fed; double avg[3] = {0, 0, 0}; bool ready = false, dirty = false;
    for (unsigned k = 0; k < depth; k++) {
      const V d = VECS[(k * 2 + 1) % 3], e = VECS[k % 3]; heard.clear();
      const unsigned what = mc::choose(6); static const int A[] = {0, -1};
      if (what == 5) {
        mc::op("read"); Vector3f a; const int r = f.getDataWithErr(&a, nullptr);
        if (ready) { MC_CHECK(r == (dirty ? 1 : 0), "filter:fresh", "reading answered %d, dirty %d", r, dirty); dirty = false; }
        continue;
      }
      const SS s = what == 4 ? SS::GYR : sense; const bool err = what & 1; end.answer = joined ? mc::pick(A) : 0;
      Vector3f dat(d.x, d.y, d.z), er(e.x, e.y, e.z);
      mc::op("%s %s%s, beyond answers %d", TripleAxisPipe::spatialSenseStr(s), show(d).c_str(), err ? " with error" : "", end.answer);
      const int r = f.pushVector(s, &dat, err ? &er : nullptr); mc::steps(1);
      MC_CHECK(same(of(&dat), d) && same(of(&er), e), "mutated", "pushing altered the vector given");
      if (s != sense) {                                  // relayed untouched
        MC_CHECK(joined ? r == end.answer : r < 0, "filter:relay", "relaying %s answered %d, and beyond it %d", TripleAxisPipe::spatialSenseStr(s), r, end.answer);
        MC_CHECK(heard.size() == (joined ? 1u : 0u) && (!joined || (heard[0].s == s && same(heard[0].d, d) && heard[0].err == err && (!err || same(heard[0].e, e)))), "filter:relay", "%s was relayed %zu times, or altered", TripleAxisPipe::spatialSenseStr(s), heard.size());
        continue;
      }
      fed.push_back(d);
      double out[3] = {d.x, d.y, d.z};
      if (win > 1 && how == FilteringStrategy::MOVING_AVG) for (int a = 0; a < 3; a++) out[a] = (avg[a] * (win - 1) + out[a]) / win;
      for (int a = 0; a < 3; a++) avg[a] = out[a];
      ready = win == 1 || fed.size() >= win;
      if (win > 1 && how == FilteringStrategy::MOVING_MED && ready) for (int a = 0; a < 3; a++) {
        std::vector<double> w; for (size_t i = fed.size() - win; i < fed.size(); i++) w.push_back(a == 0 ? fed[i].x : a == 1 ? fed[i].y : fed[i].z);
        std::sort(w.begin(), w.end()); out[a] = (w[(win - 1) / 2] + w[win / 2]) / 2;
      }
      MC_CHECK(r == 0, "filter:answer", "input %zu was answered %d", fed.size(), r);
      MC_CHECK(heard.size() == (joined && ready ? 1u : 0u), "filter:output", "input %zu into a window of %u was passed on %zu times", fed.size(), win, heard.size());
      if (ready) {
        dirty = joined ? end.answer < 0 : true;
        MC_CHECK(f.dataFresh() == dirty, "filter:fresh", "fresh is %d, and beyond answered %d", f.dataFresh(), end.answer);
        if (joined) {
          const double g[3] = {heard[0].d.x, heard[0].d.y, heard[0].d.z};
          MC_CHECK(heard[0].s == sense, "filter:output", "passed on as %s", TripleAxisPipe::spatialSenseStr(heard[0].s));
          for (int a = 0; a < 3; a++) MC_CHECK(fabs(g[a] - out[a]) < 1e-4, "filter:value", "%s of window %u after %zu: axis %d is %g, not %g", getFilterStr(how), win, fed.size(), a, g[a], out[a]);
          if (err && how != FilteringStrategy::MOVING_MED) {
            const float q = how == FilteringStrategy::MOVING_AVG ? (float) (win * win) : 1.0f; const V w{e.x / q, e.y / q, e.z / q};
            MC_CHECK(heard[0].err && fabs(heard[0].e.x - w.x) + fabs(heard[0].e.y - w.y) + fabs(heard[0].e.z - w.z) < 1e-4, "filter:error", "the error passed on is %s, not %s", show(heard[0].e).c_str(), show(w).c_str());
          }
        }
      }
    }
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks were not released", (long long) (mc::live_blocks() - base));
}
static double wrap(double x) { x = fmod(fabs(x), 2 * M_PI); return std::min(x, 2 * M_PI - x); }
static void orientation() {
  std::vector<Heard>().swap(heard); heard.reserve(16);
  static const float X[] = {1, -2, 0.5f, 3}; const bool joined = mc::flip(); static const int A[] = {0, -1, -2};
  End end(5, joined ? mc::pick(A) : 0); TripleAxisOrientation o(joined ? &end : nullptr);
  const V up{mc::pick(X), mc::pick(X), mc::pick(X)}, v{mc::pick(X), mc::pick(X), mc::pick(X)}; const bool level = mc::flip();
  mc::op("up %s, gravity %s, %s", show(up).c_str(), show(v).c_str(), level ? "marked level" : "set");
  Vector3f u(up.x, up.y, up.z), d(v.x, v.y, v.z), e(1, 2, 3); unsigned pushes = 0;
  bool dirty = false;
  auto push = [&](SS s, Vector3f* p, const V& want_up) {
    heard.clear(); const V before = of(p); const int r = o.pushVector(s, p, (++pushes & 1) ? &e : nullptr); mc::steps(1);
    MC_CHECK(same(of(p), before), "mutated", "pushing altered the vector given");
    if (s == SS::ACC) {
      const double roll = atan2(before.y, before.z) - atan2(want_up.y, want_up.z), pitch = atan2(before.x, before.z) - atan2(want_up.x, want_up.z);
      MC_CHECK(r == end.answer, "orientation:answer", "answered %d, and beyond %d", r, end.answer);
      MC_CHECK(heard.size() == (joined ? 1u : 0u), "orientation:output", "passed on %zu times", heard.size());
      if (joined) MC_CHECK(heard[0].s == SS::EULER_ANG && wrap(heard[0].d.x - roll) < 1e-4 && wrap(heard[0].d.y - pitch) < 1e-4 && heard[0].d.z == 0, "orientation:value", "the orientation is %s, not (%g %g 0)", show(heard[0].d).c_str(), roll, pitch);
      MC_CHECK(wrap(o.pitch() - roll) < 1e-4 && wrap(o.roll() - pitch) < 1e-4, "orientation:value", "the orientation is %g, %g, not %g, %g", o.pitch(), o.roll(), roll, pitch);
      dirty |= !joined || end.answer < 0;
    }
    else MC_CHECK(heard.empty() && (r == 0 || s == SS::GYR || s == SS::UNITLESS || s == SS::BEARING) && (r == 0 || r == -1), "orientation:other", "%s was answered %d, passed on %zu times", TripleAxisPipe::spatialSenseStr(s), r, heard.size());
    MC_CHECK(o.dirty() == dirty, "orientation:dirty", "dirty is %d, not %d", o.dirty(), dirty);
  };
  if (level) { o.markLevel(); push(SS::MAG, &d, up); push(SS::ACC, &u, up); } else o.setUp(&u);
  MC_CHECK(same(of(o.getUp()), up), "orientation:up", "up is %s, not %s", show(of(o.getUp())).c_str(), show(up).c_str());
  for (SS s : SENSES) push(s, &d, up);
  if (mc::flip()) { o.value(); dirty = false; MC_CHECK(!o.dirty(), "orientation:dirty", "dirty after being read"); }
  push(SS::ACC, &d, up);
}
struct Flagged : TripleAxisPipeWithFlags { Flagged(uint32_t f) : TripleAxisPipeWithFlags(f) {} int8_t pushVector(const SS, Vector3f*, Vector3f*) override { return 0; } void printPipe(StringBuilder*, uint8_t, uint8_t) override {} };
static void relays(unsigned depth) {
  static const uint32_t INIT[] = {0, 0xFFFFFFFFu, 0x00000AAAu, 0xFFFFF000u}; const uint32_t init = mc::pick(INIT); Flagged f(init); uint32_t want = init;
  for (unsigned k = 0; k < depth; k++) {
    const unsigned s = mc::choose(12); const bool on = mc::flip(); mc::op("relay %u %d", s, on); f.relaySense((SS) s, on); want = on ? want | 1u << s : want & ~(1u << s); mc::steps(1);
    for (unsigned i = 0; i < 12; i++) MC_CHECK(f.relaySense((SS) i) == ((want >> i & 1) != 0), "relay", "sense %u is relayed %d", i, f.relaySense((SS) i));
  }
}
int main(int argc, char** argv) {
  const bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  std::vector<mc::Config> c;
  c.push_back({"trees", [=]{ trees(2); }, 5, "every tree of forks and conventions over recording ends (answering 0, -1, -2), termini and nothing, two stages deep; four pushes of two senses, with and without error"});
  if (th) c.push_back({"deep-trees", [=]{ trees(3); }, 8, "the same three stages deep"});
  c.push_back({"turns", turns, 3, "every pair of the 13 conventions, every sense, every vector of 4^3, with and without error, every answer from beyond"});
  c.push_back({"terminus", [=]{ terminus(th ? 7 : 6); }, 5, "every history of 6 (thorough 7) pushes, reads and resets of a terminus, with and without callback"});
  c.push_back({"filter", [=]{ filter(th ? 6 : 5); }, 5, "every history of 5 (thorough 6) pushes and reads of a filter: three strategies, windows of 1..3, accepted or refused beyond"});
  c.push_back({"orientation", orientation, 5, "every up and gravity of 4^3 by 4^3, set or marked level, every answer from beyond"});
  c.push_back({"relays", [=]{ relays(th ? 5 : 4); }, 2, "every history of 4 (thorough 5) relay settings"});
  return mc::main(argc, argv, "C35", c, {
    "what lies beyond a stage answers 0, -1 or -2", "an error is compared if it came with the vector, or none ever came", "the compass is unfinished, and not covered",
    "a convention turns the named axis to the front and the others after it cyclically, inverting the first for RH_NEG and LH_POS; the efferent convention is not used"});
}
