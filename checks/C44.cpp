/* C44: a search for several strings at once finds the earliest, then longest, of them, one after another. */
#include "mc.h"
#include "CppPotpourri.h"
#include "MultiStringSearch.h"
#include <string.h>
#include <stdlib.h>

typedef std::string S;
typedef std::vector<S> Strs;

static S show(const S& s) { return mc::hex(s); }

static void build(StringBuilder& b, const S& s, uint32_t cuts) {
  size_t from = 0;
  for (size_t i = 1; i <= s.size(); i++) if ((i == s.size()) || ((cuts >> (i - 1)) & 1)) { b.concat((const uint8_t*) s.data() + from, (int) (i - from)); from = i; }
}
static S content(StringBuilder& b) {
  S r;
  for (int i = 0; i < b.count(); i++) { int n = 0; uint8_t* p = b.position(i, &n); r.append((char*) p, n); }
  return r;
}

/* What the next step from `at` in s[.., end) should find. */
struct Step { int at, len; bool cut; };     // at < 0: nothing. cut: a needle that might continue past the end.
static Step next(const S& s, int at, int end, const Strs& nd) {
  for (; at < end; at++) {
    int best = 0; bool cut = false;
    for (auto& x : nd) {
      int room = end - at, n = (int) x.size();
      if (n <= room) { if ((0 == s.compare(at, n, x)) && (n > best)) best = n; }
      else if (0 == s.compare(at, room, x, 0, room)) cut = true;
    }
    if (cut) return Step{at, 0, true};
    if (best) return Step{at, best, false};
  }
  return Step{-1, 0, false};
}

static void check_hit(MultiStringSearch& m, int r, const Step& w, const S& s, const S& what) {
  if (w.at >= 0 && !w.cut) {
    MC_CHECK(1 == r, "missed", "%s: returned %d, though there is a match of length %d at %d", what.c_str(), r, w.len, w.at);
    StrSearchDef* d = m.lastMatch();
    MC_CHECK(d, "no-match", "%s: returned 1 without a lastMatch()", what.c_str());
    MC_CHECK(d->searchHit(), "not-hit", "%s: lastMatch() is not a hit", what.c_str());
    MC_CHECK((d->offset_start == w.at) && (d->SEARCH_STR_LEN == w.len), "wrong-match", "%s: found length %d at %d, should be length %d at %d", what.c_str(), d->SEARCH_STR_LEN, d->offset_start, w.len, w.at);
    MC_CHECK(d->offset_end == w.at + w.len, "wrong-end", "%s: match of length %d at %d ends at %d", what.c_str(), w.len, w.at, d->offset_end);
    MC_CHECK(0 == s.compare(w.at, w.len, S((const char*) d->SEARCH_STR, d->SEARCH_STR_LEN)), "wrong-needle", "%s: the match at %d is not the needle reported", what.c_str(), w.at);
  }
  else {
    MC_CHECK(0 == r, "invented", "%s: returned %d, though there is nothing to find", what.c_str(), r);
    MC_CHECK(nullptr == m.lastMatch(), "stale-match", "%s: lastMatch() is set after a search that found nothing", what.c_str());
    MC_CHECK(!m.searchRunning(), "still-running", "%s: returned 0 and is still running", what.c_str());
  }
}

static void check_end(MultiStringSearch& m, const Step& last, int end, uint32_t found, const S& what) {
  MC_CHECK(m.needlesFound() == found, "count", "%s: needlesFound() is %u after %u matches", what.c_str(), m.needlesFound(), found);
  int res = last.cut ? last.at : end;
  MC_CHECK(m.resolvedLength() == res, "resolved", "%s: resolvedLength() is %d, should be %d", what.c_str(), m.resolvedLength(), res);
  MC_CHECK((m.unresolvedSearches() > 0) == last.cut, "unresolved", "%s: unresolvedSearches() is %d, the end is %sambiguous", what.c_str(), m.unresolvedSearches(), last.cut ? "" : "not ");
}

static void whole(MultiStringSearch& m, const S& s, uint32_t cuts, const Strs& nd, int from, int len) {
  StringBuilder b; build(b, s, cuts);
  S what = "search for";
  for (auto& x : nd) what += " " + show(x);
  what += " in " + show(s); char t[64]; snprintf(t, sizeof(t), " (cuts %x) from %d for %d", cuts, from, len); what += t;
  const int end = from + len;
  int at = from; uint32_t found = 0; Step w{-1, 0, false};
  int r = m.runSearch(&b, len, from);
  for (int guard = 0; ; guard++) {
    mc::steps(1);
    w = next(s, at, end, nd);
    check_hit(m, r, w, s, what);
    if (w.at < 0 || w.cut) break;
    found++; at = w.at + w.len;
    MC_CHECK(m.needlesFound() == found, "count", "%s: needlesFound() is %u after %u matches", what.c_str(), m.needlesFound(), found);
    if (m.searchRunning()) MC_CHECK(m.resolvedLength() == at, "resolved-mid", "%s: resolvedLength() is %d after a match that ends at %d", what.c_str(), m.resolvedLength(), at);
    MC_CHECK(m.searchRunning() == (at < end), "running", "%s: searchRunning() is %d with %d of %d searched", what.c_str(), m.searchRunning(), at, end);
    MC_CHECK(guard <= len, "endless", "%s: does not end", what.c_str());
    r = m.continueSearch();
  }
  check_end(m, w, end, found, what);
  MC_CHECK(0 == m.continueSearch(), "after-end", "%s: went on after its end", what.c_str());
  check_end(m, w, end, found, what);
  MC_CHECK(-2 == m.runSearch(&b, len, from), "restart", "%s: began again without reset()", what.c_str());
  MC_CHECK(content(b) == s, "mutated", "%s: changed its subject to %s", what.c_str(), show(content(b)).c_str());
  m.reset();
  MC_CHECK(!m.searchRunning() && !m.needlesFound() && !m.lastMatch() && !m.resolvedLength() && !m.unresolvedSearches(), "reset", "%s: reset() left something of it", what.c_str());
}

static S word(const char* al, int n, unsigned k) { S r; while (n--) { r += al[k & 1]; k >>= 1; } return r; }
static Strs words(const char* al, int lo, int hi) {
  Strs r;
  for (int n = lo; n <= hi; n++) for (unsigned k = 0; k < (1u << n); k++) r.push_back(word(al, n, k));
  return r;
}

/* Every haystack of two letters x every set of needles of two letters. */
static void sets(const char* al, int maxhay, int nneedles, int maxneedle, bool windows, bool frag) {
  static Strs ws; static S key; S k = S(al, 2) + (char) maxneedle;
  if (key != k) { ws = words(al, 1, maxneedle); key = k; }
  const int64_t base = mc::live_blocks();
  {
    MultiStringSearch m((uint8_t) nneedles);
    Strs nd;
    int lo = 0;
    for (int i = 0; i < nneedles; i++) {
      int x = mc::range(lo, (int) ws.size() - 1); if (0 == i || !frag) lo = 0; else lo = x;
      nd.push_back(ws[x]);
      MC_CHECK(0 == m.addSearchTerm((const uint8_t*) ws[x].data(), (int) ws[x].size()), "add", "a needle was refused");
    }
    mc::op("needles %s %s %s", show(nd[0]).c_str(), nneedles > 1 ? show(nd[1]).c_str() : "", nneedles > 2 ? show(nd[2]).c_str() : "");
    int mn = 99, mx = 0; for (auto& x : nd) { mn = std::min(mn, (int) x.size()); mx = std::max(mx, (int) x.size()); }
    MC_CHECK((m.minNeedleLength() == mn) && (m.maxNeedleLength() == mx) && (m.needlesDefined() == nneedles), "lengths", "needle lengths are said to be %d..%d, are %d..%d", m.minNeedleLength(), m.maxNeedleLength(), mn, mx);
    int n = mc::range(1, maxhay);
    for (unsigned h = 0; h < (1u << n); h++) {
      S s = word(al, n, h);
      mc::count_state(s + show(nd[0]) + (nneedles > 1 ? show(nd[1]) : S()) + "/" + (nneedles > 2 ? show(nd[2]) : S()));
      for (uint32_t cuts = 0; cuts < (frag ? (1u << (n - 1)) : 1u); cuts++) {
        if (windows) { for (int f = 0; f < n; f++) for (int l = 1; f + l <= n; l++) whole(m, s, cuts, nd, f, l); }
        else whole(m, s, cuts, nd, 0, n);
      }
    }
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%ld blocks were not released", (long) (mc::live_blocks() - base));
}

/* Long needles that begin one another, as line terminators and keywords do. */
static void nested(int maxhay) {
  static const Strs fam[] = {
    {"\r", "\n", "\r\n"}, {"\r\n", "\n\r"}, {"aab", "aabb", "aabbaab"}, {"abab", "ab", "babb"}, {"aaaa", "aa", "aaa"}, {"aba", "abaab", "b"}, {"aaaab", "aab", "ab", "b"}, {"abbba", "bba", "abb"}};
  const Strs& nd = fam[mc::choose(8)];
  const char* al = (nd[0][0] == '\r') ? "\r\n" : "ab";
  const int64_t base = mc::live_blocks();
  {
    MultiStringSearch m(5);
    unsigned first = mc::choose((unsigned) nd.size());
    for (size_t i = 0; i < nd.size(); i++) { const S& x = nd[(i + first) % nd.size()]; MC_CHECK(0 == m.addSearchTerm((const uint8_t*) x.data(), (int) x.size()), "add", "a needle was refused"); }
    mc::op("needles from %s", show(nd[first]).c_str());
    int n = mc::range(1, maxhay);
    for (unsigned h = 0; h < (1u << n); h++) {
      S s = word(al, n, h);
      mc::count_state(s + show(nd[0]) + show(nd[1]));
      whole(m, s, 0, nd, 0, n);
      whole(m, s, ~0u, nd, 0, n);
      for (int i = 1; i < n; i++) { whole(m, s, 1u << (i - 1), nd, 0, n); if (n < 10) whole(m, s, 0, nd, i, n - i); }
    }
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%ld blocks were not released", (long) (mc::live_blocks() - base));
}

/* Histories of calls, sensible or not. */
static void history(int depth) {
  static const char* sub[] = {"abcab", "xx", "ab"};
  static const char* ndl[] = {"ab", "cab", "x"};
  const int64_t base = mc::live_blocks();
  {
    int cap = mc::range(1, 2);
    MultiStringSearch m(cap);
    Strs nd; S s; bool begun = false; int at = 0, end = 0; uint32_t found = 0; bool running = false; Step last{-1, 0, false};
    StringBuilder b[3]; for (int i = 0; i < 3; i++) build(b[i], sub[i], i);
    StringBuilder none;
    auto advance = [&](int r) {
      if (nd.empty()) { MC_CHECK(0 == r, "no-needles", "a search for nothing returned %d", r); running = false; last = Step{-1, 0, false}; return; }
      last = next(s, at, end, nd);
      check_hit(m, r, last, s, "history");
      if (last.at < 0 || last.cut) { running = false; at = end; }
      else { found++; at = last.at + last.len; running = at < end; }
    };
    for (int i = 0; i < depth; i++) {
      S key; for (auto& x : nd) key += x + ","; key += (char) ('0' + cap); key += (char) ('0' + begun); key += (char) ('0' + running); key += s; key += (char) ('a' + at); key += (char) ('a' + end); key += (char) ('a' + last.cut); key += (char) ('a' + found);
      mc::state(key, depth - i);
      switch (mc::choose(9)) {
        case 0: { int k = mc::choose(3); if (begun) throw mc::Prune(); mc::op("add %s", ndl[k]); int r = m.addSearchTerm((const uint8_t*) ndl[k], (int) strlen(ndl[k]));
          int w = ((int) nd.size() < cap) ? 0 : -2; MC_CHECK(r == w, "add", "addSearchTerm() returned %d with %d of %d defined", r, (int) nd.size(), cap); if (!w) nd.push_back(ndl[k]); break; }
        case 1: { mc::op("add (bad)"); int r = mc::flip() ? m.addSearchTerm(nullptr, 2) : m.addSearchTerm((const uint8_t*) "ab", mc::flip() ? 0 : -1); MC_CHECK(-1 == r, "add-bad", "a bad needle got %d", r); break; }
        case 2: case 3: { int k = mc::choose(3); int n = (int) strlen(sub[k]); int f = mc::range(0, 1); mc::op("run on %s from %d", sub[k], f);
          int r = m.runSearch(&b[k], n - f, f);
          if (begun) MC_CHECK(-2 == r, "restart", "a search begun during another returned %d", r);
          else { begun = true; s = sub[k]; at = f; end = n; found = 0; running = true; advance(r); }
          break; }
        case 4: { int k = mc::choose(6); mc::op("run (bad %d)", k);
          int r; int w = -3;
          switch (k) {
            case 0: r = m.runSearch(nullptr, 3); w = -1; break;
            case 1: r = m.runSearch(&none, 1); break;
            case 2: r = m.runSearch(&b[0], 6); break;
            case 3: r = m.runSearch(&b[0], 5, 1); break;
            case 4: r = m.runSearch(&b[0], mc::flip() ? 0 : -1); break;
            default: r = mc::flip() ? m.runSearch(&b[0], 2, -1) : m.runSearch(&b[0], 0x7FFFFFFF, 1); break;
          }
          if (begun && (0 != k)) w = -2;
          MC_CHECK(r == w, "run-bad", "runSearch() with bad parameters (%d) returned %d, should be %d", k, r, w);
          break; }
        case 5: case 6: { mc::op("continue"); int r = m.continueSearch();
          if (begun && running) advance(r);
          else { MC_CHECK(0 == r, "continue-idle", "continueSearch() without a search returned %d", r); MC_CHECK(!m.lastMatch(), "continue-idle", "continueSearch() without a search left a match"); }
          break; }
        case 7: { mc::op("reset"); m.reset(); begun = running = false; at = end = 0; found = 0; last = Step{-1, 0, false}; break; }
        default: { mc::op("look"); break; }
      }
      MC_CHECK(m.needlesDefined() == nd.size(), "defined", "needlesDefined() is %u of %u", m.needlesDefined(), (unsigned) nd.size());
      MC_CHECK(m.needlesFound() == found, "count", "needlesFound() is %u after %u matches", m.needlesFound(), found);
      if (!nd.empty()) MC_CHECK(m.searchRunning() == (begun && running), "running", "searchRunning() is %d", m.searchRunning());
      if (begun && !running && !nd.empty()) check_end(m, last, end, found, "history");
      if (!begun) MC_CHECK(!m.searchRunning() && !m.lastMatch() && !m.resolvedLength() && !m.unresolvedSearches(), "idle", "an idle search has some state");
    }
    StringBuilder dbg; m.printDebug(&dbg); MC_CHECK(dbg.length() > 0, "debug", "printDebug() wrote nothing");
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%ld blocks were not released", (long) (mc::live_blocks() - base));
}

int main(int argc, char** argv) {
  const char* tier = getenv("VERIF_TIER"); const bool T = tier && !strcmp(tier, "thorough");
  std::vector<mc::Config> c;
  c.push_back({"one needle of 1..4 letters, every subject of two letters, every fragmentation and window", [T]() { sets("ab", T ? 8 : 6, 1, 4, true, true); }, 1, T ? "30 needles, subjects of 1..8 letters" : "30 needles, subjects of 1..6 letters"});
  c.push_back({"every two needles of 1..3 letters, every fragmentation and window", [T]() { sets("ab", T ? 6 : 4, 2, 3, true, true); }, 1, T ? "subjects of 1..6 letters" : "subjects of 1..4 letters"});
  c.push_back({"every two needles of 1..4 letters", [T]() { sets("ab", T ? 9 : 6, 2, 4, false, false); }, 1, T ? "subjects of 1..9 letters" : "subjects of 1..6 letters"});
  c.push_back({"every three needles of 1..3 letters", [T]() { sets("ab", T ? 8 : 6, 3, 3, false, false); }, 1, T ? "subjects of 1..8 letters" : "subjects of 1..6 letters"});
  c.push_back({"binary needles (00 and FF)", [T]() { static const char al[] = {0, (char) 0xFF, 0}; sets(al, T ? 7 : 5, 2, 2, true, true); }, 1, T ? "subjects of 1..7 bytes" : "subjects of 1..5 bytes"});
  c.push_back({"needles that begin one another, in every order of definition", [T]() { nested(T ? 13 : 10); }, 1, T ? "8 families, subjects of 1..13 letters" : "8 families, subjects of 1..10 letters"});
  c.push_back({"histories of calls", [T]() { history(T ? 14 : 10); }, 3, T ? "14 calls" : "10 calls"});
  return mc::main(argc, argv, "C44", c, {});
}
