/* C06: search, compare, replace and tokenising give the answer the flat byte string gives, however it is fragmented. */
#include "mc.h"
#include "CppPotpourri.h"
#include "StringBuilder.h"
#include <string.h>
#include <strings.h>
#include <stdlib.h>
#include <ctype.h>

typedef std::string S;

/* Puts s in b, cut after each byte whose bit is set in the mask; handoffs for every second fragment if asked. */
static void build(StringBuilder& b, const S& s, uint32_t mask, bool handoff) {
  size_t from = 0; int k = 0;
  for (size_t i = 0; i < s.size(); i++) {
    if ((i + 1 == s.size()) || (mask & (1u << i))) {
      size_t l = i + 1 - from;
      if (handoff && (k++ & 1)) { uint8_t* p = (uint8_t*) malloc(l + 1); memcpy(p, s.data() + from, l); p[l] = 0; b.concatHandoff(p, (int) l); }
      else b.concat((const uint8_t*) s.data() + from, (int) l);
      from = i + 1;
    }
  }
}
static S content(StringBuilder& b) { S r; for (int i = 0; i < b.count(); i++) { int n; uint8_t* p = b.position(i, &n); r += S((char*) p, n); } return r; }
static S show(const S& s, uint32_t mask) { S r = "\""; for (size_t i = 0; i < s.size(); i++) { char t[8]; if (isprint((uint8_t) s[i])) { t[0] = s[i]; t[1] = 0; } else snprintf(t, 8, "\\x%02x", (uint8_t) s[i]); r += t; if ((i + 1 < s.size()) && (mask & (1u << i))) r += '|'; } return r + "\""; }

static S pick_string(const S& al, int n) { S s; for (int i = 0; i < n; i++) s += al[mc::choose(al.size())]; return s; }
static std::vector<S> all_strings(const S& al, int lo, int hi) {
  std::vector<S> r, cur{""};
  for (int n = 0; n <= hi; n++) {
    if (n >= lo) r.insert(r.end(), cur.begin(), cur.end());
    std::vector<S> nx; for (auto& c : cur) for (char ch : al) nx.push_back(c + ch);
    cur = nx;
  }
  return r;
}
static uint32_t pick_mask(int n) { uint32_t m = 0; for (int i = 0; i + 1 < n; i++) if (mc::flip()) m |= 1u << i; return m; }

static S m_replace(const S& s, const S& a, const S& b, int* cnt) {
  S r; size_t i = 0; *cnt = 0;
  if (a.empty()) return s;
  while (i < s.size()) {
    if (0 == s.compare(i, a.size(), a)) { r += b; i += a.size(); (*cnt)++; }
    else r += s[i++];
  }
  return r;
}

static void search(const S& al, int maxlen, int maxneedle) {
  int n = mc::range(0, maxlen);
  S s = pick_string(al, n);
  uint32_t mask = pick_mask(n); bool ho = mc::flip();
  mc::op("search %s", show(s, mask).c_str());
  mc::count_state(s + (char) mask + (char) (mask >> 8));
  StringBuilder b; build(b, s, mask, ho);
  static std::vector<S> needles; static S for_al; static int for_n = -1;
  if (for_al != al || for_n != maxneedle) { needles = all_strings(al + "~", 1, maxneedle > 2 ? 2 : maxneedle); for (auto& x : all_strings(al, 3, maxneedle)) needles.push_back(x); for_al = al; for_n = maxneedle; }
  for (auto& nd : needles) {
    bool nul = nd.find('\0') != S::npos;
    for (int off = 0; off <= n + 1; off++) {
      size_t w = (off <= n) ? s.find(nd, off) : S::npos;
      int r = b.locate((const uint8_t*) nd.data(), (int) nd.size(), off);
      MC_CHECK(r == (w == S::npos ? -1 : (int) w), "locate", "locate(%s, from %d) in %s is %d, should be %d", show(nd, 0).c_str(), off, show(s, mask).c_str(), r, (int) w);
      if (!nul) { int r2 = b.locate(nd.c_str(), off); MC_CHECK(r2 == r, "locate-text", "locate(text %s, from %d) in %s is %d", show(nd, 0).c_str(), off, show(s, mask).c_str(), r2); }
    }
    bool w = s.find(nd) != S::npos;
    if (!nul) MC_CHECK(b.contains(nd.c_str()) == w, "contains", "contains(%s) in %s is wrong", show(nd, 0).c_str(), show(s, mask).c_str());
    if (nd.size() == 1) MC_CHECK(b.contains(nd[0]) == w, "contains-char", "contains('%s') in %s is wrong", show(nd, 0).c_str(), show(s, mask).c_str());
  }
  mc::steps(needles.size() * (n + 2));
  MC_CHECK(-1 == b.locate((const uint8_t*) "a", 0), "locate-empty", "an empty needle was located");
  MC_CHECK(-1 == b.locate((const uint8_t*) nullptr, 1), "locate-null", "a null needle was located");
  /* Whole-content comparison: with itself, every one-byte change, and a shorter and a longer string. */
  if (n > 0) {
    S t = s;
    MC_CHECK(1 == b.cmpBinString((uint8_t*) t.data(), n), "cmp-same", "%s does not equal itself", show(s, mask).c_str());
    for (int i = 0; i < n; i++) { t = s; t[i] ^= 1; MC_CHECK(0 == b.cmpBinString((uint8_t*) t.data(), n), "cmp-other", "%s equals %s", show(s, mask).c_str(), show(t, 0).c_str()); }
    t = s + "a"; MC_CHECK(0 == b.cmpBinString((uint8_t*) t.data(), n + 1), "cmp-longer", "%s equals %s", show(s, mask).c_str(), show(t, 0).c_str());
  }
  MC_CHECK(content(b) == s, "search-mutates", "searching changed %s to %s", show(s, mask).c_str(), show(content(b), 0).c_str());
}

static void replace(const S& al, int maxlen, int maxneedle) {
  int n = mc::range(0, maxlen);
  S s = pick_string(al, n);
  uint32_t mask = pick_mask(n);
  mc::op("replace in %s", show(s, mask).c_str());
  mc::count_state(s + (char) mask + (char) (mask >> 8));
  int64_t blocks = mc::live_blocks();
  static std::vector<S> needles; static S for_al; static int for_n = -1;
  if (for_al != al || for_n != maxneedle) { needles = all_strings(al, 0, maxneedle); for_al = al; for_n = maxneedle; blocks = mc::live_blocks(); }
  static const char* reps[] = {"", "x", "ab", "aab", "a", nullptr};
  {
    for (auto& nd : needles) for (auto rp : reps) {
      int cnt; S w = m_replace(s, nd, rp ? rp : "", &cnt);
      StringBuilder b; build(b, s, mask, false);
      int r = b.replace(nd.c_str(), rp);
      MC_CHECK(r == cnt, "replace-count", "replace(%s, %s) in %s returned %d, should be %d", nd.c_str(), rp ? rp : "null", show(s, mask).c_str(), r, cnt);
      MC_CHECK(content(b) == w, "replace", "replace(%s, %s) in %s gave %s, should be %s", nd.c_str(), rp ? rp : "null", show(s, mask).c_str(), show(content(b), 0).c_str(), show(w, 0).c_str());
      MC_CHECK(b.length() == (int) w.size(), "replace-length", "length after replace is wrong");
      MC_CHECK((0 == memcmp(b.string(), w.data(), w.size())) && (0 == b.string()[w.size()]), "replace-string", "string() after replace is wrong");
    }
    StringBuilder b; build(b, s, mask, true);
    MC_CHECK(0 == b.replace(nullptr, "x"), "replace-null", "replace(null) did not return 0");
    MC_CHECK(content(b) == s, "replace-null", "replace(null) changed the content");
  }
  mc::steps(needles.size() * 6);
  MC_CHECK(mc::live_blocks() == blocks, "leak", "%ld blocks were not released", (long) (mc::live_blocks() - blocks));
}

static void tokens(int maxlen) {
  static const S al = "a, \t";
  int n = mc::range(0, maxlen);
  S s = pick_string(al, n);
  uint32_t mask = pick_mask(n); bool ho = mc::flip();
  static const char* delims[] = {",", ", ", "a", "~", " \t"};
  const char* dl = mc::pick(delims);
  int64_t blocks = mc::live_blocks();
  {
    std::vector<S> w; S cur;
    for (char c : s + dl[0]) { if (strchr(dl, c)) { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += c; }
    StringBuilder b; build(b, s, mask, ho);
    int r = b.split(dl);
    mc::op("split %s by \"%s\" -> %d", show(s, mask).c_str(), dl, r);
    mc::count_state(s + (char) mask + dl);
    MC_CHECK(r == (int) w.size(), "split-ret", "split(\"%s\") of %s returned %d, should be %u", dl, show(s, mask).c_str(), r, (unsigned) w.size());
    if (!w.empty()) {
      MC_CHECK(b.count() == (int) w.size(), "split-count", "split(\"%s\") of %s left %d tokens, should be %u", dl, show(s, mask).c_str(), b.count(), (unsigned) w.size());
      for (size_t i = 0; i < w.size(); i++) {
        int l; uint8_t* p = b.position((int) i, &l);
        MC_CHECK(S((char*) p, l) == w[i] && w[i] == b.position((int) i), "split", "split(\"%s\") of %s: token %u is %s, should be %s", dl, show(s, mask).c_str(), (unsigned) i, show(S((char*) p, l), 0).c_str(), w[i].c_str());
      }
      MC_CHECK(0 == *b.position((int) w.size()), "split-past", "the position past the last token is not empty");
      int kind = (int) mc::choose(3);
      if (kind == 0) {          // join them again
        const char* j = mc::flip() ? "::" : ",";
        S jw; for (size_t i = 0; i < w.size(); i++) jw += (i ? j : "") + w[i];
        int ir = b.implode(j);
        mc::op("implode \"%s\" -> %d", j, ir);
        if (w.size() > 1) MC_CHECK(ir == (int) w.size(), "implode-ret", "implode() of %u tokens returned %d", (unsigned) w.size(), ir);
        MC_CHECK(content(b) == jw, "implode", "implode(\"%s\") of %s split by \"%s\" gave %s, should be %s", j, show(s, mask).c_str(), dl, show(content(b), 0).c_str(), jw.c_str());
        MC_CHECK(jw == (const char*) b.string(), "implode-string", "string() after implode is wrong");
      }
      else if (kind == 1) {     // trimmed
        for (size_t i = 0; i < w.size(); i++) {
          S t = w[i]; while (!t.empty() && isspace(t.back())) t.pop_back(); while (!t.empty() && isspace(t[0])) t.erase(0, 1);
          MC_CHECK(t == b.position_trimmed((int) i), "trimmed", "position_trimmed(%u) of token \"%s\" is \"%s\"", (unsigned) i, w[i].c_str(), b.position_trimmed((int) i));
        }
        mc::op("trimmed tokens");
      }
      else {                    // drop one
        int d = (int) mc::choose(w.size());
        MC_CHECK(b.drop_position(d), "drop", "drop_position(%d) failed", d);
        w.erase(w.begin() + d);
        MC_CHECK(b.count() == (int) w.size(), "drop-count", "%d tokens after dropping one", b.count());
        for (size_t i = 0; i < w.size(); i++) MC_CHECK(w[i] == b.position((int) i), "drop", "after drop_position(%d), token %u is wrong", d, (unsigned) i);
        mc::op("drop %d", d);
      }
    }
  }
  MC_CHECK(mc::live_blocks() == blocks, "leak", "%ld blocks were not released", (long) (mc::live_blocks() - blocks));
}

/* Joining arbitrary fragments. */
static void join(int maxlen) {
  int n = mc::range(0, maxlen);
  S s; for (int i = 0; i < n; i++) s += (char) (i == 2 ? 0 : 'a' + i);
  uint32_t mask = pick_mask(n); bool ho = mc::flip();
  static const char* delims[] = {",", "--", "", "12345", nullptr};
  const char* dl = mc::pick(delims);
  int64_t blocks = mc::live_blocks();
  {
    StringBuilder b; build(b, s, mask, ho);
    int fc = b.count();
    S w; for (int i = 0; i < n; i++) { w += s[i]; if ((i + 1 < n) && (mask & (1u << i)) && dl) w += dl; }
    int r = b.implode(dl);
    mc::op("implode(%s) of %s -> %d", dl ? dl : "null", show(s, mask).c_str(), r);
    MC_CHECK(content(b) == w, "implode", "implode(%s) of %s gave %s", dl ? dl : "null", show(s, mask).c_str(), show(content(b), 0).c_str());
    if (fc > 1 && dl && *dl) { MC_CHECK(r == fc, "implode-ret", "implode() of %d tokens returned %d", fc, r); MC_CHECK(b.count() == 1, "implode-count", "%d fragments after implode()", b.count()); }
  }
  MC_CHECK(mc::live_blocks() == blocks, "leak", "%ld blocks were not released", (long) (mc::live_blocks() - blocks));
}

static int sgn(int x) { return (x > 0) - (x < 0); }
static S lower(S s) { for (auto& c : s) c = (char) tolower(c); return s; }
static void nocase(int maxlen) {
  S a = pick_string("aAbZ1", mc::range(0, maxlen));
  static std::vector<S> bs; if (bs.empty()) bs = all_strings("aAbZ1", 0, 3);
  mc::op("caseless \"%s\"", a.c_str());
  for (auto& b : bs) {
    int r = StringBuilder::strcasecmp(a.c_str(), b.c_str());
    MC_CHECK(sgn(r) == sgn(::strcasecmp(a.c_str(), b.c_str())), "strcasecmp", "strcasecmp(\"%s\", \"%s\") is %d", a.c_str(), b.c_str(), r);
    if (!b.empty()) {
      char* p = StringBuilder::strcasestr(a.c_str(), b.c_str());
      size_t w = lower(a).find(lower(b));
      MC_CHECK((w == S::npos) ? (p == nullptr) : (p == a.c_str() + w), "strcasestr", "strcasestr(\"%s\", \"%s\") is at %d, should be %d", a.c_str(), b.c_str(), p ? (int) (p - a.c_str()) : -1, (int) w);
    }
  }
  mc::steps(bs.size());
}

/* Long haystacks, needles across a distant boundary. */
static void scale() {
  static const int at[] = {0, 1, 127, 255, 256, 300, 32767, 65535, 65536};
  int64_t blocks = mc::live_blocks();
  {
    int pos = mc::pick(at), frag = (int) mc::choose(3), tail = (int) mc::choose(3);
    static const S nd = "needle";
    S s((size_t) pos, 'n'); s += nd; s += S((size_t) tail * 200, 'e');
    StringBuilder b;
    if (frag == 0) b.concat((const uint8_t*) s.data(), (int) s.size());
    else { int cut = pos + (frag == 1 ? 3 : 0); if (cut) b.concat((const uint8_t*) s.data(), cut); b.concat((const uint8_t*) s.data() + cut, (int) s.size() - cut); }
    int r = b.locate(nd.c_str());
    mc::op("needle at %d, cut %d, tail %d -> %d", pos, frag, tail, r);
    MC_CHECK(r == pos, "scale-locate", "the needle at %d was located at %d", pos, r);
    int c; S w = m_replace(s, nd, "pin", &c);
    MC_CHECK(b.replace(nd.c_str(), "pin") == 1, "scale-replace", "replace() did not find the needle at %d", pos);
    MC_CHECK(content(b) == w, "scale-replace", "replace() of the needle at %d is wrong", pos);
  }
  MC_CHECK(mc::live_blocks() == blocks, "leak", "%ld blocks were not released", (long) (mc::live_blocks() - blocks));
}

/* Many tokens, long tokens, long delimiters: joined, and split again. */
static void scale_tokens() {
  static const int N[] = {1, 2, 127, 128, 129, 255, 256, 257, 1000, 4097}; static const int L[] = {1, 2, 127, 128, 255, 256, 300}; static const int D[] = {1, 2, 127, 128, 255, 256};
  const int n = mc::pick(N), l = mc::pick(L), d = mc::pick(D), how = mc::choose(2);
  if ((long) n * (l + d) > 1200000) throw mc::Prune();
  int64_t blocks = mc::live_blocks();
  {
    const S dl(d, ','); S w; StringBuilder b; std::vector<S> toks;
    for (int i = 0; i < n; i++) { S t(l, (char) ('a' + i % 26)); if (l > 5) { char q[8]; snprintf(q, sizeof(q), "%05d", i); memcpy(&t[0], q, 5); } toks.push_back(t); w += (i ? dl : S()) + t; }
    mc::op("%d tokens of %d, delimiter of %d, %s", n, l, d, how ? "split" : "joined"); mc::steps(n);
    if (how == 0) {
      for (auto& t : toks) b.concat((const uint8_t*) t.data(), (int) t.size());
      MC_CHECK(b.count() == n, "scale-count", "%d fragments, not %d", b.count(), n);
      int r = b.implode(dl.c_str());
      if (n > 1 && n * l >= 2) MC_CHECK(r == n, "scale-implode-ret", "implode() of %d tokens returned %d", n, r);
      MC_CHECK(content(b) == w, "scale-implode", "implode() of %d tokens of %d by a delimiter of %d is wrong", n, l, d);
    }
    else { b.concat((const uint8_t*) w.data(), (int) w.size()); }
    int r = b.split(","); MC_CHECK(r == n && b.count() == n, "scale-split", "split() found %d tokens and left %d, of %d", r, b.count(), n);
    for (int i = 0; i < n; i += 1 + n / 64) { int k = 0; uint8_t* p = b.position(i, &k); MC_CHECK(S((char*) p, k) == toks[i], "scale-token", "token %d of %d is wrong", i, n); }
    int k = 0; uint8_t* p = b.position(n - 1, &k); MC_CHECK(S((char*) p, k) == toks[n - 1], "scale-token", "the last token of %d is wrong", n);
    if (n > 2) { MC_CHECK(b.drop_position(n - 2) && b.count() == n - 1 && toks[n - 1] == b.position(n - 2), "scale-drop", "dropping token %d of %d went wrong", n - 2, n); }
  }
  MC_CHECK(mc::live_blocks() == blocks, "leak", "%ld blocks were not released", (long) (mc::live_blocks() - blocks));
}

int main(int argc, char** argv) {
  const bool T = mc::thorough;
  std::vector<mc::Config> c;
  c.emplace_back("search/2letters", [=]() { search("ab", T ? 9 : 7, T ? 5 : 4); }, 5, "contents of at most 7 (thorough 9) letters from {a,b}, every fragmentation, every needle up to 4 (thorough 5), every offset");
  c.emplace_back("search/binary", [=]() { search(S("\0\xFF", 2), T ? 6 : 5, 3); }, 4, "contents of at most 5 (thorough 6) bytes from {00,ff}");
  c.emplace_back("search/3letters", [=]() { search("abc", T ? 7 : 5, 3); }, 4, "contents of at most 5 (thorough 7) letters from {a,b,c}");
  c.emplace_back("replace/2letters", [=]() { replace("ab", T ? 8 : 6, T ? 4 : 3); }, 5, "contents of at most 6 (thorough 8) letters from {a,b}, every fragmentation, every needle up to 3 (thorough 4), six replacements");
  c.emplace_back("replace/3letters", [=]() { replace("abc", T ? 6 : 5, 3); }, 4, "contents of at most 5 (thorough 6) letters from {a,b,c}");
  c.emplace_back("tokens", [=]() { tokens(T ? 6 : 5); }, 4, "contents of at most 5 (thorough 6) letters from {a , space tab}, every fragmentation, five delimiter sets");
  c.emplace_back("join", [=]() { join(T ? 9 : 7); }, 4, "every fragmentation of at most 7 (thorough 9) bytes, five delimiters");
  c.emplace_back("caseless", [=]() { nocase(T ? 6 : 5); }, 3, "strings of at most 5 (thorough 6) from {a A b Z 1} against all of at most 3");
  c.emplace_back("scale-tokens", scale_tokens, 2, "1 to 4097 tokens of 1 to 300 bytes, delimiters of 1 to 256, joined and split");
  c.emplace_back("scale", scale, 2, "a needle at 0..65536");
  return mc::main(argc, argv, "C06", c, {"needles and delimiters given as text hold no null"});
}
