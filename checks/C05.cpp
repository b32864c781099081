/* C05: string builder edits behave as edits of one flat byte string. */
#include "mc.h"
#include "CppPotpourri.h"
#include "StringBuilder.h"
#include <string.h>
#include <stdlib.h>

typedef std::string S;
typedef std::vector<S> Frags;

static Frags layout(StringBuilder& b) {
  Frags f;
  for (int i = 0; i < b.count(); i++) { int n = -1; uint8_t* p = b.position(i, &n); MC_CHECK(p && n > 0, "fragment", "fragment %d has length %d", i, n); f.push_back(S((char*) p, n)); }
  return f;
}
static S flat(const Frags& f, size_t from = 0, size_t to = ~0u) { S r; for (size_t i = from; i < f.size() && i < to; i++) r += f[i]; return r; }

static void compare(StringBuilder& b, const S& m, const char* who, const char* after) {
  const int n = (int) m.size();
  MC_CHECK(b.length() == n, "length", "after %s: %s has length %d, model %d", after, who, b.length(), n);
  MC_CHECK(b.isEmpty() == (n == 0), "isEmpty", "after %s: %s isEmpty() is %d at length %d", after, who, b.isEmpty(), n);
  Frags f = layout(b);
  S fl = flat(f);
  MC_CHECK(fl == m, "content", "after %s: %s holds %s, model %s", after, who, mc::hex(fl).c_str(), mc::hex(m).c_str());
  int big = 0;
  for (auto& x : f) if ((int) x.size() > big) big = (int) x.size();
  MC_CHECK(b.maximumFragmentLength() == big, "maxfrag", "after %s: %s maximumFragmentLength() is %d, model %d", after, who, b.maximumFragmentLength(), big);
  MC_CHECK(b.isEmpty(false) == ((n == 0) || ((n == 1) && (m[0] == 0))), "isEmpty-loose", "after %s: %s isEmpty(false) is wrong", after, who);
  for (int i = 0; i < (int) f.size(); i++) { int l; uint8_t* p = b.position(i, &l); MC_CHECK(0 == p[l], "terminator", "after %s: fragment %d of %s is not followed by a null", after, i, who); }
  for (int i = 0; i < n; i++) MC_CHECK(b.byteAt(i) == (uint8_t) m[i], "byteAt", "after %s: %s byteAt(%d) is %02x of %s", after, who, i, b.byteAt(i), mc::hex(m).c_str());
  MC_CHECK(0 == b.byteAt(n), "byteAt-end", "after %s: %s byteAt(length) is not 0", after, who);
  MC_CHECK(0 == b.byteAt(n + 3), "byteAt-end", "after %s: %s byteAt(length + 3) is not 0", after, who);
  MC_CHECK(0 == b.byteAt(-1), "byteAt-neg", "after %s: %s byteAt(-1) is not 0", after, who);
  uint8_t buf[40];
  if (n < 24) for (int off = 0; off <= n + 1; off++) for (int lim = 0; lim <= n - off + 1; lim++) {
    memset(buf, 0xEE, sizeof(buf));
    int r = b.copyToBuffer(buf + 4, lim, off);
    int w = (off >= n) ? 0 : (n - off < lim ? n - off : lim);
    MC_CHECK(r == w, "copy-ret", "after %s: %s copyToBuffer(limit %d, offset %d) returned %d of %d", after, who, lim, off, r, n);
    MC_CHECK(0 == memcmp(buf + 4, m.data() + (off <= n ? off : n), w), "copy", "after %s: %s copyToBuffer(limit %d, offset %d) copied the wrong bytes", after, who, lim, off);
    MC_CHECK((buf[3] == 0xEE) && (buf[4 + w] == 0xEE), "copy-bounds", "after %s: %s copyToBuffer(limit %d, offset %d) wrote outside", after, who, lim, off);
  }
}

static uint8_t next_byte;
static S fresh(int n) {                 // distinguishable bytes, with 00 and FF among them
  static const uint8_t al[] = {'a', 0, 'B', 0xFF, '7', 0x80, ' ', 'z', '\n', 'Q', 1, '%', 'm'};
  S r;
  while (n--) { r += (char) al[next_byte % sizeof(al)]; next_byte++; }
  return r;
}
static S printable(int n) {
  S r;
  while (n--) { r += (char) ('a' + (next_byte % 26)); next_byte++; }
  return r;
}

struct Opt { unsigned depth, maxlen; bool prune; bool light; };

/* One edit of *A, with the help of *B. */
static const char* edit(StringBuilder& A, S& a, StringBuilder& B, S& b, const Opt& o, int op) {
  const int la = (int) a.size(), lb = (int) b.size();
  const int room = (int) o.maxlen - la;
  switch (op) {
    case 0: {
      int n = mc::range(0, 3); if (n > room) throw mc::Prune();
      S s = fresh(n); mc::op("concat(%s)", mc::hex(s).c_str());
      A.concat((const uint8_t*) s.data(), n); a += s; return "concat(buffer)"; }
    case 1: {
      int n = mc::range(0, 2); if (n > room) throw mc::Prune();
      S s = fresh(n); mc::op("prepend(%s)", mc::hex(s).c_str());
      A.prepend((uint8_t*) s.data(), n); a = s + a; return "prepend(buffer)"; }
    case 2: {
      int n = mc::range(1, 3); if (n > room) throw mc::Prune();
      S s = fresh(n); mc::op("concatHandoff(buffer %s)", mc::hex(s).c_str());
      uint8_t* p = (uint8_t*) malloc(n + 1); memcpy(p, s.data(), n); p[n] = 0;
      A.concatHandoff(p, n); a += s; return "concatHandoff(buffer)"; }
    case 3: {
      if (la + lb > (int) o.maxlen) throw mc::Prune();
      mc::op("concat(other)"); A.concat(&B); a += b; return "concat(other)"; }
    case 4: {
      if (la + lb > (int) o.maxlen) throw mc::Prune();
      mc::op("concatHandoff(other)"); A.concatHandoff(&B); a += b; b.clear(); return "concatHandoff(other)"; }
    case 5: {
      if (la + lb > (int) o.maxlen) throw mc::Prune();
      mc::op("prependHandoff(other)"); A.prependHandoff(&B); a = b + a; b.clear(); return "prependHandoff(other)"; }
    case 6: {
      int n = mc::range(0, lb + 1); int t = n < lb ? n : lb; if (t > room) throw mc::Prune();
      mc::op("concatHandoffLimit(other of %d, %d)", lb, n);
      A.concatHandoffLimit(&B, n); a += b.substr(0, t); b = b.substr(t); return "concatHandoffLimit"; }
    case 7: {
      int n = mc::range(0, lb + 1); int t = n < lb ? n : lb; if (t > room) throw mc::Prune();
      mc::op("concatLimit(other of %d, %d)", lb, n);
      A.concatLimit(&B, n); a += b.substr(0, t); return "concatLimit"; }
    case 8: {
      Frags f = layout(B);
      int fc = (int) f.size();
      int pos = mc::range(0, fc + 1), cnt = mc::range(0, fc + 1);
      int take = pos >= fc ? 0 : (cnt < fc - pos ? cnt : fc - pos);
      S t = flat(f, pos, pos + take); if ((int) t.size() > room) throw mc::Prune();
      int r = (cnt == 1 && mc::flip()) ? A.concatHandoffPositions(&B, pos) : A.concatHandoffPositions(&B, pos, cnt);
      mc::op("concatHandoffPositions(other, %d, %d) -> %d", pos, cnt, r);
      MC_CHECK(r == take, "positions-ret", "concatHandoffPositions(%d, %d) of %d fragments returned %d", pos, cnt, fc, r);
      a += t; b = flat(f, 0, pos) + (pos < fc ? flat(f, pos + take) : S()); return "concatHandoffPositions"; }
    case 9: {
      int n = mc::range(-1, la + 1);
      mc::op("cull(%d) of %d", n, la);
      A.cull(n); if (n > 0) a = (n >= la) ? S() : a.substr(n); return "cull(n)"; }
    case 10: {
      int off = mc::range(-1, la + 1), n = mc::range(0, la + 1);
      mc::op("cull(%d, %d) of %d", off, n, la);
      A.cull(off, n);
      if (n == 0) a.clear();
      else if ((off >= 0) && (off + n <= la)) a = a.substr(off, n);
      return "cull(offset, n)"; }
    case 11: mc::op("clear()"); A.clear(); a.clear(); return "clear()";
    case 12: {
      uint8_t* p = A.string();
      mc::op("string()");
      MC_CHECK(p, "string-null", "string() is null");
      MC_CHECK((0 == memcmp(p, a.data(), la)) && (0 == p[la]), "string", "string() is %s, model %s", mc::hex(p, la + 1).c_str(), mc::hex(a).c_str());
      MC_CHECK(A.count() <= 1, "string-collapse", "%d fragments after string()", A.count());
      return "string()"; }
    case 13: {
      Frags f = layout(A); int fc = (int) f.size();
      int pos = mc::range(0, fc);
      bool r = A.drop_position(pos);
      mc::op("drop_position(%d) of %d -> %d", pos, fc, r);
      MC_CHECK(r == (pos < fc), "drop-ret", "drop_position(%d) of %d fragments returned %d", pos, fc, r);
      if (pos < fc) a = flat(f, 0, pos) + flat(f, pos + 1);
      return "drop_position"; }
    case 14: {
      int n = mc::range(0, la + 1);
      int r = A.chunk(n);
      mc::op("chunk(%d) of %d -> %d", n, la, r);
      if (n == 0) { MC_CHECK(r < 0, "chunk-zero", "chunk(0) returned %d", r); return "chunk"; }
      Frags f = layout(A);
      if (la > 0) {
        int w = (la + n - 1) / n;
        MC_CHECK(r == w, "chunk-ret", "chunk(%d) of %d bytes returned %d", n, la, r);
        MC_CHECK((int) f.size() == w, "chunk-count", "chunk(%d) of %d bytes left %u fragments", n, la, (unsigned) f.size());
        for (int i = 0; i + 1 < w; i++) MC_CHECK((int) f[i].size() == n, "chunk-size", "chunk(%d) made a chunk of %u", n, (unsigned) f[i].size());
      }
      return "chunk"; }
    case 15: {
      if (la * 2 > (int) o.maxlen) throw mc::Prune();
      mc::op("concat(itself)"); A.concat(&A); a += S(a); return "concat(itself)"; }
    case 16: {
      if (room < 3) throw mc::Prune();
      S s = printable(1);
      switch (mc::choose(7)) {
        case 0: mc::op("concat(char)"); A.concat(s[0]); a += s; return "concat(char)";
        case 1: mc::op("concat(uint8)"); A.concat((uint8_t) 0); a += S(1, 0); return "concat(uint8)";
        case 2: s = printable(2); mc::op("concat(text)"); A.concat(s.c_str()); a += s; return "concat(text)";
        case 3: s = printable(2); mc::op("prepend(text)"); A.prepend(s.c_str()); a = s + a; return "prepend(text)";
        case 4: mc::op("concat(text \"\")"); A.concat(""); return "concat(empty)";
        case 5: { int r = A.concatf("%s-%d", s.c_str(), 4); mc::op("concatf() -> %d", r); a += s + "-4"; MC_CHECK(r == 3, "concatf-ret", "concatf() returned %d", r); return "concatf"; }
        case 6: mc::op("concat(int)"); A.concat((int) 42); a += "42"; return "concat(int)";
      }
    }
  }
  return "";
}

static void histories(const Opt& o) {
  int64_t blocks = mc::live_blocks();
  next_byte = 0;
  {
    StringBuilder A, B;
    {
      S a, b;
      for (unsigned d = 0; d < o.depth; d++) {
        if (o.prune) {
          std::string key;
          StringBuilder* both[2] = {&A, &B};
          for (auto x : both) { key += '|'; for (int i = 0; i < x->count(); i++) { int n; x->position(i, &n); key += (char) n; } key += (char) x->memoryCost(); }
          mc::state(key, o.depth - d);
        }
        int op = (int) mc::choose(o.light ? 15 : 17);
        bool sw = mc::flip();
        if (sw) mc::note("on the other one:");
        const char* name = sw ? edit(B, b, A, a, o, op) : edit(A, a, B, b, o, op);
        compare(A, a, "A", name);
        compare(B, b, "B", name);
      }
      MC_CHECK(0 == memcmp(A.string(), a.data(), a.size()) && (0 == A.string()[a.size()]), "string", "string() of A is wrong at the end");
      MC_CHECK(0 == memcmp(B.string(), b.data(), b.size()) && (0 == B.string()[b.size()]), "string", "string() of B is wrong at the end");
      compare(A, a, "A", "string()"); compare(B, b, "B", "string()");
    }
  }
  MC_CHECK(mc::live_blocks() == blocks, "leak", "%ld blocks were not released", (long) (mc::live_blocks() - blocks));
}

/* Every fragmentation (with copies and handoffs) of n bytes, then one edit, on one side or the other. */
static void layouts(int n) {
  int64_t blocks = mc::live_blocks();
  next_byte = (uint8_t) mc::choose(3);
  {
    StringBuilder A, B;
    {
      S a, b;
      Opt o = {1, (unsigned) n * 2 + 3, false, false};
      int side = (int) mc::choose(2);
      StringBuilder& X = side ? A : B; S& x = side ? a : b;
      int left = n;
      while (left) {
        int l = 1; while (l < left && mc::flip()) l++;
        S s = fresh(l);
        if (mc::flip()) { uint8_t* p = (uint8_t*) malloc(l + 1); memcpy(p, s.data(), l); p[l] = 0; X.concatHandoff(p, l); }
        else X.concat((const uint8_t*) s.data(), l);
        x += s; left -= l;
      }
      { S y = fresh(2); (side ? B : A).concat((const uint8_t*) y.data(), 2); (side ? b : a) += y; }
      for (int i = 0; i < 2; i++) {
        int op = i ? 12 : (int) mc::choose(15);
        const char* name = edit(A, a, B, b, o, op);
        compare(A, a, "A", name); compare(B, b, "B", name);
      }
    }
  }
  MC_CHECK(mc::live_blocks() == blocks, "leak", "%ld blocks were not released", (long) (mc::live_blocks() - blocks));
}

/* Long contents in a few fragments. */
static void scale() {
  static const int sizes[] = {1, 15, 255, 256, 257, 1000, 65535, 65537};
  int64_t blocks = mc::live_blocks();
  {
    int n1 = mc::pick(sizes), n2 = mc::pick(sizes);
    S s1, s2;
    for (int i = 0; i < n1; i++) s1 += (char) (i * 7 + (i >> 8));
    for (int i = 0; i < n2; i++) s2 += (char) (i * 11 + 3 + (i >> 8));
    StringBuilder A, B;
    A.concat((const uint8_t*) s1.data(), n1); A.concat((const uint8_t*) s2.data(), n2);
    S a = s1 + s2;
    int cuts[] = {1, n1 - 1, n1, n1 + 1, n1 + n2 - 1, n1 + n2, 256};
    int cut = mc::pick(cuts); if (cut < 0) cut = 0; if (cut > n1 + n2) cut = n1 + n2;
    int kind = (int) mc::choose(6);
    mc::op("fragments of %d and %d, kind %d at %d", n1, n2, kind, cut);
    S b;
    switch (kind) {
      case 0: B.concatHandoffLimit(&A, cut); b = a.substr(0, cut); a = a.substr(cut); break;
      case 1: A.cull(cut); a = a.substr(cut); break;
      case 2: if (cut == n1 + n2) throw mc::Prune(); A.cull(cut, n1 + n2 - cut); a = a.substr(cut); break;
      case 3: A.string(); break;
      case 4: B.concatLimit(&A, cut); b = a.substr(0, cut); break;
      case 5: if (cut < 200 && n1 + n2 > 2000) throw mc::Prune(); if (cut) A.chunk(cut); break;
    }
    uint8_t* buf = (uint8_t*) malloc(a.size() + 1);
    MC_CHECK((A.length() == (int) a.size()) && (B.length() == (int) b.size()), "scale-length", "lengths %d/%d, model %u/%u", A.length(), B.length(), (unsigned) a.size(), (unsigned) b.size());
    MC_CHECK(A.copyToBuffer(buf, a.size()) == (int) a.size() && 0 == memcmp(buf, a.data(), a.size()), "scale-content", "content of A is wrong");
    free(buf);
    MC_CHECK(0 == memcmp(A.string(), a.data(), a.size()), "scale-content", "content of A is wrong");
    MC_CHECK(0 == memcmp(B.string(), b.data(), b.size()), "scale-content", "content of B is wrong");
  }
  MC_CHECK(mc::live_blocks() == blocks, "leak", "%ld blocks were not released", (long) (mc::live_blocks() - blocks));
}

/* Constructors. */
static void ctors() {
  int64_t blocks = mc::live_blocks();
  {
    int n = mc::range(0, 5);
    next_byte = 0;
    S s = fresh(n), t = printable(n);
    StringBuilder a((const uint8_t*) s.data(), n), b((uint8_t*) s.data(), n), c(t.c_str()), d((char*) t.c_str());
    mc::op("construct from %d bytes", n);
    compare(a, s, "(const uint8_t*, int)", "construction"); compare(b, s, "(uint8_t*, int)", "construction");
    compare(c, t, "(const char*)", "construction"); compare(d, t, "(char*)", "construction");
    StringBuilder e((uint8_t*) nullptr, 3);
    compare(e, S(), "(null, 3)", "construction");
    char* dc = StringBuilder::deep_copy(t.c_str());
    MC_CHECK(dc && t == dc, "deep_copy", "deep_copy() is wrong"); free(dc);
    for (int k = 1; k <= n + 1; k++) { dc = StringBuilder::deep_copy(t.c_str(), k); MC_CHECK(dc && t.substr(0, k) == dc, "deep_copy", "deep_copy(%d) is wrong", k); free(dc); }
  }
  MC_CHECK(mc::live_blocks() == blocks, "leak", "%ld blocks were not released", (long) (mc::live_blocks() - blocks));
}

int main(int argc, char** argv) {
  const bool T = mc::thorough;
  std::vector<mc::Config> c;
  c.emplace_back("merged", [=]() { histories(Opt{T ? 8u : 6u, T ? 6u : 5u, true, true}); }, 4, "two builders of at most 5 (thorough 6) bytes, all histories to depth 6 (thorough 8), merged by fragment lengths and memory cost");
  c.emplace_back("flat", [=]() { histories(Opt{T ? 3u : 2u, 6, false, false}); }, 3, "every history of exactly 2 (thorough 3) edits from empty, states not merged");
  c.emplace_back("layouts", [=]() { layouts((int) mc::range(1, T ? 6 : 5)); }, 6, "every fragmentation, by copy or handoff, of 1..5 (thorough 6) bytes, then every edit, then string()");
  c.emplace_back("scale", scale, 2, "two fragments of 1..65537 bytes, one edit at each boundary");
  c.emplace_back("constructors", ctors, 1, "contents of 0..5 bytes");
  return mc::main(argc, argv, "C05", c, {"buffers handed over are null-terminated past their length, as the documentation asks", "a builder is not handed off to itself"});
}
