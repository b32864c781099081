/* C18: key-value maps keep, find and drop exactly the right pairs. */
#include "cborval.h"

using val::S; using val::L;

struct Pair { S key; bool named; int kind; };            // an unnamed pair has no key at all
static const char* KEYS[] = {"a", "ab", "b", "a key that is longer than twenty-three bytes"};
enum { KINDS = 7 };
static S want(int kind) {
  switch (kind) {
    case 0: return "i7"; case 1: return "i-70000"; case 2: return "s74657874"; case 3: return "{'61=i1}"; case 4: return "b010203"; case 5: return "v61:0100feff0300"; default: return "i300";
  }
}
static uint8_t BLOB[] = {1, 2, 3};
static KeyValuePair* make(const char* key, bool copied, int kind) {
  char tmp[64]; if (key) strcpy(tmp, key);
  KeyValuePair* r = nullptr;
  Vector3u16 v(1, 0xFFFE, 3);
  #define MK(X) (copied && key ? new KeyValuePair(tmp, X) : new KeyValuePair(key, X))
  switch (kind) {
    case 0: r = MK((uint8_t) 7); break;
    case 1: r = MK((int32_t) -70000); break;
    case 2: r = MK("text"); break;
    case 3: { KeyValuePair* n = new KeyValuePair("a", (uint8_t) 1); r = MK(n); r->reapValue(true); break; }
    case 4: r = copied && key ? new KeyValuePair(tmp, BLOB, 3) : new KeyValuePair(key, BLOB, 3); break;
    case 5: r = MK(&v); break;
    default: r = MK((uint16_t) 300); break;
  }
  #undef MK
  memset(tmp, 'Z', sizeof(tmp));
  return r;
}
/* Each pair by itself. */
static S one(KeyValuePair* p) { return val::one(p, 0); }
static S spell(const Pair& p) { return "'" + (p.named ? mc::hex(p.key) : S("?")) + "=" + want(p.kind); }
static S all(const std::vector<Pair>& m) { S r; for (auto& p : m) r += (r.empty() ? "" : ";") + spell(p); return r; }

static void examine(KeyValuePair* root, const std::vector<Pair>& m, const char* after) {
  MC_CHECK(root->count() == m.size(), "count", "after %s, the map counts %u pairs, not %zu", after, root->count(), m.size());
  const S got = val::show(root);
  MC_CHECK(got == all(m), "content", "after %s, the map reads %s, not %s", after, got.c_str(), all(m).c_str());
  // by key: the first that has it
  static const char* PROBE[] = {"a", "ab", "b", "a key that is longer than twenty-three bytes", "", "A", "abc", "absent"};
  for (const char* k : PROBE) {
    const Pair* w = nullptr; for (auto& p : m) if (p.named && p.key == k) { w = &p; break; }
    KeyValuePair* f = root->valueWithKey(k);
    MC_CHECK((f != nullptr) == (w != nullptr), "lookup", "after %s, \"%s\" %s", after, k, f ? "is found, but was never put or was dropped" : "is not found");
    if (f) MC_CHECK(one(f) == spell(*w), "lookup", "after %s, \"%s\" yields %s, not %s", after, k, one(f).c_str(), spell(*w).c_str());
    // and into a variable of the value's own type
    alignas(8) uint8_t raw[32]; memset(raw, 0xA5, sizeof(raw));
    if (!w || w->kind == 0 || w->kind == 1 || w->kind == 2 || w->kind == 6) {
      const int r = root->valueWithKey(k, (void*) raw); size_t len = 0; bool same = true;
      if (w) switch (w->kind) {
        case 0: len = 1; same = raw[0] == 7; break;
        case 1: { int32_t x; memcpy(&x, raw, len = 4); same = x == -70000; break; }
        case 6: { uint16_t x; memcpy(&x, raw, len = 2); same = x == 300; break; }
        default: { char* x; memcpy(&x, raw, len = sizeof(x)); same = r == 0 && !strcmp(x, "text"); break; }
      }
      MC_CHECK((r == 0) == (w != nullptr) && same, "lookup", "after %s, \"%s\" read into a variable returned %d%s", after, k, r, same ? "" : ", and another value");
      for (size_t i = len; i < sizeof(raw); i++) MC_CHECK(raw[i] == 0xA5, "lookup", "after %s, reading \"%s\" wrote beyond its type", after, k);
    }
  }
  MC_CHECK(root->valueWithKey(nullptr) == nullptr, "lookup", "no key finds a pair");
  // by position
  for (unsigned i = 0; i < m.size() + 2; i++) {
    C3PValue* v = root->valueWithIdx(i);
    MC_CHECK((v != nullptr) == (i < m.size()), "index", "after %s, position %u of %zu %s", after, i, m.size(), v ? "yields a value" : "yields nothing");
    if (v) MC_CHECK(one((KeyValuePair*) v) == spell(m[i]), "index", "after %s, position %u yields %s", after, i, one((KeyValuePair*) v).c_str());
  }
  // the keys, in order
  StringBuilder keys; const int n = root->collectKeys(&keys);
  unsigned named = 0; L ks; for (auto& p : m) if (p.named) { named++; ks.push_back(p.key); }
  MC_CHECK(n == (int) named && keys.count() == (int) named, "keys", "after %s, %d keys in %d pieces were collected of %u", after, n, keys.count(), named);
  for (unsigned i = 0; i < named; i++) MC_CHECK(ks[i] == (const char*) keys.position((int) i), "keys", "after %s, key %u is %s", after, i, keys.position((int) i));
  mc::steps(1);
}
static S rendered(const std::vector<Pair>& m) {          // what survives packing: the pairs with keys
  S r; for (auto& p : m) if (p.named && !p.key.empty()) r += (r.empty() ? "" : ";") + spell(p);
  return r;
}
static void pack(KeyValuePair* root, const std::vector<Pair>& m, const char* after) {
  const S w = rendered(m);
  StringBuilder out; const int r = root->serialize(&out, TCode::CBOR);
  const S e((char*) out.string(), (size_t) out.length());
  if (w.empty()) { MC_CHECK(r != 0 && e.empty(), "pack", "after %s, a map without keys packs to %s", after, mc::hex(e).c_str()); return; }
  MC_CHECK(r == 0, "pack", "after %s, packing returned %d", after, r);
  size_t at = 0; L got; const int rr = val::read(e, at, got);
  MC_CHECK(rr && at == e.size() && val::join(got) == w, "pack", "after %s, the map is packed as %s, which means %s, not %s", after, mc::hex(e).c_str(), val::join(got).c_str(), w.c_str());
  KeyValuePair* b = KeyValuePair::unserialize((uint8_t*) e.data(), e.size(), TCode::CBOR);
  MC_CHECK(b, "unpack", "after %s, what it packs to does not unpack", after);
  MC_CHECK(val::show(b) == w, "unpack", "after %s, the map unpacks as %s, not %s", after, val::show(b).c_str(), w.c_str());
  delete b;
  C3PValueDecoder d(&out); C3PValue* v = d.next();
  MC_CHECK(v && v->has_key() && val::show(v) == w && out.length() == 0, "unpack", "after %s, the map parses as %s, not %s", after, v ? val::show(v).c_str() : "nothing", w.c_str());
  delete v;
  // printed, every key appears, in order, the nested ones in their place
  StringBuilder text; root->serialize(&text, TCode::STR);
  const S t = (char*) text.string(); size_t pos = 0;
  for (auto& p : m) {
    if (p.named && !p.key.empty()) { pos = t.find(p.key + ":", pos); MC_CHECK(pos != S::npos, "print", "after %s, the map prints as %s, without %s", after, t.c_str(), p.key.c_str()); pos += p.key.size(); }
    if (p.kind == 3) { pos = t.find("a: 1", pos); MC_CHECK(pos != S::npos, "print", "after %s, the map prints as %s, without its nested map", after, t.c_str()); pos += 4; }
    if (p.kind == 1) { pos = t.find("-70000", pos); MC_CHECK(pos != S::npos, "print", "after %s, the map prints as %s, without -70000", after, t.c_str()); }
    if (p.kind == 2) { pos = t.find("text", pos); MC_CHECK(pos != S::npos, "print", "after %s, the map prints as %s, without its text", after, t.c_str()); }
  }
}

static unsigned NK, NV;
static void history(unsigned depth) {
  { static bool primed = false; if (!primed) { primed = true; for (int i = 0; i < KINDS; i++) { KeyValuePair* p = make("k", false, i); std::vector<Pair> m = {{"k", true, i}}; examine(p, m, "start"); pack(p, m, "start"); delete p; } } }
  const int64_t base = quiet_blocks();
  KeyValuePair* root = nullptr; std::vector<Pair> m;
  char how[160];
  for (unsigned step = 0; step < depth; step++) {
    S st; for (auto& p : m) st += spell(p) + ",";
    mc::state(st, depth - step);
    if (!root) {
      const unsigned k = mc::choose(NK), kind = mc::choose(NV); const bool copied = mc::flip();
      snprintf(how, sizeof(how), "starting with %s (%s), kind %u", KEYS[k], copied ? "copied" : "by reference", kind); mc::op("%s", how);
      root = make(KEYS[k], copied, kind); root->reapContainer(true); m.push_back({KEYS[k], true, (int) kind});
    }
    else switch (mc::choose(5)) {
      case 0: {                                          // one more pair, perhaps without a key
        const unsigned k = mc::choose(NK + 1), kind = mc::choose(NV); const bool copied = k < NK && mc::flip();
        const char* key = k < NK ? KEYS[k] : nullptr;
        snprintf(how, sizeof(how), "appending %s (%s), kind %u", key ? key : "no key", copied ? "copied" : "by reference", kind); mc::op("%s", how);
        root->link(make(key, copied, (int) kind)); m.push_back({key ? key : "", key != nullptr, (int) kind});
        break;
      }
      case 1: {                                          // another value of the same type under a key
        const unsigned k = mc::choose(NK); KeyValuePair* f = root->valueWithKey(KEYS[k]);
        if (!f) throw mc::Prune();
        unsigned i = 0; while (!m[i].named || m[i].key != KEYS[k]) i++;
        if (m[i].kind != 6 && m[i].kind != 1 && m[i].kind != 0) throw mc::Prune();
        snprintf(how, sizeof(how), "setting %s", KEYS[k]); mc::op("%s", how);
        if (m[i].kind == 0) { MC_CHECK(f->set((uint16_t) 300) != 0, "set", "300 was put into a byte"); }
        else { MC_CHECK(f->set((uint8_t) 7) == 0, "set", "7 was not put"); MC_CHECK(one(f) == "'" + mc::hex(m[i].key) + "=i7", "set", "after setting 7, the pair reads %s", one(f).c_str()); if (m[i].kind == 1) f->set((int32_t) -70000); else f->set((uint16_t) 300); }
        break;
      }
      case 2: {                                          // dropping by key
        const unsigned k = mc::choose(NK); KeyValuePair* f = root->valueWithKey(KEYS[k]);
        snprintf(how, sizeof(how), "dropping %s", KEYS[k]); mc::op("%s", how);
        if (!f) {                                        // not one of its pairs: nothing may happen
          KeyValuePair other(KEYS[k], (uint8_t) 1);
          C3PValue* r = root; MC_CHECK(root->drop(&r, &other, true) != 0 && r == root, "drop", "a pair that is not in the map was dropped");
          break;
        }
        unsigned i = 0; while (!m[i].named || m[i].key != KEYS[k]) i++;
        C3PValue* r = root;
        const int rr = root->drop(&r, f, true);
        MC_CHECK(rr == 0, "drop", "dropping \"%s\" returned %d", KEYS[k], rr);
        root = (KeyValuePair*) r; m.erase(m.begin() + i);
        MC_CHECK((root == nullptr) == m.empty(), "drop", "after dropping \"%s\", the map is %s", KEYS[k], root ? "not empty" : "empty");
        break;
      }
      case 3: {                                          // renaming
        const unsigned i = mc::choose((uint32_t) m.size()), k = mc::choose(NK + 1); const bool copied = mc::flip();
        if (k == NK) {                                   // taking its key away
          snprintf(how, sizeof(how), "taking the key of pair %u away (%s)", i, copied ? "char*" : "const char*"); mc::op("%s", how);
          KeyValuePair* p = (KeyValuePair*) root->valueWithIdx(i);
          if (copied) p->setKey((char*) nullptr); else p->setKey((const char*) nullptr);
          m[i].key = ""; m[i].named = false;
          break;
        }
        snprintf(how, sizeof(how), "renaming pair %u to %s (%s)", i, KEYS[k], copied ? "copied" : "by reference"); mc::op("%s", how);
        KeyValuePair* p = (KeyValuePair*) root->valueWithIdx(i);
        char tmp[64]; strcpy(tmp, KEYS[k]);
        const int r = copied ? p->setKey(tmp) : p->setKey((const char*) KEYS[k]);
        MC_CHECK(r == 0, "rename", "setting a key returned %d", r);
        memset(tmp, 'Z', sizeof(tmp)); m[i].key = KEYS[k]; m[i].named = true;
        break;
      }
      case 4: {                                          // another map, appended whole
        const unsigned k = mc::choose(NK), l = mc::choose(NK);
        snprintf(how, sizeof(how), "appending the map {%s, %s}", KEYS[k], KEYS[l]); mc::op("%s", how);
        KeyValuePair* o = make(KEYS[k], true, 6); o->link(make(KEYS[l], false, 3));
        root->link(o); m.push_back({KEYS[k], true, 6}); m.push_back({KEYS[l], true, 3});
        break;
      }
    }
    if (root) { examine(root, m, how); pack(root, m, how); }
  }
  if (root) delete root;
  std::vector<Pair>().swap(m);
  MC_CHECK(quiet_blocks() == base, "leak", "after %s and release, %lld blocks are left", how, (long long) (quiet_blocks() - base));
}

/* unserialize() of anything at all: safe, releases what it takes, and maps come as the bytes say. */
static void hostile(const S& b) {
  const int64_t base = quiet_blocks();
  {
    S* heap = new S(b);                                  // the input is gone when the result is used
    KeyValuePair* k = KeyValuePair::unserialize((uint8_t*) heap->data(), heap->size(), TCode::CBOR);
    delete heap;
    size_t at = 0; L w; const int r = b.empty() ? 0 : val::read(b, at, w);
    const bool map = !b.empty() && ((uint8_t) b[0] >> 5) == 5;
    if (map) {
      MC_CHECK((k != nullptr) == (r != 0), k ? "invented" : "lost", "unpacking %s yields %s", mc::hex(b).c_str(), k ? val::show(k).c_str() : "nothing");
      if (r == 1) MC_CHECK(val::show(k) == val::join(w), "unpack", "%s unpacks as %s, not %s", mc::hex(b).c_str(), val::show(k).c_str(), val::join(w).c_str());
    }
    if (k) { val::show(k); delete k; }
  }
  MC_CHECK(quiet_blocks() == base, "leak", "unpacking %s: %lld blocks not released", mc::hex(b).c_str(), (long long) (quiet_blocks() - base));
  mc::steps(1);
}
static void bytes(unsigned full, unsigned reduced) {
  static const uint8_t SET[] = {0x00, 0x01, 0x17, 0x18, 0x19, 0x1b, 0x20, 0x38, 0x3a, 0x40, 0x41, 0x43, 0x58, 0x5a, 0x60, 0x61, 0x62, 0x78, 0x7b, 0x80, 0x81, 0x82, 0x9f, 0xa0, 0xa1, 0xa2, 0xb8, 0xbf, 0xc1, 0xd8, 0xd9, 0xda, 0xe9, 0xf4, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa, 0xfb, 0xff};
  S b; for (unsigned i = 0; i < full; i++) b += (char) mc::choose(256);
  for (unsigned i = 0; i < reduced; i++) b += (char) mc::pick(SET);
  mc::op("unpacking %s", mc::hex(b).c_str());
  hostile(b);
}
/* Values one after another, of no map, come as a list of them. */
static void listed(unsigned n) {
  struct V { const char* b; size_t n; const char* w; };
  #define V_(B, W) {B, sizeof(B) - 1, W}
  static const V VAL[] = {V_("\x00", "i0"), V_("\x17", "i23"), V_("\x18\xff", "i255"), V_("\x19\x01\x00", "i256"), V_("\x1a\xff\xff\xff\xfe", "i4294967294"), V_("\x20", "i-1"), V_("\x38\xff", "i-256"), V_("\x3a\x00\x01\x00\x00", "i-65537"),
    V_("\x61" "a", "s61"), V_("\x60", "s"), V_("\x65" "hello", "s68656c6c6f"), V_("\x42\x01\x00", "b0100"), V_("\xfa\x3f\xc0\x00\x00", "f3fc00000"), V_("\xf5", "T"), V_("\xf4", "F")};
  S b, w;
  for (unsigned i = 0; i < n; i++) { const V& v = mc::pick(VAL); b.append(v.b, v.n); w += (w.empty() ? "'?=" : ";'?=") + S(v.w); }
  mc::op("unpacking %s", mc::hex(b).c_str());
  const int64_t base = quiet_blocks();
  { S* heap = new S(b); KeyValuePair* k = KeyValuePair::unserialize((uint8_t*) heap->data(), heap->size(), TCode::CBOR); delete heap;
    MC_CHECK(k, "list", "%s unpacks as nothing", mc::hex(b).c_str());
    MC_CHECK(val::show(k) == w, "list", "%s unpacks as %s, not %s", mc::hex(b).c_str(), val::show(k).c_str(), w.c_str());
    delete k; }
  MC_CHECK(quiet_blocks() == base, "leak", "unpacking %s: blocks were not released", mc::hex(b).c_str());
  mc::steps(1);
}
static void cut() {                                      // maps and bare values, cut short or with a byte altered
  static const std::vector<S> M = [] {
    auto T = [](const char* s) { return ref::text(s); };
    std::vector<S> m;
    m.push_back(ref::head(5, 3) + T("a") + ref::integer(1) + T("ab") + T("two") + T("b") + ref::bytes("xyz"));
    m.push_back(ref::head(5, 2) + T("a") + ref::head(5, 2) + T("b") + ref::integer(-3) + T("c") + ref::head(5, 1) + T("d") + ref::f32(1.5f) + T("e") + "\xf6");
    m.push_back(ref::head(5, 2) + T("v") + ref::head(6, 0xE900 + 0x3D, 4) + ref::head(6, 69) + ref::bytes("123456") + T("n") + ref::integer(5));
    m.push_back(ref::head(4, 3) + ref::integer(1) + T("x") + ref::bytes("yy"));
    m.push_back(ref::integer(300) + T("abc") + ref::bytes("blob") + ref::f64(2.5) + "\xf5");
    m.push_back(ref::head(6, 0xE900 + 0xE0, 4) + ref::bytes(ref::head(5, 1) + T("a") + ref::integer(1)) + ref::integer(2));
    for (int t : {1, 2, 3, 4, 6, 7, 8, 9, 0x0b, 0x0c, 0x0d, 0x38, 0x39, 0x3a, 0x3b, 0x3c, 0x3d, 0x3e, 0x3f, 0x50, 0x51, 0xe1, 0xe6, 0xe9}) for (unsigned n : {0, 1, 2, 3, 4, 6, 8, 12, 24}) m.push_back(ref::head(6, 0xE900 + (unsigned) t, 4) + ref::bytes(S(n, '1')));
    return m;
  }();
  S b = mc::pick(M);
  switch (mc::choose(2)) {
    case 0: b = b.substr(0, mc::choose((uint32_t) b.size() + 1)); break;
    case 1: { const unsigned at = mc::choose((uint32_t) b.size()); b[at] = (char) mc::choose(256); break; }
  }
  mc::op("unpacking %s", mc::hex(b).c_str());
  hostile(b);
}

int main(int argc, char** argv) {
  const bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  std::vector<mc::Config> c;
  c.push_back({"histories", [=]{ NK = 3; NV = 4; history(th ? 4 : 3); }, 3, "histories of 3 (4) steps: starting, appending, setting, dropping, renaming, appending whole maps; 3 keys, 4 kinds of value, keys copied or not"});
  c.push_back({"kinds", [=]{ NK = 4; NV = KINDS; history(3); }, 3, "histories of 3 steps with 4 keys and 7 kinds of value"});
  c.push_back({"listed", [=]{ listed(1 + mc::choose(3)); }, 2, "every sequence of up to three of 15 plain values, unpacked as a list"});
  c.push_back({"cut", cut, 2, "every truncation and every one-byte alteration of 222 packed maps, lists and tagged blobs"});
  c.push_back({"bytes", [=]{ bytes(2, th ? 2 : 1); }, 2, "every string of two bytes and one (two) more from 41 chosen ones"});
  return mc::main(argc, argv, "C18", c, {
    "a key put twice is found as it was put first; pairs without a key are not packed", "lookup is by exact key", "unpacking what is not a map is only checked for memory safety and release"});
}
