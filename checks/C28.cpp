/* C28: data records through their stored images; every truncation, every byte altered, every length of name, and histories of two records over two stored images. */
#include "../mc/mc.h"
#include "Storage/Storage.h"
#include <memory>
#include <vector>
#include <string>

typedef std::string Bytes;
static const unsigned BASE = 40, KEY = 16;
class Rec : public SimpleDataRecord {
  public:
    Rec(uint32_t tag = 0, StorageRecordType t = StorageRecordType::LOG) : SimpleDataRecord(tag, t) {}
    Bytes content; unsigned taken = 0; bool broken = false;
    int8_t serialize(StringBuilder* out, TCode f) { if (broken || f != TCode::CBOR) return -1; if (content.size()) out->concat((uint8_t*) &content[0], content.size()); return 0; }
    int8_t deserialize(StringBuilder* in, TCode f) { if (broken || f != TCode::CBOR) return -1; content = Bytes((char*) in->string(), in->length()); taken++; return 0; }
};
static Bytes bytes(StringBuilder& s) { return s.length() ? Bytes((char*) s.string(), s.length()) : Bytes(); }
static Bytes le(uint64_t v, unsigned n) { Bytes b; for (unsigned i = 0; i < n; i++) b += (char) (v >> 8 * i); return b; }
static uint32_t get32(const Bytes& b, unsigned at) { uint32_t v = 0; for (unsigned i = 4; i--;) v = v << 8 | (uint8_t) b[at + i]; return v; }
static Bytes save(Rec& r, uint32_t tag, const Bytes& name) { StringBuilder s; const int a = r.save(tag, name.c_str(), &s); mc::steps(1); MC_CHECK(a == 0, "save:answer", "save was answered %d", a); return bytes(s); }
static int load(Rec& r, uint32_t tag, const Bytes& b, unsigned how) {
  mc::steps(1);
  if (how == 0) { uint8_t* p = (uint8_t*) malloc(b.size()); memcpy(p, b.data(), b.size()); const int a = r.load(tag, p, b.size()); free(p); return a; }
  StringBuilder s;                                         // in one piece, or broken into pieces at how-1
  if (how > 1) s.concat((uint8_t*) b.data(), how - 1);
  if (how - 1 < b.size()) s.concat((uint8_t*) b.data() + how - 1, b.size() - (how - 1));
  return r.load(tag, &s);
}
static Bytes content_of(unsigned len, unsigned kind) { Bytes b; for (unsigned i = 0; i < len; i++) b += kind == 0 ? '\0' : kind == 1 ? '\xFF' : (char) (i * 37 + 11); return b; }
static Bytes key_of(const Bytes& name) { Bytes k = name.substr(0, KEY); k.resize(KEY, '\0'); return k; }
static void is(const Bytes& img, uint32_t tag, StorageRecordType t, const Bytes& name, const Bytes& content, uint64_t stamp) {
  const Bytes want = le(tag, 4) + le(1, 1) + le(0, 1) + le((uint8_t) t, 1) + le((uint8_t) TCode::CBOR, 1) + key_of(name) + le(content.size(), 4) + le(stamp, 8);
  MC_CHECK(img.size() == BASE + content.size() && img.substr(0, BASE - 4) == want && img.substr(BASE) == content, "save:image", "the image is %s, not %s, a hash and %s", mc::hex(img).c_str(), mc::hex(want).c_str(), mc::hex(content).c_str());
}
static const uint32_t TAGS[] = {0, 0x01020304, 0xFFFFFFFF, 0x80000000};

static void trip(unsigned most) {
  plat::reset(); const int64_t base = mc::live_blocks();
  {
    const unsigned len = mc::choose(most + 1), kind = len ? mc::choose(3) : 0; const uint32_t tag = TAGS[mc::choose(4)]; const StorageRecordType t = mc::flip() ? StorageRecordType::CONFIG_OBJ : StorageRecordType::FIRMWARE_BLOB;
    mc::op("%u bytes of kind %u, tag %08x", len, kind, tag);
    Rec a(0x55, t); a.content = content_of(len, kind); MC_CHECK(a.isDirty() && !a.wasLoaded() && a.recordType() == t, "new", "a new record is dirty %d, loaded %d", a.isDirty(), a.wasLoaded());
    const Bytes img = save(a, tag, "a name"); is(img, tag, t, "a name", a.content, 0); MC_CHECK(!a.isDirty() && !a.wasLoaded(), "save:clean", "after saving it is dirty %d, loaded %d", a.isDirty(), a.wasLoaded());
    for (unsigned how = 0; how <= img.size() + 1; how++) for (const char* more : {"", "x", "and more behind it"}) {
      if (how > 1 && *more && how < img.size()) continue;
      Rec b(tag, t); b.content = "other"; const int r = load(b, tag, img + more, how);
      MC_CHECK(r == 0 && b.taken == 1 && b.content == a.content, "load:own", "loading what was saved (as %u, followed by \"%s\") was answered %d, and gives %s", how, more, r, mc::hex(b.content).c_str());
      MC_CHECK(b.wasLoaded() && !b.isDirty() && b.hash() == a.hash() && b.timestamp() == 0, "load:state", "after loading it is dirty %d, loaded %d", b.isDirty(), b.wasLoaded());
      if (how == 1) { is(save(b, tag ^ 1, "other"), tag ^ 1, t, "other", a.content, 0); }
    }
    for (uint32_t other : {tag ^ 1, tag ^ 0x100, tag ^ 0x10000, tag ^ 0x80000000}) for (unsigned how = 0; how < 2; how++) { Rec b(tag, t); const int r = load(b, other, img, how); MC_CHECK(r < 0 && !b.taken, "load:tag", "an image of tag %08x was loaded as one of %08x: %d", tag, other, r); }
    for (unsigned o = 0; o < 256; o++) if (o != (unsigned) t) { Rec b(tag, (StorageRecordType) o); const int r = load(b, tag, img, o & 1); MC_CHECK(r < 0 && !b.taken, "load:type", "an image of type %u was loaded as one of %u: %d", (unsigned) t, o, r); }
    Rec b(tag, t); b.broken = true; for (unsigned how = 0; how < 2; how++) { const int r = load(b, tag, img, how); MC_CHECK(r < 0 && !b.wasLoaded(), "load:broken", "content was not accepted, but load was answered %d", r); }
    StringBuilder s; a.broken = true; MC_CHECK(a.save(tag, "a name", &s) == -2, "save:broken", "content could not be written, but save was not refused");
    for (int at : {28, 29, 30, 31, 32, 33, 34, 35}) { Bytes x = img; x[at] = (char) 0xA7; Rec c(tag, t); const int r = load(c, tag, x, at & 1); MC_CHECK(r == 0 && c.timestamp() == (uint64_t) 0xA7 << 8 * (at - 28), "load:stamp", "the time of creation is %llx", (unsigned long long) c.timestamp()); is(save(c, tag, "n"), tag, t, "n", c.content, (uint64_t) 0xA7 << 8 * (at - 28)); }
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks were not released", (long long) (mc::live_blocks() - base));
}
static void bent(unsigned most) {
  plat::reset(); const int64_t base = mc::live_blocks();
  {
    const unsigned len = mc::choose(most + 1), kind = len ? mc::choose(3) : 0; mc::op("%u bytes of kind %u", len, kind); const uint32_t tag = 0x01020304;
    Rec a(tag); a.content = content_of(len, kind); const Bytes img = save(a, tag, "a name");
    auto refused = [&](const Bytes& x, const char* what, unsigned at, unsigned v) { for (unsigned how = 0; how < 2; how++) { Rec b(tag); b.content = "other"; const int r = load(b, tag, x, how); MC_CHECK(r < 0 && !b.taken && b.content == "other" && !b.wasLoaded(), what, "%s %u (value %02x) was answered %d, and gave %s", what, at, v, r, mc::hex(b.content).c_str()); } };
    for (unsigned n = 0; n < img.size(); n++) refused(img.substr(0, n), "truncated", n, 0);
    for (unsigned at = 0; at < img.size(); at++) for (unsigned v = 0; v < 256; v++) if (v != (uint8_t) img[at]) {
      Bytes x = img; x[at] = (char) v; const bool told = at < 5 || at == 6 || at == 7 || (at >= 24 && at < 28) || at >= 36;     // not the flags, the name and the time of creation
      if (told) { refused(x, "corrupted", at, v); if (at >= 24 && at < 28) { refused(x + Bytes(300, 'y'), "corrupted", at, v); } }
      else for (unsigned how = 0; how < 2; how++) { Rec b(tag); const int r = load(b, tag, x, how); MC_CHECK(r < 0 || b.content == a.content, "corrupted:content", "with byte %u altered to %02x, %s is delivered", at, v, mc::hex(b.content).c_str()); }
    }
    for (uint32_t l : {0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 0xFFFFFFFFu - BASE + 1, (uint32_t) img.size()}) { Bytes x = img.substr(0, 24) + le(l, 4) + img.substr(28); refused(x, "corrupted", 24, 0); }
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks were not released", (long long) (mc::live_blocks() - base));
}
static void names(unsigned most) {
  plat::reset(); const unsigned len = mc::choose(most + 1); Bytes n; for (unsigned i = 0; i < len; i++) n += (char) ('a' + i % 26); mc::op("a name of %u", len);
  Rec a(7); a.content = Bytes("\xFF\xFF\xFF\xFF", 4); StringBuilder s; s.clear();
  if (!len) { MC_CHECK(a.save(7, "", &s) == -1 && s.isEmpty(), "name:empty", "a record with no name was saved"); return; }
  save(a, 7, "a much longer name than this"); const Bytes img = save(a, 7, n); is(img, 7, StorageRecordType::LOG, n, a.content, 0);
  Rec b(7); MC_CHECK(load(b, 7, img, 1) == 0, "load:own", "it was not loaded"); StringBuilder d; b.printDebug(&d); const Bytes line = bytes(d), want = "Key:\t " + n.substr(0, KEY) + "\n";
  MC_CHECK(line.find(want) != Bytes::npos, "name:shown", "the description is %s", mc::hex(line).c_str());
}
/* Contents longer than any small length field. */
static void large() {
  plat::reset(); static const unsigned LEN[] = {255, 256, 257, 4096, 65535, 65536, 65537, 131072 + 3, 0x12345, 0x1020304}; const unsigned len = mc::pick(LEN); const int64_t base = mc::live_blocks(); mc::op("%u bytes", len);
  {
    Rec a(7); a.content = content_of(len, 2); const Bytes img = save(a, 7, "n"); is(img, 7, StorageRecordType::LOG, "n", a.content, 0);
    for (unsigned how : {0u, 1u, 100u}) { Rec b(7); const int r = load(b, 7, img, how); MC_CHECK(r == 0 && b.taken == 1 && b.content == a.content && !b.isDirty() && b.hash() == a.hash(), "load:own", "loading %u bytes (as %u) was answered %d, and gave %zu bytes", len, how, r, b.content.size()); }
    for (unsigned cut : {1u, 256u, 65536u}) if (cut < len) { Rec b(7); const int r = load(b, 7, img.substr(0, img.size() - cut), cut & 1); MC_CHECK(r < 0 && !b.taken, "truncated", "%u of %u bytes were loaded: %d", len - cut, len, r); }
    for (unsigned at : {0u, len / 2, len - 1}) { Bytes x = img; x[BASE + at] ^= 1; Rec b(7); const int r = load(b, 7, x, at & 1); MC_CHECK(r < 0 && !b.taken, "corrupted", "%u bytes with byte %u altered were loaded: %d", len, at, r); }
    Rec c(7); c.content = a.content; c.content[len - 1] ^= 0x10; const Bytes other = save(c, 7, "n"); MC_CHECK(get32(other, 36) != get32(img, 36), "hash:same", "two contents of %u bytes that differ in the last have the same hash", len);
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks were not released", (long long) (mc::live_blocks() - base));
}
/* Two records over two stored images. */
static void histories(unsigned depth) {
  plat::reset();
  struct M { Bytes content; bool known; bool clean; Bytes saved; bool loaded; } m[2] = {{"AAAA", false, false, "", false}, {"", false, false, "", false}};
  struct I { bool there, whole; uint32_t tag; Bytes content; } im[2] = {};
  Rec r0(1), r1(1); Rec* r[2] = {&r0, &r1}; r0.content = "AAAA"; Bytes img[2]; const Bytes SET[] = {"AAAA", "AABA", "ABAA", ""};
  for (unsigned d = 0; d < depth; d++) {
    const unsigned k = mc::choose(13);
    const unsigned w = k & 1, slot = k >> 1 & 1;
    if (k < 4) { const Bytes c = SET[mc::choose(4)]; mc::op("record %u := %s", w, c.c_str()); r[w]->content = c; m[w].content = c; if (k >= 2) { m[1 - w].content = r[1 - w]->content = c; } }
    else if (k < 8) { const uint32_t tag = 1 + mc::choose(2); mc::op("save record %u in %u, tag %u", w, slot, tag); img[slot] = save(*r[w], tag, "n"); im[slot] = {true, true, tag, m[w].content}; m[w].clean = m[w].known = true; m[w].saved = m[w].content; }
    else if (k < 12) {
      const uint32_t tag = 1 + mc::choose(2); const unsigned how = mc::choose(2); mc::op("load record %u from %u, tag %u", w, slot, tag); if (!im[slot].there) throw mc::Prune();
      const unsigned before = r[w]->taken; const int a = load(*r[w], tag, img[slot], how); const bool ok = im[slot].whole && im[slot].tag == tag;
      MC_CHECK((a == 0) == ok && r[w]->taken == before + ok, "load:answer", "load was answered %d", a);
      if (ok) { m[w].content = m[w].saved = im[slot].content; m[w].known = true; m[w].loaded = true; } else m[w].known = m[w].loaded = false;
      if (!ok) m[w].known = false;
    }
    else { const unsigned s = mc::choose(2); if (!im[s].there || !im[s].whole || im[s].content.empty()) throw mc::Prune(); im[s].whole = false; if (mc::flip()) { mc::op("a byte of image %u is altered", s); img[s][img[s].size() - 2] ^= 4; } else { mc::op("image %u loses its last byte", s); img[s].resize(img[s].size() - 1); } }
    for (unsigned i = 0; i < 2; i++) {
      MC_CHECK(r[i]->content == m[i].content, "content", "record %u holds %s", i, r[i]->content.c_str());
      if (m[i].known) MC_CHECK(r[i]->isDirty() == (m[i].content != m[i].saved), "dirty", "record %u (holding %s, %s when last stored) is dirty %d", i, m[i].content.c_str(), m[i].saved.c_str(), r[i]->isDirty());
      if (m[i].loaded) MC_CHECK(r[i]->wasLoaded(), "loaded", "record %u was loaded, but denies it", i);
    }
    std::string key; for (unsigned i = 0; i < 2; i++) { key += m[i].content + "," + (m[i].known ? m[i].saved : "?") + "," + (m[i].loaded ? "l" : "") + ","; key += mc::hex(img[i]) + ";"; }
    mc::state(key, depth - d);
  }
}
int main(int argc, char** argv) {
  const bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  std::vector<mc::Config> c;
  c.push_back({"trip", [=]{ trip(th ? 400 : 70); }, 3, "contents of 0..70 bytes (thorough 400) of three kinds, four tags, two types; loaded from a plain buffer and from a string broken at every place, alone and with more behind it, as other tags and all other types"});
  c.push_back({"bent", [=]{ bent(th ? 96 : 24); }, 2, "contents of 0..24 bytes (thorough 96): every truncation, every value of every byte, and extreme lengths"});
  c.push_back({"names", [=]{ names(th ? 70000 : 600); }, 1, "names of every length to 600 (thorough 70000)"});
  c.push_back({"large", large, 1, "contents of ten lengths around 256 bytes, 64 KiB, 128 KiB and beyond 16 MiB"});
  c.push_back({"histories", [=]{ histories(th ? 7 : 5); }, 2, "every history of 5 (thorough 7) alterations, saves, loads, and corruptions of two records over two images and two tags"});
  return mc::main(argc, argv, "C28", c, {"the storage drivers and DataRecord (whose load() is not implemented in the project) are out of scope", "the name, the flags and the time of creation are not covered by the record's hash"});
}
