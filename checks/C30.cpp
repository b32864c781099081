/* C30: identities through their stored form; every truncation, every byte altered, and every flag, against an independent reading of the format. */
#include "../mc/mc.h"
#include "Identity/Identity.h"
#include <memory>
#include <vector>
#include <string>

typedef std::string Bytes;
static const unsigned HEADER = 5, ID = 16, UNSTORED = 0x8000 | 0x0080 | 0x0020;
static Bytes stored(unsigned flags, unsigned format, const Bytes& name, const Bytes& id, int extra = 0) {
  const unsigned len = HEADER + name.size() + 1 + id.size() + extra; Bytes b;
  b += (char) (len >> 8); b += (char) len; b += (char) (flags >> 8); b += (char) flags; b += (char) format; return b + name + Bytes(1, '\0') + id;
}
static Bytes raw(Identity* i) { uint8_t b[ID]; ((IdentityUUID*) i)->copyRaw(b); return Bytes((char*) b, ID); }
static Bytes serialize(Identity& i) {
  const unsigned n = i.length(); uint8_t* p = (uint8_t*) malloc(n); memset(p, 0xEE, n); const int r = i.serialize(p, n); Bytes b((char*) p, n); mc::steps(1);
  memset(p, 0xEE, n); const int r2 = i.toBuffer(p); MC_CHECK(r == (int) n && r2 == r && b == Bytes((char*) p, n), "serialize:answer", "serialize was answered %d and %d, not %u", r, r2, n); free(p);
  for (unsigned k = 0; k < n; k++) { uint8_t* q = (uint8_t*) malloc(k); MC_CHECK(i.serialize(q, k) == 0, "serialize:short", "serialize into %u bytes of %u was not refused", k, n); free(q); }
  uint8_t big[400]; memset(big, 0xEE, sizeof(big)); MC_CHECK(i.serialize(big, sizeof(big)) == (int) n && big[n] == 0xEE && Bytes((char*) big, n) == b, "serialize:long", "serialize into a larger buffer differs");
  return b;
}
static std::unique_ptr<Identity> parse(const Bytes& b) { uint8_t* p = (uint8_t*) malloc(b.size()); memcpy(p, b.data(), b.size()); Identity* i = Identity::fromBuffer(p, b.size()); free(p); mc::steps(1); return std::unique_ptr<Identity>(i); }
static void is(Identity* i, const Bytes& name, const Bytes& id, unsigned flags, const char* what) {
  MC_CHECK(i->identityType() == IdentFormat::UUID && Bytes(i->getHandle()) == name && raw(i) == id, "parse:content", "%s: it is %s with %s, not %s with %s", what, mc::hex(Bytes(i->getHandle())).c_str(), mc::hex(raw(i)).c_str(), mc::hex(name).c_str(), mc::hex(id).c_str());
  MC_CHECK(i->isDirty() == !!(flags & 0x8000) && i->isValid() == !!(flags & 0x0020) && i->isSelf() == !!(flags & 0x4000), "parse:flags", "%s: dirty %d, valid %d, ours %d, of flags %04x", what, i->isDirty(), i->isValid(), i->isSelf(), flags);
}
/* Accepted only if the bytes hold a whole identity, and then it is the one they hold; accepted if they hold exactly one (or one and more behind it). */
static void judge(const Bytes& b) {
  std::unique_ptr<Identity> i = parse(b); const uint8_t* p = (const uint8_t*) b.data(); bool whole = false, exact = false; size_t z = 0;
  if (b.size() > HEADER) {
    const size_t len = p[0] * 256 + p[1]; z = b.find('\0', HEADER);
    whole = len <= b.size() && p[4] == 2 && z != Bytes::npos && z + 1 + ID <= len; exact = whole && z + 1 + ID == len;
  }
  MC_CHECK(!i || whole, "parse:malformed", "%s was taken for an identity", mc::hex(b).c_str());
  MC_CHECK(i || !exact, "parse:refused", "%s was not taken for an identity", mc::hex(b).c_str());
  if (i) is(i.get(), b.substr(HEADER, z - HEADER), b.substr(z + 1, ID), p[2] * 256 + p[3], "altered");
}
static Bytes name_of(unsigned len) { Bytes s; const unsigned kind = len ? mc::choose(3) : 0; for (unsigned i = 0; i < len; i++) s += kind == 0 ? (char) ('a' + i % 26) : kind == 1 ? '\xFF' : (char) (1 + i * 53 % 255); return s; }
static const char* IDS[] = {"00000000-0000-0000-0000-000000000000", "01234567-89ab-cdef-0123-456789abcdef", "ffffffff-ffff-ffff-ffff-ffffffffffff", "00010203-0405-0607-0809-0a0b0c0d0e0f"};
static Bytes id_of(const char* s) { Bytes r; for (; *s; s++) if (*s != '-') { auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }; r += (char) (v(s[0]) << 4 | v(s[1])); s++; } return r; }
static void trip(unsigned most) {
  plat::reset(); const int64_t base = mc::live_blocks();
  {
    const Bytes name = name_of(mc::choose(most + 1)), text = IDS[mc::choose(4)], id = id_of(text.c_str()); const bool self = mc::flip(), generated = mc::flip(); mc::op("%s with %s%s%s", mc::hex(name).c_str(), text.c_str(), self ? ", ours" : "", generated ? ", generated" : "");
    std::unique_ptr<Identity> a(generated ? new IdentityUUID(name.c_str()) : new IdentityUUID(name.c_str(), (char*) text.c_str())); const Bytes own = generated ? raw(a.get()) : id;
    MC_CHECK(a->isDirty() == generated && a->isValid() == generated && !a->isSelf(), "new:flags", "a new identity is dirty %d, valid %d, ours %d", a->isDirty(), a->isValid(), a->isSelf());
    if (generated) { IdentityUUID other(name.c_str()); MC_CHECK(raw(&other) != own, "new:distinct", "two generated identities are the same"); }
    a->isSelf(self); is(a.get(), name, own, (generated ? 0x8020 : 0) | (self ? 0x4000 : 0), "new");
    MC_CHECK(a->length() == (int) (HEADER + name.size() + 1 + ID), "length", "the length is %d", a->length());
    const Bytes b = serialize(*a);
    MC_CHECK(b == stored((self ? 0x4000 : 0) | (generated ? 0x0800 : 0), 2, name, own), "serialize:form", "the stored form is %s", mc::hex(b).c_str());
    std::unique_ptr<Identity> c = parse(b); MC_CHECK(c != nullptr, "trip:answer", "its own stored form is not taken for an identity");
    is(c.get(), name, own, self ? 0x4000 : 0, "read back"); MC_CHECK(serialize(*c) == b && c->length() == a->length(), "trip:again", "storing what came back gives %s", mc::hex(serialize(*c)).c_str());
    c = parse(b + "more behind it"); MC_CHECK(c != nullptr, "trip:more", "bytes behind it keep it from being read"); is(c.get(), name, own, self ? 0x4000 : 0, "with more behind it");
    MC_CHECK(serialize(*c) == b, "trip:more", "with more behind it, it is stored as %s", mc::hex(serialize(*c)).c_str());
    StringBuilder s; c->toString(&s); StringBuilder s2; a->toString(&s2); MC_CHECK(Bytes((char*) s.string()) == (char*) s2.string() && (generated || text == (char*) s.string()), "text", "its text is %s", s.string());
    const Bytes copy = name; MC_CHECK(c->getIdentity(copy.c_str()) == c.get() && c->getIdentity(IdentFormat::UUID) == c.get() && !c->getIdentity((name + "x").c_str()) && !c->getIdentity(IdentFormat::USER) && (name.empty() || !c->getIdentity(name.substr(1).c_str())), "find", "it is not found by its name and format, or by another");
    StringBuilder log; Identity::staticToString(c.get(), &log); MC_CHECK(Bytes((char*) log.string(), log.length()).find(name) != Bytes::npos, "describe", "its description lacks its name");
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks were not released", (long long) (mc::live_blocks() - base));
}
static void bent(unsigned most) {
  const int64_t base = mc::live_blocks();
  {
    const Bytes name = name_of(mc::choose(most + 1)), b = stored(mc::flip() ? 0xFFFF : 0x0403, 2, name, id_of(IDS[mc::choose(4)])); mc::op("%s", mc::hex(b).c_str());
    for (size_t n = 0; n <= b.size(); n++) { judge(b.substr(0, n)); if (n >= 2) { Bytes t = b.substr(0, n); t[0] = 0; t[1] = (char) n; judge(t); } }       // truncated; and truncated, but claiming to be whole
    for (size_t i = 0; i < b.size(); i++) for (int v = 0; v < 256; v++) { Bytes t = b; t[i] = (char) v; judge(t); judge(t + "behind"); }
    for (int x = 0; x < 4; x++) { Bytes t = b + Bytes(x, 'y'); t[1] += x; judge(t); }
    for (unsigned f = 0; f < 256; f++) { Bytes t = b; t[4] = (char) f; judge(t); }
    Bytes t = b; for (size_t i = HEADER; i < t.size(); i++) if (!t[i]) t[i] = 'z'; judge(t);                    // no end to the name
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks were not released", (long long) (mc::live_blocks() - base));
}
static void flags() {
  const unsigned hi = mc::choose(256); mc::op("flags %02x..", hi); const Bytes id = id_of(IDS[1]);
  for (unsigned f = hi << 8; f < (hi + 1) << 8; f++) {
    std::unique_ptr<Identity> i = parse(stored(f, 2, "me", id)); MC_CHECK(i != nullptr, "trip:answer", "flags %04x are not taken for an identity", f); is(i.get(), "me", id, f, "with flags");
    MC_CHECK(serialize(*i) == stored(f & ~UNSTORED, 2, "me", id), "flags:stored", "flags %04x are stored as %s", f, mc::hex(serialize(*i)).c_str());
    for (bool self : {true, false, true}) { i->isSelf(self); const unsigned g = self ? f | 0x4000 : f & ~0x4000u; is(i.get(), "me", id, g, "made ours, or not"); MC_CHECK(serialize(*i) == stored(g & ~UNSTORED, 2, "me", id), "flags:stored", "flags %04x are stored as %s", g, mc::hex(serialize(*i)).c_str()); }
  }
}
int main(int argc, char** argv) {
  const bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  std::vector<mc::Config> c;
  c.push_back({"trip", [=]{ trip(th ? 300 : 40); }, 3, "names of 0..40 bytes (thorough 300) of three kinds, four UUIDs or a generated one, ours or not; serialized into every buffer length up to its own, read back alone and with more behind it"});
  c.push_back({"bent", [=]{ bent(th ? 24 : 8); }, 3, "names of 0..8 bytes (thorough 24): every truncation, also claiming to be whole, every value of every byte, alone and with more behind it, and no end to the name"});
  c.push_back({"flags", flags, 1, "all 65536 combinations of flags"});
  return mc::main(argc, argv, "C30", c, {"UUIDs are the only kind of identity this build of the library can store", "chains of identities cannot be built through the public interface"});
}
