/* C20: the headers of link messages, against an independent codec. */
#include "../mc/mc.h"
#include "M2MLink/M2MLink.h"
#include <stdlib.h>
#include <string.h>

#include "hdrref.h"
using namespace hdr;
static S bytes_of(StringBuilder& b) {
  const int n = b.length(); if (n <= 0) return S();
  S r((size_t) n, 0); b.copyToBuffer((u8*) &r[0], n); return r;
}
static S show(const Ref& r) { char b[128]; snprintf(b, sizeof(b), "code %02x flags %x id %x payload %u", r.code, r.low, r.id, r.payload); return b; }

static const std::vector<unsigned> CODES = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x0E, 0x0F, 0x10, 0x11, 0x12, 0x17, 0x1E, 0x1F };
static const std::vector<unsigned> BADCODES = { 0, 0x0B, 0x0C, 0x0D, 0x20, 0x21, 0x40, 0x7F, 0x80, 0xFE, 0xFF };
static const std::vector<uint32_t> IDS = { 0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x101, 0x7FFF, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x800000, 0xFFFFFE, 0xFFFFFF };
static std::vector<uint32_t> lengths() {
  std::vector<uint32_t> v;
  for (uint32_t i = 0; i < 20; i++) v.push_back(i);
  for (uint32_t i = 0xF0; i < 0x10C; i++) v.push_back(i);
  for (uint32_t i = 0xFFF0; i < 0x1000A; i++) v.push_back(i);
  for (uint32_t i = 0xFFFFF0; i < 0x1000003; i++) v.push_back(i);
  for (uint32_t i : {0x7Fu, 0x80u, 0x1FFu, 0x200u, 0x7FFFu, 0x20000u, 0x7FFFFFu, 0x7FFFFFFFu, 0xFFFFFFF0u, 0xFFFFFFFCu, 0xFFFFFFFFu}) v.push_back(i);
  return v;
}

/* What a header says about itself must be what it says on the wire, and what is read from there. */
static void check_written(M2MMsgHdr& h, const Ref& want, const char* how) {
  const S w = show(want);
  MC_CHECK(h.isValid(), "header:invalid", "%s: %s: the header says it isn't valid", how, w.c_str());
  const S ref = hdr::write(want);
  MC_CHECK(h.header_length() == (int) ref.size(), "header:length", "%s: %s: header_length() %d and should be %zu", how, w.c_str(), h.header_length(), ref.size());
  MC_CHECK((uint32_t) h.payload_length() == want.payload, "header:payload-length", "%s: %s: payload_length() %d", how, w.c_str(), h.payload_length());
  MC_CHECK((uint32_t) h.total_length() == want.total, "header:total-length", "%s: %s: total_length() %d and should be %u", how, w.c_str(), h.total_length(), want.total);
  MC_CHECK(h.expectsReply() == !!(want.low & 1) && h.isReply() == !!(want.low & 2), "header:flags", "%s: %s: expectsReply %d, isReply %d", how, w.c_str(), h.expectsReply(), h.isReply());
  MC_CHECK(h.isSync() == (want.code == 1 && !want.id && !want.payload), "header:sync", "%s: %s: isSync() %d", how, w.c_str(), h.isSync());
  StringBuilder out((char*) "pre");
  MC_CHECK(h.serialize(&out), "header:serialize", "%s: %s: serialize() refused", how, w.c_str());
  const S got = bytes_of(out);
  MC_CHECK(got == "pre" + ref, "header:bytes", "%s: %s is written as %s and should be %s", how, w.c_str(), mc::hex(got.substr(3)).c_str(), mc::hex(ref).c_str());
}
static void check_read(const S& b, const char* how) {
  Ref r; const int rr = hdr::read(b, r);
  StringBuilder in((u8*) b.data(), (int) b.size());
  M2MMsgHdr h;
  const int got = M2MMsg::attempt_header_parse(&h, &in);
  mc::steps(1);
  const S hx = mc::hex(b.substr(0, 16));
  MC_CHECK(bytes_of(in) == b, "header:parse-consumes", "%s: %s..: the parser changed its input", how, hx.c_str());
  if (rr < 0) { MC_CHECK(got == rr, "header:parse-code", "%s: %s (%zu bytes): parse returned %d and should return %d", how, hx.c_str(), b.size(), got, rr); return; }
  if (proper(r)) {
    const int want = !r.payload ? 1 : b.size() >= r.total ? 2 : 0;
    MC_CHECK(got == want, "header:parse-code", "%s: %s (%zu bytes): parse returned %d and should return %d", how, hx.c_str(), b.size(), got, want);
  }
  if (got >= 0) {
    MC_CHECK((unsigned) h.msg_code == r.code && (h.flags & 0x0F) == r.low && h.msg_id == r.id && (uint32_t) h.payload_length() == r.payload && h.header_length() == (int) (3 + r.len_n + r.id_n),
      "header:parse", "%s: %s: read as code %02x flags %02x id %x payload %d", how, hx.c_str(), (unsigned) h.msg_code, h.flags, h.msg_id, h.payload_length());
    MC_CHECK(h.isValid() == proper(r), "header:parse-valid", "%s: %s: isValid() %d", how, hx.c_str(), h.isValid());
  }
  else MC_CHECK(!proper(r), "header:parse-code", "%s: %s: parse refused (%d)", how, hx.c_str(), got);
}

/* Every message the library can describe. */
static void writing() {
  static const std::vector<uint32_t> LENS = lengths();
  const bool good = mc::flip();
  const unsigned code = good ? mc::pick(CODES) : mc::pick(BADCODES);
  const unsigned low = mc::choose(16);
  mc::op("code %02x, flags %x", code, low);
  const int64_t base = mc::live_blocks();
  for (uint32_t id : IDS) for (uint32_t len : LENS) for (int how = 0; how < 3; how++) {
    // 0: length to the constructor  1: set afterwards  2: set twice
    plat::rng = [] { return 0xAB123456u; };
    M2MMsgHdr h((M2MMsgCode) code, how ? 0 : len, (u8) (low | (how == 2 ? 0xF0 : 0)), id);
    bool ok = true;
    if (how == 2) h.set_payload_length(len ^ 0x1FF);
    if (how) ok = h.set_payload_length(len);
    mc::steps(1);
    Ref r; r.code = code; r.low = low & 3; r.id = id; r.payload = len;
    if (!id && (low & 1) && code != 1) r.id = 0x123456;
    const bool fits = fit(r);
    if (how && ok != fits) mc::fail("header:set-length", "set_payload_length(%u) with an ID of %u bytes: %d", len, r.id_n, ok);
    if (fits && proper(r)) check_written(h, r, how == 0 ? "constructed" : how == 1 ? "length set" : "length set twice");
    else if (!how || ok) {
      MC_CHECK(!h.isValid(), "header:valid", "%s: the header says it is valid", show(r).c_str());
      StringBuilder out;
      MC_CHECK(!h.serialize(&out) && out.isEmpty(), "header:serialize-invalid", "%s: an invalid header was serialized: %s", show(r).c_str(), mc::hex(bytes_of(out)).c_str());
    }
    // A header turned into a reply, as M2MMsg does it.
    if (fits && proper(r) && r.id && how == 1) {
      M2MMsgHdr c(&h);
      c.isReply(true); c.expectsReply(false);
      if (!c.set_payload_length(3)) mc::fail("header:reply", "%s: no reply can be made of it", show(r).c_str());
      Ref q = r; q.low = 2; q.payload = 3; fit(q);
      check_written(c, q, "made a reply");
    }
  }
  mc::count_state(((uint64_t) code << 8) | low);
  MC_CHECK(mc::live_blocks() == base, "header:leak", "%lld blocks remain", (long long) (mc::live_blocks() - base));
}
/* An automatic ID is never zero, whatever the generator gives. */
static void auto_id() {
  static const std::vector<uint32_t> R = { 0, 0x1000000, 0xFF000000, 1, 0xFF, 0x100, 0x00FFFFFF, 0x01FFFFFF, 0xFFFFFFFF, 0x0100FFFF, 0x80000000 };
  const unsigned n = 1 + mc::choose(3);
  std::vector<uint32_t> seq; for (unsigned i = 0; i < n; i++) seq.push_back(mc::pick(R));
  seq.push_back(0x00000077); seq.push_back(0x00ABCDEF);
  for (unsigned code : CODES) {
    size_t at = 0;
    plat::rng = [&at, &seq] { return seq[at < seq.size() ? at++ : seq.size() - 1]; };
    M2MMsgHdr h((M2MMsgCode) code, 0, 1);
    mc::op("code %02x expecting a reply, generator %08x %08x..", code, seq[0], seq[1]);
    Ref r; r.code = code; r.low = 1; r.id = code == 1 ? 0 : h.msg_id; fit(r);
    if (code != 1) MC_CHECK(h.msg_id && h.msg_id <= 0xFFFFFF, "header:auto-id", "code %02x: the ID is %x", code, h.msg_id);
    check_written(h, r, "automatic ID");
  }
  plat::reset();
}
/* Reading: any bytes at all in the header, any amount of them. */
static void reading() {
  static const std::vector<int> C = [] { std::vector<int> v; if (!mc::thorough) return std::vector<int>{0, 1, 2, 8, 0x0B, 0x0E, 0x0F, 0x10, 0x1F, 0x20, 0x80, 0xFF}; for (int i = 0; i < 0x22; i++) if (i != 0x0A) v.push_back(i); for (int i : {0x3F, 0x40, 0x7F, 0x80, 0x8F, 0xFE, 0xFF}) v.push_back(i); return v; }();
  const int code = mc::pick(C);
  const unsigned flags = mc::choose(256);
  static const std::vector<int> B = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 0x7F, 0xFE, 0xFF };
  static const std::vector<int> HI = { 0, 1, 0xFF };
  static const std::vector<int> ID = mc::thorough ? std::vector<int>{ 0, 1, 0x80, 0xFF } : std::vector<int>{ 0, 1, 0xFF };
  const unsigned ln = (flags >> 4) & 3, in = flags >> 6;
  mc::op("code %02x flags %02x", code, flags);
  std::vector<S> mids(1);
  for (unsigned i = 0; i < ln; i++) { std::vector<S> n; for (const S& m : mids) for (int b : (i + 1 == ln ? B : HI)) n.push_back(m + (char) b); mids = n; }
  for (unsigned i = 0; i < in; i++) { std::vector<S> n; for (const S& m : mids) for (int b : ID) { if (i && b == 1) continue; n.push_back(m + (char) b); } mids = n; }
  const int64_t base = mc::live_blocks();
  for (const S& m : mids) {
    S h; h += (char) code; h += (char) flags; h += m;
    u8 sum = 1 + code + flags; sum += ln ? (u8) m[ln - 1] : 0;
    for (int d : {0, 1, -1, 0x80}) {
      S x = h + (char) (sum + d);
      const size_t hl = x.size();
      x += "0123456789";
      for (size_t n = d ? hl : 0; n <= x.size(); n += (n > hl && n + 4 < x.size()) ? 4 : 1) check_read(x.substr(0, n), "read");
    }
  }
  mc::count_state(((uint64_t) code << 8) | flags);
  MC_CHECK(mc::live_blocks() == base, "header:parse-leak", "%lld blocks remain", (long long) (mc::live_blocks() - base));
}
/* A flipped bit in the code, the flags (other than the lengths they hold), the low byte of the length or the checksum never goes unseen. */
static void flips() {
  static const std::vector<uint32_t> LENS = { 0, 1, 2, 5, 0x7F, 0xF8, 0xF9, 0xFA, 0xFB, 0xFC, 0x100, 0x1FF, 0x300, 0xFFF0, 0x10000 };
  const unsigned code = mc::pick(CODES), low = mc::choose(4);
  for (uint32_t id : IDS) for (uint32_t len : LENS) {
    Ref r; r.code = code; r.low = low; r.id = id; r.payload = len; fit(r);
    if (!proper(r)) continue;
    const S good = hdr::write(r);
    mc::op("%s: %s", show(r).c_str(), mc::hex(good).c_str());
    for (size_t i = 0; i < good.size(); i++) for (int bit = 0; bit < 8; bit++) {
      if (i == 1 && bit >= 4) continue;
      if (i >= 2 && i + 1 < good.size() && i != 1 + r.len_n) continue;
      S bad = good; bad[i] = (char) (bad[i] ^ (1 << bit));
      bad += "abcdefgh";
      StringBuilder in((u8*) bad.data(), (int) bad.size());
      M2MMsgHdr h; mc::steps(1);
      const int got = M2MMsg::attempt_header_parse(&h, &in);
      MC_CHECK(got == -3, "header:flip", "%s: with bit %d of byte %zu flipped, parse returned %d", mc::hex(good).c_str(), bit, i, got);
      check_read(bad, "flip");
    }
    check_read(good, "intact"); check_read(good + S(len < 600 ? len : 0, 'x'), "whole");
    if (len < 600) check_read(good + S(len, 'x') + "more", "with more to come");
  }
}
/* Whole messages: put together, written, read back from any fragments, and turned into replies. */
static S kvp_text(KeyValuePair* k) { char* c = nullptr; C3PValue* v = k ? k->valueWithKey("t") : nullptr; return (v && v->get_as(&c) == 0 && c) ? S(c) : S("(none)"); }
static S kvp_bytes(const S& t) { KeyValuePair k("t", t.c_str()); StringBuilder o; k.serialize(&o, TCode::CBOR); return bytes_of(o); }
static S message(unsigned code, unsigned low, uint32_t id, const S& payload) { Ref r; r.code = code; r.low = low; r.id = id; r.payload = payload.size(); fit(r); return hdr::write(r) + payload; }
static void as_sent(M2MMsg& m, const S& want, const char* how) {
  StringBuilder o("^"); const int r = m.serialize(&o); mc::steps(1);
  MC_CHECK(r == 0 && bytes_of(o) == "^" + want, "message:bytes", "%s: serialize() returned %d and wrote %s, not %s", how, r, mc::hex(bytes_of(o).substr(1)).c_str(), mc::hex(want).c_str());
}
static void as_read(M2MMsg& m, unsigned code, unsigned low, uint32_t id, const S& t, bool some, const char* how) {
  MC_CHECK(m.rxComplete() && m.isValidMsg(), "message:complete", "%s: complete %d, valid %d", how, m.rxComplete(), m.isValidMsg());
  MC_CHECK((unsigned) m.msgCode() == code && m.uniqueId() == id && m.expectsReply() == !!(low & 1) && m.isReply() == !!(low & 2) && m.direction() == BusOpcode::RX, "message:header", "%s: code %02x, id %x, expects %d, is %d", how, (unsigned) m.msgCode(), m.uniqueId(), m.expectsReply(), m.isReply());
  KeyValuePair* k = nullptr; const int r = m.getPayload(&k); const S got = kvp_text(k); delete k;
  MC_CHECK(r == 0 && (some ? got == t : got == "(none)"), "message:payload", "%s: getPayload() returned %d with \"%s\"", how, r, got.c_str());
}
static void messages() {
  static const std::vector<unsigned> C = {2, 3, 8, 0x0E, 0x0F, 0x10, 0x1F};
  static const std::vector<unsigned> L = {0, 1, 5, 15, 16, 17, 200, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 260, 520};
  const int64_t base = mc::live_blocks();
  {
    const unsigned code = mc::pick(C), low = mc::choose(4); const bool some = mc::flip(); const unsigned len = some ? mc::pick(L) : 0; const bool twice = some && mc::flip();
    const S t(len, 'a' + code % 26), pay = some ? kvp_bytes(t) : S(); static const uint32_t I[] = {0x42, 0x4243, 0xFF4243}; const uint32_t id = low ? mc::pick(I) : 0;
    mc::op("code %02x, flags %x, id %x, payload of %zu", code, low, id, pay.size());
    const S want = message(code, low, id, pay);
    M2MMsgHdr h((M2MMsgCode) code, 0, (u8) low, id); M2MMsg m(&h, BusOpcode::TX); m.encoding(TCode::CBOR);
    if (twice) { const S other(300, 'o'); KeyValuePair k("t", other.c_str()); m.setPayload(&k); }
    if (some) { KeyValuePair k("t", t.c_str()); const int r = m.setPayload(&k); MC_CHECK(r == 0, "message:set", "setPayload() returned %d", r); }
    as_sent(m, want, "first"); as_sent(m, want, "again");
    const S tail = mc::flip() ? "!next" : ""; const S all = want + tail;
    // from one buffer
    Ref hr; hr.code = code; hr.low = low; hr.id = id; hr.payload = pay.size(); fit(hr); const size_t hl = 3 + hr.len_n + hr.id_n;
    for (size_t n = 0; n <= all.size(); n += (n > hl && n + 8 < want.size()) ? 7 : 1) {
      StringBuilder in; if (n) in.concat((u8*) all.data(), (int) n);
      M2MMsg* q = M2MMsg::unserialize(&in);
      MC_CHECK((q != nullptr) == (n >= hl), "message:header-read", "a message was %sread from %zu of %zu bytes", q ? "" : "not ", n, hl);
      if (!q) { MC_CHECK(bytes_of(in) == all.substr(0, n), "message:consumed", "of %zu bytes of header, some were consumed", n); continue; }
      if (n < want.size()) {
        MC_CHECK(!q->rxComplete(), "message:early", "complete at %zu of %zu bytes", n, want.size()); MC_CHECK(in.isEmpty(), "message:left", "%d bytes left", in.length());
        StringBuilder rest((u8*) all.data() + n, (int) (all.size() - n)); const int r = q->accumulate(&rest);
        MC_CHECK(r == 1 && bytes_of(rest) == tail, "message:rest", "accumulate() returned %d and left %d bytes", r, rest.length());
      }
      else MC_CHECK(bytes_of(in) == tail.substr(0, n - want.size()), "message:tail", "%d bytes left, not %zu", in.length(), n - want.size());
      as_read(*q, code, low, id, t, some, "read");
      if (n == want.size()) {                                              // turned into a reply, with or without a payload
        const bool more = mc::flip(); const unsigned rp = mc::choose(3); const S rt = rp == 2 ? S(400, 'r') : S("r"), rb = rp ? kvp_bytes(rt) : S();
        int r; if (rp) { KeyValuePair k("t", rt.c_str()); r = q->reply(&k, more); } else r = more ? q->reply(nullptr, true) : q->ack();
        const bool ok = low != 0;                                          // without an identifier there is nothing to reply to
        if (ok) {
          MC_CHECK(r == 0, "message:reply", "reply() returned %d", r);
          as_sent(*q, message(code, 2 | (more ? 1 : 0), id, rb), "the reply"); MC_CHECK(q->direction() == BusOpcode::TX && q->isReply() && q->uniqueId() == id, "message:reply-header", "direction %d, id %x", (int) q->direction(), q->uniqueId());
          const int r2 = q->reply(nullptr); MC_CHECK(r2 == -1, "message:reply-twice", "a second reply() returned %d", r2);
        }
        else MC_CHECK(r != 0, "message:reply-none", "reply() to a message with no identifier returned %d", r);
      }
      delete q;
    }
    // in three fragments
    if (want.size() < 40) for (size_t a = hl; a <= all.size(); a++) for (size_t b = a; b <= all.size(); b++) {
      StringBuilder in; in.concat((u8*) want.data(), (int) hl); M2MMsgHdr g; M2MMsg::attempt_header_parse(&g, &in); M2MMsg q(&g); q.encoding(TCode::CBOR);
      const size_t cut[] = {hl, a, b, all.size()}; S left; bool done = pay.empty();
      for (int i = 0; i < 3; i++) {
        StringBuilder f; if (cut[i + 1] > cut[i]) f.concat((u8*) all.data() + cut[i], (int) (cut[i + 1] - cut[i]));
        const int r = q.accumulate(&f); done = done || cut[i + 1] >= want.size(); left += bytes_of(f);
        MC_CHECK(r == (done ? 1 : 0) && q.rxComplete() == done, "message:fragments", "cut at %zu and %zu: piece %d: accumulate() returned %d, complete %d", a, b, i, r, q.rxComplete());
      }
      MC_CHECK(left == tail, "message:fragments-tail", "cut at %zu and %zu: \"%s\" was left", a, b, left.c_str());
      as_read(q, code, low, id, t, some, "fragments");
    }
    // Another message in the same object
    m.wipe(); MC_CHECK(m.uniqueId() == 0 && !m.wasSent() && m.msgCode() == M2MMsgCode::UNDEFINED, "message:wipe", "wipe() left code %02x, id %x", (unsigned) m.msgCode(), m.uniqueId());
  }
  MC_CHECK(mc::live_blocks() == base, "message:leak", "%lld blocks remain", (long long) (mc::live_blocks() - base));
}
/* A message may be sent again three times; an object used again for another message has its own three. */
static void retries() {
  M2MMsgHdr h(M2MMsgCode::APPLICATION, 0, 1, 7); M2MMsg m(&h, BusOpcode::TX); const unsigned used = mc::choose(5); const bool wipe = mc::flip();
  for (unsigned i = 0; i < used; i++) { const bool r = m.attemptRetry(); MC_CHECK(r == (i < 3), "message:retries", "attempt %u: %d", i, r); }
  if (wipe) { m.wipe(); for (unsigned i = 0; i < 4; i++) { const bool r = m.attemptRetry(); MC_CHECK(r == (i < 3), "message:retries-fresh", "attempt %u after %u and wipe(): %d", i, used, r); } }
}
int main(int argc, char** argv) {
  std::vector<mc::Config> c;
  c.emplace_back("writing", writing, 3, "28 codes x 16 flags x 16 IDs x 100 lengths up to the limit of 16MB and beyond x constructed or set");
  c.emplace_back("auto-id", auto_id, 2, "generator sequences of up to 3 extreme values");
  c.emplace_back("reading", reading, 2, "12 (thorough: 40) codes x all 256 flag bytes x boundary lengths and IDs x right and wrong checksums x every length of input");
  c.emplace_back("flips", flips, 2, "every bit flip of every byte the checksum covers, in headers of every shape");
  c.emplace_back("messages", messages, 2, "seven codes, all reply flags, identifiers of one to three bytes, payloads around every length class; every cut of the bytes; replies with and without payload");
  c.emplace_back("retries", retries, 0, "up to four uses of the retries, with and without wiping the message");
  return mc::main(argc, argv, "C20", c, {"the random number generator is a stand-in"});
}
