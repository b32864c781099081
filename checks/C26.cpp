/* C26: Base64 coding is standard and invertible. */
#include "cborval.h"
#include "Pipes/BufferAccepter/Base64/C3P_B64.h"

using val::S;

/* RFC 4648, by bits. */
static const char ALPHABET[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static S encode(const S& in) {
  S r; unsigned acc = 0, bits = 0;
  for (unsigned char ch : in) { acc = acc << 8 | ch; bits += 8; while (bits >= 6) { bits -= 6; r += ALPHABET[acc >> bits & 63]; } }
  if (bits) r += ALPHABET[acc << (6 - bits) & 63];
  while (r.size() % 4) r += '=';
  return r;
}
static bool decode(const S& in, S& out) {                // false: not Base64
  if (in.empty() || in.size() % 4) return false;
  size_t n = in.size(); unsigned pads = 0;
  while (pads < 2 && in[n - 1] == '=') { n--; pads++; }
  unsigned acc = 0, bits = 0;
  for (size_t i = 0; i < n; i++) {
    const char* p = in[i] ? strchr(ALPHABET, in[i]) : nullptr; if (!p) return false;
    acc = acc << 6 | (unsigned) (p - ALPHABET); bits += 6;
    if (bits >= 8) { bits -= 8; out += (char) (acc >> bits & 255); }
  }
  return true;
}
static void lay(StringBuilder* b, const S& s, size_t cut) {
  if (cut) b->concat((uint8_t*) s.data(), (int) cut);
  if (cut < s.size()) b->concat((uint8_t*) s.data() + cut, (int) (s.size() - cut));
}
static S text(StringBuilder& b) { return S((char*) b.string(), (size_t) b.length()); }

/* One push to an encoder or a decoder. */
template <class C> static void push(const S& in, size_t cut, int chunk, int room, bool enc) {
  const char* what = enc ? "encoder" : "decoder";
  const int64_t base = quiet_blocks();
  {
    StringBuilderSink sink(room); C codec(&sink); codec.inputLength(chunk);
    MC_CHECK(codec.inputLength() == chunk, "length", "the input length reads %d", codec.inputLength());
    StringBuilder line; lay(&line, in, cut);
    const int announced = codec.bufferAvailable();
    const size_t n = chunk ? (size_t) chunk : in.size();
    S w; const bool valid = n <= in.size() && n > 0 && (enc ? (w = encode(in.substr(0, n)), true) : decode(in.substr(0, n), w));
    const int r = codec.pushBuffer(&line);
    const S left = text(line), got = text(sink);
    if (r == -1) {
      MC_CHECK(left == in && got.empty(), "refusal", "the %s refused %s, but left %s and passed on %s", what, mc::hex(in).c_str(), mc::hex(left).c_str(), mc::hex(got).c_str());
      MC_CHECK(!valid || (int) n > announced, "refused", "the %s refused %zu bytes (%s) of %zu, with room for %d announced", what, n, mc::hex(in).c_str(), in.size(), announced);
    }
    else {
      MC_CHECK(valid, "accepted", "the %s took %s, of which it should take %zu bytes: passed on %s", what, mc::hex(in).c_str(), n, mc::hex(got).c_str());
      MC_CHECK(left == in.substr(n), "rest", "the %s was to take %zu bytes of %s, and left %s", what, n, mc::hex(in).c_str(), mc::hex(left).c_str());
      MC_CHECK(got == w, "coding", "the %s made %s of %s, not %s (room for %d)", what, mc::hex(got).c_str(), mc::hex(in.substr(0, n)).c_str(), mc::hex(w).c_str(), room);
      MC_CHECK(r == (left.empty() ? 1 : 0), "result", "the %s took %zu of %zu bytes and returned %d", what, n, in.size(), r);
    }
    mc::steps(1);
  }
  MC_CHECK(quiet_blocks() == base, "leak", "%lld blocks were not released", (long long) (quiet_blocks() - base));
}
/* And back again, both joined, in a series of pushes. */
static void around(const S& in, size_t cut, int chunk) {
  StringBuilderSink sink(4096); Base64Decoder d(&sink); Base64Encoder e(&d); e.inputLength(chunk);
  StringBuilder line; lay(&line, in, cut); int n = 0;
  while (e.pushBuffer(&line) >= 0 && n++ < 64) {}
  const size_t left = chunk ? in.size() % (size_t) chunk : 0;
  MC_CHECK(text(sink) == in.substr(0, in.size() - left) && text(line) == in.substr(in.size() - left), "around", "%s comes back as %s, with %s left", mc::hex(in).c_str(), mc::hex(text(sink)).c_str(), mc::hex(text(line)).c_str());
  mc::steps(1);
}
static void small(unsigned n) {                          // every content of n bytes
  S in; for (unsigned i = 0; i + 1 < n; i++) in += (char) mc::choose(256);
  mc::op("every content of %u bytes from %s", n, mc::hex(in).c_str());
  for (int l = 0; l < 256; l++) { S s = in + (char) l; push<Base64Encoder>(s, 0, 0, 1000, true); push<Base64Decoder>(encode(s), 0, 0, 1000, false); }
}
static void sextets() {                                  // every quartet of bytes, around a given one
  static const uint8_t SET[] = {0x00, 0x01, 0x03, 0x0F, 0x3F, 0x40, 0x7F, 0x80, 0xC0, 0xF0, 0xFC, 0xFF, 0x55, 0xAA, '=', 'A'};
  S in; for (int i = 0; i < 4; i++) in += (char) mc::pick(SET);
  mc::op("content %s", mc::hex(in).c_str());
  for (size_t n = 1; n <= 4; n++) { push<Base64Encoder>(in.substr(0, n), n / 2, 0, 1000, true); around(in.substr(0, n), n / 2, 0); }
}
static void lengths() {                                  // length, pieces, input length and room
  const unsigned n = mc::choose(25); S in; for (unsigned i = 0; i < n; i++) in += (char) (i * 37 + 5);
  const size_t cut = mc::choose(n + 1); const int chunk = (int) mc::choose(14);
  mc::op("%u bytes, cut at %zu, taken %d at once", n, cut, chunk);
  for (int room = 0; room < 44; room++) push<Base64Encoder>(in, cut, chunk, room, true);
  const S e = encode(in); const size_t c = n ? cut * e.size() / n : 0;
  for (int room = 0; room < 44; room++) push<Base64Decoder>(e, c, chunk, room, false);
  around(in, cut, chunk);
}
static void strings(unsigned len) {                      // texts that may or may not be Base64
  static const char SET[] = {'A', 'Z', 'a', 'z', '0', '9', '+', '/', '=', '-', '_', ' ', '\n', 0, '@', '[', '`', '{', ',', ':', '.', (char) 0x80, (char) 0xFF, 'Q'};
  S s; for (unsigned i = 0; i < len; i++) s += mc::pick(SET);
  mc::op("decoding %s", mc::hex(s).c_str());
  push<Base64Decoder>(s, 0, 0, 1000, false);
}
static void altered() {                                  // good text with one byte altered, cut short or lengthened
  const unsigned n = 1 + mc::choose(9); S in; for (unsigned i = 0; i < n; i++) in += (char) (i * 83 + 250);
  S e = encode(in); const unsigned at = mc::choose((uint32_t) e.size());
  for (int v = 0; v < 256; v++) { S s = e; s[at] = (char) v; mc::op("decoding %s", mc::hex(s).c_str()); push<Base64Decoder>(s, at, 0, 1000, false); }
  for (int v = 0; v < 256; v++) { S s = e; s.insert(at, 1, (char) v); push<Base64Decoder>(s, at, 0, 1000, false); }
  S s = e; s.erase(at, 1); push<Base64Decoder>(s, 0, 0, 1000, false);
}

int main(int argc, char** argv) {
  const bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  static char out[1 << 16]; setvbuf(stdout, out, _IOLBF, sizeof(out));      // (the decoder prints)
  std::vector<mc::Config> c;
  c.push_back({"small", [=]{ small(1 + mc::choose(th ? 3 : 2)); }, 2, "every content of 1 and 2 (and 3) bytes, encoded and decoded"});
  c.push_back({"sextets", sextets, 2, "every content of 1 to 4 bytes from 16 values, in two pieces, encoded and brought back"});
  c.push_back({"lengths", lengths, 2, "contents of 0..24 bytes, every cut into two pieces, input lengths 0..13, room for 0..43"});
  c.push_back({"strings", [=]{ strings(4); }, 2, "every text of 4 characters from 24"});
  c.push_back({"odd", []{ strings(1 + mc::choose(3)); }, 2, "every text of 1..3 characters from 24"});
  c.push_back({"altered", altered, 1, "the text of 1..9 bytes with any byte replaced, inserted or removed"});
  return mc::main(argc, argv, "C26", c, {
    "an end takes what it announces", "the two lowest bits that padding leaves unused are not checked by the decoder"});
}
