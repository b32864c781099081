/* C41: images through their serialized form; every truncation, extension and header byte against an independent reading of the format. */
#include "../mc/mc.h"
#include "Image/Image.h"
#include <vector>
#include <string>

typedef ImgBufferFormat F; typedef std::string Bytes;
static const F FORMATS[] = {F::MONOCHROME, F::GREY_24, F::GREY_16, F::GREY_8, F::GREY_4, F::R8_G8_B8_ALPHA, F::R8_G8_B8, F::R5_G6_B5, F::R3_G3_B2};
static const unsigned HEADER = 10;
static unsigned bits(unsigned f) { static const unsigned B[] = {0, 1, 24, 16, 8, 4, 32, 24, 16, 8}; return f < 10 ? B[f] : 0; }
static uint64_t size_of(unsigned f, uint64_t w, uint64_t h) { return (w * h * bits(f) + 7) / 8; }
static void paint(Image& i, unsigned seed) {
  for (int y = 0; y < i.y(); y++) for (int x = 0; x < i.x(); x++) i.setPixel(x, y, seed == 0 ? 0 : seed == 1 ? 0xFFFFFFFFu : 0x9E3779B9u * (1 + x * 31 + y) >> (seed & 7));
}
/* Parse: accepted exactly if consistent, and then the image is what the bytes say. */
static int parse(const Bytes& b, Image& img) {
  uint8_t* p = (uint8_t*) malloc(b.size()); memcpy(p, b.data(), b.size());          // exactly as long as it says
  const int r = img.deserialize(p, b.size()); free(p); mc::steps(1); return r;
}
static void judge(const Bytes& b) {
  Image img; const int r = parse(b, img); const uint8_t* p = (const uint8_t*) b.data();
  uint64_t w = 0, h = 0; unsigned f = 0; bool good = b.size() >= HEADER;
  if (good) { for (int i = 0; i < 4; i++) { w = w << 8 | p[i]; h = h << 8 | p[4 + i]; } f = p[8]; good = bits(f) && w <= 65535 && h <= 65535 && size_of(f, w, h) == b.size() - HEADER; }
  MC_CHECK((r == 0) == good, "parse:answer", "%zu bytes, %s, were answered %d", b.size(), mc::hex(b.substr(0, 16)).c_str(), r);
  if (good) {
    MC_CHECK(img.x() == w && img.y() == h && img.format() == (F) f && img.allocated(), "parse:shape", "%s became %s of %ux%u", mc::hex(b.substr(0, 16)).c_str(), Image::formatString(img.format()), img.x(), img.y());
    MC_CHECK(!memcmp(img.buffer(), p + HEADER, b.size() - HEADER), "parse:content", "the pixels differ");
    paint(img, 5); for (int y = 0; y < (int) h + 1 && y < 30; y++) img.getPixel(img.x() - 1, y);
  }
  else MC_CHECK(!img.allocated() && img.getPixel(0, 0) == 0 && !img.setPixel(0, 0, 1), "parse:refused", "bytes refused left an image of %ux%u behind", img.x(), img.y());
}
static void trip(int wmax, int hmax) {
  const int64_t base = mc::live_blocks();
  {
    const F f = mc::pick(FORMATS); const int w = mc::choose(wmax + 1), h = mc::choose(hmax + 1); const unsigned seed = mc::choose(3), flags = mc::choose(16), form = mc::choose(3);
    mc::op("%s of %dx%d, filled %u, flags %u", Image::formatString(f), w, h, seed, flags);
    Image img(w, h, f); MC_CHECK(img.reallocate(), "alloc", "no buffer");
    img.flipX(flags & 1); img.flipY(flags & 2); img.textWrap(flags & 4); img.cp437(flags & 8); paint(img, seed + (seed > 1 ? 3 : 0));
    Bytes b; const Bytes pix((char*) img.buffer(), img.bytesUsed());
    if (form == 0) { StringBuilder sb; sb.concat("<"); MC_CHECK(img.serialize(&sb) == 0, "serialize", "serialize was refused"); b.assign((char*) sb.string(), sb.length()); MC_CHECK(b[0] == '<', "serialize:prefix", "the text before it was lost"); b.erase(0, 1); }
    else if (form == 1) { uint8_t buf[400]; uint32_t n = 0; memset(buf, 0xEE, sizeof(buf)); MC_CHECK(img.serialize(buf, &n) == 0 && n == HEADER + pix.size() && buf[n] == 0xEE, "serialize", "serialize wrote %u bytes", n); b.assign((char*) buf, n); }
    else { uint8_t buf[32]; uint32_t n = 0; memset(buf, 0xEE, sizeof(buf)); MC_CHECK(img.serializeWithoutBuffer(buf, &n) == 0 && n == HEADER && buf[n] == 0xEE, "serialize", "the header is %u bytes", n); b.assign((char*) buf, n); b += pix; }
    MC_CHECK(b.size() == HEADER + pix.size() && b.substr(HEADER) == pix && pix == Bytes((char*) img.buffer(), img.bytesUsed()), "serialize:form", "the serialized image is %s", mc::hex(b.substr(0, 40)).c_str());
    Image back; const int r = parse(b, back);
    MC_CHECK(r == 0, "trip:answer", "its own serialization was answered %d", r);
    MC_CHECK(back.x() == w && back.y() == h && back.format() == f && back.bytesUsed() == img.bytesUsed(), "trip:shape", "it came back as %s of %ux%u", Image::formatString(back.format()), back.x(), back.y());
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) MC_CHECK(back.getPixel(x, y) == img.getPixel(x, y), "trip:pixel", "(%d,%d) is %08x, not %08x", x, y, back.getPixel(x, y), img.getPixel(x, y));
    MC_CHECK(back.textWrap() == img.textWrap() && back.cp437() == img.cp437() && back.flipX() == img.flipX() && back.flipY() == img.flipY(), "trip:flags", "the flags differ");
    StringBuilder again; MC_CHECK(back.serialize(&again) == 0, "trip:again", "serializing what came back was refused");
    Bytes b2((char*) again.string(), again.length()); Image third; MC_CHECK(b2.size() == b.size() && b2.substr(0, 9) == b.substr(0, 9) && b2.substr(HEADER) == pix && parse(b2, third) == 0, "trip:again", "serializing what came back gives %s", mc::hex(b2.substr(0, 40)).c_str());
    /* An image in use takes nothing. */
    MC_CHECK(parse(b, img) != 0 && img.x() == w && pix == Bytes((char*) img.buffer(), img.bytesUsed()), "in-use", "an image in use was overwritten");
    back.wipe(); MC_CHECK(parse(b, back) == 0, "wiped", "an image wiped takes nothing");
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks were not released", (long long) (mc::live_blocks() - base));
}
static Bytes made(unsigned f, uint32_t w, uint32_t h, size_t body) { Bytes b; for (int i = 3; i >= 0; i--) b += (char) (w >> 8 * i); for (int i = 3; i >= 0; i--) b += (char) (h >> 8 * i); b += (char) f; b += '\0'; for (size_t i = 0; i < body; i++) b += (char) (i * 37 + 5); return b; }
static void bent() {
  const int64_t base = mc::live_blocks();
  {
    const unsigned f = mc::choose(11), w = mc::choose(4), h = mc::choose(10); const Bytes b = made(f, w, h, size_of(f, w, h)); mc::op("format %u of %ux%u", f, w, h);
    for (size_t n = 0; n <= b.size(); n++) judge(b.substr(0, n));
    for (int n = 1; n < 4; n++) judge(b + Bytes(n, 'x'));
    for (unsigned i = 0; i < HEADER; i++) for (int v = 0; v < 256; v++) { Bytes t = b; t[i] = (char) v; judge(t); }
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks were not released", (long long) (mc::live_blocks() - base));
}
static void huge() {
  const int64_t base = mc::live_blocks();
  {
    static const uint32_t D[] = {1, 2, 3, 255, 256, 4096, 8192, 16384, 32768, 65535, 65536, 65537, 0x00FFFFFF, 0x80000000u, 0xFFFFFFFFu};
    const unsigned f = mc::choose(10); const uint32_t w = mc::pick(D), h = mc::pick(D); mc::op("format %u of %ux%u", f, w, h);
    for (size_t body : {0u, 1u, 2u, 3u, 4u, 8u, (unsigned) ((uint32_t) (w * h * bits(f)) >> 3) & 63u}) judge(made(f, w, h, body));
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks were not released", (long long) (mc::live_blocks() - base));
}
static void without() {
  const unsigned f = mc::choose(10), w = mc::choose(3), h = mc::choose(3); Image img(w, h, (F) f); StringBuilder sb; uint8_t buf[16]; uint32_t n = 99; mc::op("format %u of %ux%u", f, w, h);
  MC_CHECK(img.serialize(&sb) != 0 && sb.isEmpty() && img.serialize(buf, &n) != 0 && img.serializeWithoutBuffer(buf, &n) != 0 && n == 99, "empty", "an image without a buffer was serialized"); mc::steps(1);
}
int main(int argc, char** argv) {
  const bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  std::vector<mc::Config> c;
  c.push_back({"trip", [=]{ trip(th ? 9 : 5, th ? 17 : 9); }, 4, "nine formats of 0..5 by 0..9 pixels (thorough 0..9 by 0..17), three fillings, 16 combinations of flags, three forms of serialization"});
  c.push_back({"bent", bent, 3, "11 format codes of 0..3 by 0..9 pixels: every truncation, up to three bytes more, and every value of every byte of the header"});
  c.push_back({"huge", huge, 3, "ten format codes and 15^2 sizes up to 2^32, over bodies whose size agrees modulo 2^32"});
  c.push_back({"without", without, 2, "images without a buffer"});
  return mc::main(argc, argv, "C41", c, {"coordinates are 16 bits wide, the default", "the rotation of an image is not part of its serialized form, as documented; the flags for flipping are"});
}
