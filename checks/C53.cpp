/* C53: a plot of bytes shows each of them in a square of its own, inside of its area. */
#include "mc.h"
#include "C3PValue/C3PValue.h"
#include "Image/Image.h"
#include "Image/ImageUtils/BlobPlotter.h"
#include <algorithm>
#include <set>

typedef std::vector<uint32_t> Map;
static uint32_t ground(unsigned x, unsigned y) { return 0x800000 | (0x9E3779B9u * (x * 512 + y + 1) >> 9 & 0x7FFFFF); }
static uint32_t tint(uint32_t offset) { return 0x010000 + offset; }
/* Gives every byte a colour of its own, and notes what it was shown. */
struct Tinter : public BlobStyler {
  const uint8_t* buf = nullptr; std::vector<uint8_t> want; bool sound = true;
  Tinter(Image* i) : BlobStyler(BlobStylerID::HEAT, i) {}
  int8_t init(const uint8_t* p, const uint32_t n) override { buf = p; sound &= n == want.size() && std::equal(want.begin(), want.end(), p); return 0; }
  uint32_t getColor(const uint8_t* p, const uint32_t n, const uint32_t at) override { sound &= p == buf && n == want.size() && at < n; return tint(at); }
};
struct Area { unsigned px, py, w, h, iw, ih; };

static Map read(Image& img) { Map m; for (unsigned y = 0; y < img.y(); y++) for (unsigned x = 0; x < img.x(); x++) m.push_back(img.getPixel(x, y)); return m; }
/* Where each byte is shown; what was changed, and by whom. */
static void judge(const char* kind, bool linear, const Area& a, unsigned n, int r, const Map& m, const uint16_t* map, unsigned wide, unsigned high) {
  struct Box { unsigned x0 = ~0u, y0 = ~0u, x1 = 0, y1 = 0, count = 0; };
  std::vector<Box> box(n);
  const bool fits = a.px + a.w <= a.iw && a.py + a.h <= a.ih;
  for (unsigned y = 0; y < a.ih; y++) for (unsigned x = 0; x < a.iw; x++) {
    const uint32_t c = m[y * a.iw + x]; if (c == ground(x, y)) continue;
    MC_CHECK(r == 0, "refused", "the %s plot of %u bytes in %ux%u was refused (%d), but (%u,%u) changed", kind, n, a.w, a.h, r, x, y);
    MC_CHECK(fits && x >= a.px && x < a.px + a.w && y >= a.py && y < a.py + a.h, "outside", "the %s plot of %u bytes in %ux%u at (%u,%u) of %ux%u changed (%u,%u)", kind, n, a.w, a.h, a.px, a.py, a.iw, a.ih, x, y);
    MC_CHECK(c >= tint(0) && c < tint(n), "colour", "(%u,%u) is %06x, which is the colour of no byte", x, y, c);
    Box& b = box[c - tint(0)]; b.x0 = std::min(b.x0, x); b.y0 = std::min(b.y0, y); b.x1 = std::max(b.x1, x + 1); b.y1 = std::max(b.y1, y + 1); b.count++;
  }
  if (r) { MC_CHECK(!linear || !fits || a.px + a.w == a.iw || a.py + a.h == a.ih || n > a.w * a.h || !n, "room", "the %s plot of %u bytes in %ux%u was refused (%d), though there is room", kind, n, a.w, a.h, r); return; }
  if (!n) return;
  MC_CHECK(fits, "fits", "a %s plot of %ux%u at (%u,%u) of %ux%u was drawn", kind, a.w, a.h, a.px, a.py, a.iw, a.ih);
  const unsigned s = box[0].x1 - box[0].x0;
  for (unsigned i = 0; i < n; i++) {
    const Box& b = box[i];
    MC_CHECK(b.count > 0, "missing", "byte %u of %u does not appear in the %s plot of %ux%u", i, n, kind, a.w, a.h);
    MC_CHECK(b.x1 - b.x0 == s && b.y1 - b.y0 == s && b.count == s * s, "square", "byte %u of %u takes %u pixels (%ux%u) of the %s plot of %ux%u, not a square of %u", i, n, b.count, b.x1 - b.x0, b.y1 - b.y0, kind, a.w, a.h, s);
    if (map) MC_CHECK(map[2 * i] == b.x0 - a.px && map[2 * i + 1] == b.y0 - a.py, "map", "byte %u is at (%u,%u), but mapped to (%u,%u)", i, b.x0 - a.px, b.y0 - a.py, map[2 * i], map[2 * i + 1]);
    if (!i) continue;
    const Box& p = box[i - 1];
    if (linear) MC_CHECK((b.y0 == p.y0 && b.x0 == p.x1) || (b.y0 == p.y1 && b.x0 == a.px), "order", "byte %u is at (%u,%u), behind (%u,%u)", i, b.x0, b.y0, p.x0, p.y0);
    else MC_CHECK((b.y0 == p.y0 && (b.x0 == p.x1 || b.x1 == p.x0)) || (b.x0 == p.x0 && (b.y0 == p.y1 || b.y1 == p.y0)), "neighbour", "bytes %u and %u of %u are at (%u,%u) and (%u,%u), which do not touch (%ux%u)", i - 1, i, n, p.x0, p.y0, b.x0, b.y0, a.w, a.h);
  }
  if (linear) MC_CHECK(wide == a.w / s && high == (n + wide - 1) / wide, "extent", "%u bytes in squares of %u across %u are said to be %ux%u", n, s, a.w, wide, high);
}
template <class P> static void plot(const char* kind, bool linear, const Area& a, unsigned n, unsigned mapping) {
  mc::op("%s plot of %u bytes in %ux%u at (%u,%u) of %ux%u", kind, n, a.w, a.h, a.px, a.py, a.iw, a.ih);
  Image img(a.iw, a.ih, ImgBufferFormat::R8_G8_B8); img.reallocate();
  for (unsigned y = 0; y < a.ih; y++) for (unsigned x = 0; x < a.iw; x++) img.setPixel(x, y, ground(x, y));
  std::vector<uint8_t> data; for (unsigned i = 0; i < n; i++) data.push_back((uint8_t) (i * 7 + 3));
  C3PValue v(data.data(), n); Tinter t(&img); t.want = data;
  std::vector<uint16_t> map(mapping + 2, 0xBEEF); if (mapping) map.resize(mapping), map.shrink_to_fit();
  P p(&t, &v, &img, a.px, a.py, a.w, a.h);
  if (mapping) p.setMapMem(map.data(), mapping);
  const int r = n % 3 ? p.apply(true) : p.apply();       // the first is always drawn
  judge(kind, linear, a, n, r, read(img), mapping >= 2 * n ? map.data() : nullptr, p.bytesWide(), p.bytesHigh());
  MC_CHECK(t.sound, "styler", "the styler was shown something other than the bytes");
  mc::steps(1);
}
static void both(const Area& a, unsigned n, unsigned mapping) {
  plot<BlobPlotterLinear>("linear", true, a, n, mapping); plot<BlobPlotterHilbertCurve>("Hilbert", false, a, n, mapping);
}
static void small(int top) {
  const unsigned w = mc::range(1, top), h = mc::range(1, top);
  for (unsigned n = 0; n <= w * h + 1; n++) both(Area{3, 2, w, h, w + 6, h + 5}, n, n & 1 ? 2 * n : n & 2 && n ? 2 * n - 1 : 0);
}
static void places() {                                   // in and beyond the corners of the image, and beyond what its coordinates can hold
  static const unsigned W[] = {1, 4, 7}, N[] = {1, 4, 6, 16};
  const unsigned w = mc::pick(W), h = mc::pick(W), iw = 9, ih = 10, n = mc::pick(N);
  const unsigned X[] = {0, 1, iw - w - 1, iw - w, iw - w + 1, iw - 1, iw, iw + 3, 65535 - w, 65536 - w, 65535}, Y[] = {0, 1, ih - h - 1, ih - h, ih - h + 1, ih - 1, ih, ih + 3, 65535 - h, 65536 - h, 65535};
  for (unsigned x : X) for (unsigned y : Y) both(Area{x, y, w, h, iw, ih}, n, 2 * n);
  for (unsigned z = 0; z < 3; z++) both(Area{1, 1, z & 1 ? 0u : w, z & 2 ? 0u : h, iw, ih}, n, 0);
}
static void large(bool th) {
  static const unsigned S[][2] = {{64, 64}, {300, 3}, {3, 300}, {257, 33}, {100, 260}, {300, 300}, {256, 256}, {512, 270}};
  const unsigned* s = S[mc::choose(th ? 8 : 6)]; const unsigned p = s[0] * s[1];
  const unsigned N[] = {1, 2, 63, 64, 65, 255, 256, 257, 511, 512, 513, p / 4, p / 2, p - 1, p, p + 1, 65536 < p ? 70000 : p / 3};
  const unsigned n = mc::pick(N);
  both(Area{1, 4, s[0], s[1], s[0] + 3, s[1] + 6}, n, 2 * n);
}
/* One plotter, whose area, bytes and styler change from plot to plot. */
template <class P> static void again(const char* kind, bool linear) {
  const unsigned iw = 16, ih = 14; static const unsigned N[] = {3, 9, 21};
  Image img(iw, ih, ImgBufferFormat::R8_G8_B8); img.reallocate();
  std::vector<uint8_t> d[3]; for (int k = 0; k < 3; k++) for (unsigned i = 0; i < N[k]; i++) d[k].push_back((uint8_t) (k * 50 + i));
  C3PValue v(d[0].data(), N[0]), other(d[1].data(), N[1]); Tinter t(&img), u(&img);
  Area a{0, 0, 0, 0, iw, ih}; unsigned now = 0; bool swapped = false, styled = false;
  P p(nullptr, nullptr, &img);
  MC_CHECK(p.plotterID() == (linear ? BlobPlotterID::LINEAR : BlobPlotterID::HILBERT), "id", "a %s plotter says that it is %d", kind, (int) p.plotterID());
  for (int step = 0; step < 4; step++) {
    bool force = true;
    switch (mc::choose(step ? 5 : 1)) {
      case 0: a.px = 1 + step; a.py = 2; a.w = 9 - step; a.h = 5 + step; p.setParameters(a.px, a.py, a.w, a.h); p.setBlob(&v); swapped = false; p.setStyler(&t); styled = false; force = false; break;
      case 1: now = (now + 2) % 3; v.set(d[now].data(), N[now]); force = swapped; break;
      case 2: swapped = !swapped; p.setBlob(swapped ? &other : &v); break;
      case 3: styled = !styled; p.setStyler(styled ? &u : &t); break;
      case 4: a.w = 2 + step; a.h = 3; p.setParameters(a.px, a.py, a.w, a.h); force = false; break;
    }
    for (unsigned y = 0; y < ih; y++) for (unsigned x = 0; x < iw; x++) img.setPixel(x, y, ground(x, y));
    const std::vector<uint8_t>& want = swapped ? d[1] : d[now]; Tinter& used = styled ? u : t;
    t.want.clear(); u.want.clear(); used.want = want; t.sound = u.sound = true;
    mc::op("%u bytes in %ux%u at (%u,%u)", (unsigned) want.size(), a.w, a.h, a.px, a.py);
    const int r = p.apply(force);                         // any change of area or bytes is drawn without being forced
    judge(kind, linear, a, (unsigned) want.size(), r, read(img), nullptr, p.bytesWide(), p.bytesHigh());
    MC_CHECK(t.sound && u.sound, "styler", "a styler was shown something other than the bytes");
    MC_CHECK(p.renderLength() == want.size(), "length", "%u bytes are said to be plotted, not %zu", p.renderLength(), want.size());
    mc::steps(1);
  }
}
/* Without an image, a styler or bytes, nothing is drawn. */
template <class P> static void missing() {
  Image img(9, 9, ImgBufferFormat::R8_G8_B8), none(9, 9, ImgBufferFormat::R8_G8_B8); img.reallocate();
  for (unsigned y = 0; y < 9; y++) for (unsigned x = 0; x < 9; x++) img.setPixel(x, y, ground(x, y));
  const std::vector<uint8_t> d{1, 2, 3}; C3PValue v((uint8_t*) d.data(), 3); Tinter t(&img); t.want = d;
  const unsigned lack = mc::choose(16); const bool force = mc::flip();
  mc::op("without%s%s%s%s", lack & 1 ? " styler" : "", lack & 2 ? " bytes" : "", lack & 4 ? " image" : "", lack & 8 ? " memory" : "");
  P p(lack & 1 ? nullptr : &t, lack & 2 ? nullptr : &v, lack & 4 ? nullptr : lack & 8 ? &none : &img, 1, 1, 4, 4);
  const int r = p.apply(force); const bool drawn = read(img)[10] != ground(1, 1);
  MC_CHECK(drawn == !lack, "missing", "returned %d, and %s", r, drawn ? "drew" : "did not draw");
  MC_CHECK(lack ? (r < 0 || (lack & 2)) : r == 0, "result", "a plot that %s returned %d", drawn ? "was drawn" : "lacks something", r);
  mc::steps(1);
}
/* The stylers that the library has. */
static void stylers() {
  static const unsigned AT[] = {0, 1, 2, 5, 7};
  Image img(4, 4, ImgBufferFormat::R8_G8_B8); img.reallocate();
  uint8_t buf[8]; for (int i = 0; i < 8; i++) buf[i] = (uint8_t) (i * 37);
  if (mc::flip()) {
    BlobStylerHeatMap h(&img, 0, 0); BlobStylerEntropyMap e(&img);
    MC_CHECK(h.stylerID() == BlobStylerID::HEAT && e.stylerID() == BlobStylerID::ENTROPY, "id", "the stylers have the wrong names");
    for (unsigned v = 0; v < 256; v++) { buf[3] = (uint8_t) v; for (BlobStyler* s : {(BlobStyler*) &h, (BlobStyler*) &e}) { s->init(buf, 8); const uint32_t c = s->getColor(buf, 8, 3); MC_CHECK(c == v * 0x010101, "grey", "a byte of %u is shown as %06x", v, c); mc::steps(1); } }
    return;
  }
  BlobStylerExplicitFencing f(&img); std::vector<std::pair<unsigned, uint32_t>> fence;
  MC_CHECK(f.stylerID() == BlobStylerID::FENCING, "id", "the styler has the wrong name");
  for (unsigned k = 1; k <= 4; k++) {
    const unsigned what = mc::choose(7);
    if (what == 6) { f.wipe(); fence.clear(); mc::op("wipe"); }
    else if (what < 5) {
      const unsigned at = AT[what]; bool taken = false; for (auto& x : fence) taken |= x.first == at;
      const uint32_t color = 0x111111 * k; const int r = f.addOffset(at, color); mc::op("fence at %u: %d", at, r);
      MC_CHECK((r == 0) == !taken, "fence", "a fence at %u, where there is %s, returned %d", at, taken ? "one already" : "none", r);
      if (!taken) fence.emplace_back(at, color);
    }
    f.init(buf, 8);
    for (unsigned i = 0; i < 8; i++) {
      uint32_t want = 0; int best = -1; for (auto& x : fence) if (x.first <= i && (int) x.first > best) { best = (int) x.first; want = x.second; }
      const uint32_t c = f.getColor(buf, 8, i);
      MC_CHECK(c == want, "fenced", "the byte at %u is shown as %06x, not %06x (the fence at %d)", i, c, want, best);
    }
    mc::steps(1);
  }
}

int main(int argc, char** argv) {
  const bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  std::vector<mc::Config> c;
  c.emplace_back("areas", [=]{ small(th ? 40 : 24); }, 2, "areas of 1x1 to 24x24 (40x40) with every number of bytes from none to one too many, with and without a map");
  c.emplace_back("places", [=]{ places(); }, 3, "9 areas of up to 7x7 at 121 places in and outside of an image, and empty ones, with 4 numbers of bytes");
  c.emplace_back("large", [=]{ large(th); }, 2, "areas of up to 300 pixels a side with 17 numbers of bytes");
  c.emplace_back("again", [=]{ if (mc::flip()) again<BlobPlotterLinear>("linear", true); else again<BlobPlotterHilbertCurve>("Hilbert", false); }, 3, "one plotter through every series of 4 changes of its area, bytes or styler");
  c.emplace_back("missing", [=]{ if (mc::flip()) missing<BlobPlotterLinear>(); else missing<BlobPlotterHilbertCurve>(); }, 2, "plots without image, its memory, styler or bytes");
  c.emplace_back("stylers", [=]{ stylers(); }, 3, "every byte under two stylers; every series of 4 fences among 5 places, and wiping them");
  return mc::main(argc, argv, "C53", c, {"images of 24-bit colour; whether an unforced plot draws again what has not changed is not specified", "a plot that touches the right or lower edge of its image may be refused, as may a Hilbert plot that would need squares of less than a pixel", "which way the Hilbert curve runs is not specified, only that successive bytes touch"});
}
