/* C40: images: every pixel of every format, orientation and size against a map of what was set; shapes against their geometry, and against the same shape on a larger canvas. */
#include "../mc/mc.h"
#include "Image/Image.h"
#include "Image/Fonts/FreeMono9pt7b.h"
#include "Image/Fonts/Picopixel.h"
#include <vector>
#include <string>
#include <algorithm>
#include <memory>
#include <math.h>

typedef ImgBufferFormat F;
static const F FORMATS[] = {F::MONOCHROME, F::GREY_24, F::GREY_16, F::GREY_8, F::R8_G8_B8_ALPHA, F::R8_G8_B8, F::R5_G6_B5, F::R3_G3_B2};
static const F COLOURS[] = {F::R8_G8_B8, F::R5_G6_B5, F::R3_G3_B2};
static unsigned bits(F f) {
  switch (f) { case F::MONOCHROME: return 1; case F::GREY_4: return 4; case F::GREY_8: case F::R3_G3_B2: return 8; case F::GREY_16: case F::R5_G6_B5: return 16; case F::GREY_24: case F::R8_G8_B8: return 24; case F::R8_G8_B8_ALPHA: return 32; default: return 0; }
}
static uint32_t held(F f, uint32_t c) { const unsigned b = bits(f); return b == 1 ? (c ? 0xFFFFFFFFu : 0) : b == 4 ? 0 : b == 32 ? c : c & ((1u << b) - 1); }
static uint32_t size_of(F f, uint32_t w, uint32_t h) { return (w * h * bits(f) + 7) / 8; }
/* An image over a buffer of exactly its size, so that any access outside it is caught. */
struct Canvas {
  std::vector<uint8_t*> mem; Image img; int W, H;            // W and H as seen by the user
  Canvas(F f, int w, int h, ImgOrientation o = ImgOrientation::ROTATION_0, bool fx = false, bool fy = false) : img(w, h, f), W(w), H(h) {
    uint8_t* b = (uint8_t*) malloc(size_of(f, w, h)); memset(b, 0, size_of(f, w, h)); mem.push_back(b); img.setBuffer(b);
    img.orientation(o); img.flipX(fx); img.flipY(fy);
    if (o == ImgOrientation::ROTATION_90 || o == ImgOrientation::ROTATION_270) std::swap(W, H);
  }
  ~Canvas() { for (uint8_t* b : mem) free(b); }
  uint32_t at(int x, int y) { return img.getPixel(x, y); }
};
typedef std::vector<uint32_t> Map;
static Map read_all(Canvas& c) { Map m; for (int y = 0; y < c.H; y++) for (int x = 0; x < c.W; x++) m.push_back(c.at(x, y)); return m; }

static const PixUInt FAR[] = {32767, 32768, 65534, 65535};
static const uint32_t INKS[] = {0xFFFFFFFFu, 0x00000001u, 0x80402010u, 0x12345678u, 0};
static void pixels(int wmax, int hmax) {
  const F f = mc::pick(FORMATS); const int w = 1 + mc::choose(wmax), h = 1 + mc::choose(hmax); const ImgOrientation o = (ImgOrientation) mc::choose(4); const bool fx = mc::flip(), fy = mc::flip();
  mc::op("%s of %dx%d, turned %g, flipped %d %d", Image::formatString(f), w, h, (double) Image::rotationAngle(o), fx, fy);
  Canvas c(f, w, h, o, fx, fy);
  MC_CHECK(c.img.bytesUsed() == size_of(f, w, h) && c.img.bitsPerPixel() == bits(f) && c.img.pixels() == (uint32_t) (w * h), "size", "%u bytes, not %u", c.img.bytesUsed(), size_of(f, w, h));
  const unsigned back = mc::choose(3);
  Map want;
  for (int y = 0; y < c.H; y++) for (int x = 0; x < c.W; x++) {
    const uint32_t v = back == 0 ? 0 : back == 1 ? 0xFFFFFFFFu : 0x9E3779B9u * (uint32_t) (1 + x * 31 + y) & ((x ^ y) & 1 ? 0xFFFFFFFFu : 0);
    MC_CHECK(c.img.setPixel(x, y, v), "set:answer", "setting (%d,%d) was refused", x, y); want.push_back(held(f, v));
  }
  auto whole = [&](const char* when) {
    const Map got = read_all(c);
    for (size_t i = 0; i < want.size(); i++) MC_CHECK(got[i] == want[i], "pixel", "%s, (%zu,%zu) is %08x, not %08x", when, i % c.W, i / c.W, got[i], want[i]);
  };
  whole("once painted");
  for (int y = 0; y < c.H; y++) for (int x = 0; x < c.W; x++) for (uint32_t ink : INKS) {
    mc::steps(1);
    MC_CHECK(c.img.setPixel(x, y, ink), "set:answer", "setting (%d,%d) was refused", x, y); want[y * c.W + x] = held(f, ink);
    if (c.W * c.H <= 32 || ink == INKS[0]) whole("after setting one"); else MC_CHECK(c.at(x, y) == held(f, ink), "pixel", "(%d,%d) is %08x, not %08x", x, y, c.at(x, y), held(f, ink));
  }
  whole("after setting all");
  std::vector<std::pair<PixUInt, PixUInt>> out;
  for (int i = 0; i <= 3; i++) for (int x = 0; x < c.W + 2; x++) { out.push_back({(PixUInt) x, (PixUInt) (c.H + i)}); out.push_back({(PixUInt) x, FAR[i]}); }
  for (int i = 0; i <= 3; i++) for (int y = 0; y < c.H + 2; y++) { out.push_back({(PixUInt) (c.W + i), (PixUInt) y}); out.push_back({FAR[i], (PixUInt) y}); }
  for (auto& p : out) for (uint32_t ink : {0xFFFFFFFFu, 0u}) {
    MC_CHECK(!c.img.setPixel(p.first, p.second, ink) && !c.img.setPixel(p.first, p.second, (uint8_t) ink, (uint8_t) ink, (uint8_t) ink), "outside:set", "setting (%u,%u) of %dx%d was answered true", p.first, p.second, c.W, c.H);
    MC_CHECK(c.at(p.first, p.second) == 0, "outside:get", "(%u,%u) of %dx%d is %08x", p.first, p.second, c.W, c.H, c.at(p.first, p.second));
    mc::steps(1);
  }
  whole("after setting pixels outside");
  for (uint32_t ink : INKS) { c.img.fill(ink); std::fill(want.begin(), want.end(), held(f, ink)); whole("after filling"); }
}
static uint32_t pack(F f, unsigned r, unsigned g, unsigned b) {
  switch (f) { case F::R8_G8_B8: return r << 16 | g << 8 | b; case F::R5_G6_B5: return r >> 3 << 11 | g >> 2 << 5 | b >> 3; case F::R3_G3_B2: return r >> 5 << 5 | g >> 5 << 2 | b >> 6; default: return 0; }
}
static void colours() {
  const F f = mc::pick(COLOURS); Canvas c(f, 3, 2), before(f, 3, 2); mc::op("%s", Image::formatString(f));
  static const int L[] = {0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 200, 254, 255};
  const int r = mc::pick(L), g = mc::pick(L), b = mc::pick(L); mc::op("colour %d %d %d", r, g, b);
  c.img.fill(0x005A5A5A); before.img.fill(0x005A5A5A);
  MC_CHECK(c.img.setPixel(1, 1, (uint8_t) r, (uint8_t) g, (uint8_t) b), "rgb:answer", "setting a colour was refused"); mc::steps(1);
  MC_CHECK(c.at(1, 1) == pack(f, r, g, b), "rgb:pixel", "(%d %d %d) reads %06x, not %06x", r, g, b, c.at(1, 1), pack(f, r, g, b));
  for (int y = 0; y < 2; y++) for (int x = 0; x < 3; x++) if (x != 1 || y != 1) MC_CHECK(c.at(x, y) == before.at(x, y), "rgb:others", "setting (1,1) changed (%d,%d)", x, y);
  /* Read as another colour format: each channel keeps its upper bits. */
  unsigned R, G, B; const uint32_t p = c.at(1, 1);
  if (f == F::R8_G8_B8) { R = p >> 16 & 255; G = p >> 8 & 255; B = p & 255; } else if (f == F::R5_G6_B5) { R = (p >> 11) << 3; G = (p >> 5 & 63) << 2; B = (p & 31) << 3; } else { R = (p >> 5) << 5; G = (p >> 2 & 7) << 5; B = (p & 3) << 6; }
  for (F t : COLOURS) MC_CHECK(c.img.getPixelAsFormat(1, 1, t) == pack(t, R, G, B), "as-format", "%06x of %s reads %06x as %s, not %06x", p, Image::formatString(f), c.img.getPixelAsFormat(1, 1, t), Image::formatString(t), pack(t, R, G, B));
  MC_CHECK(c.img.getPixelAsFormat(1, 1, F::MONOCHROME) == (p ? 0xFFFFFFFFu : 0), "as-format", "%06x reads %08x as monochrome", p, c.img.getPixelAsFormat(1, 1, F::MONOCHROME));
  Canvas m(F::MONOCHROME, 3, 5); MC_CHECK(m.img.setPixel(2, 4, (uint8_t) r, (uint8_t) g, (uint8_t) b) && m.at(2, 4) == (r || g || b ? 0xFFFFFFFFu : 0), "rgb:mono", "(%d %d %d) reads %08x in monochrome", r, g, b, m.at(2, 4));
  for (int y = 0; y < 5; y++) for (int x = 0; x < 3; x++) if (x != 2 || y != 4) MC_CHECK(m.at(x, y) == 0, "rgb:others", "setting (2,4) changed (%d,%d)", x, y);
}
/* Shapes.  Each is drawn on a canvas with room all around, where its geometry is checked, and on small images of two formats that crop it, which must show exactly the crop. */
enum { OFF = 24, BIG = 64 };
static Canvas* big; static F small_format;
template <typename D> static std::vector<char> shape(D draw, int W, int H, bool crop) {
  big->img.fill(0); draw(big->img, OFF);
  std::vector<char> s(BIG * BIG);
  for (int y = 0; y < BIG; y++) for (int x = 0; x < BIG; x++) { const uint32_t v = big->at(x, y); MC_CHECK(v == 0 || v == 1, "shape:colour", "a pixel of colour %08x", v); s[y * BIG + x] = (char) v; }
  if (crop) {
    Canvas c(small_format, W, H); draw(c.img, 0); mc::steps(1);
    for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) {
      const bool got = c.at(x, y) != 0, want = s[(y + OFF) * BIG + x + OFF];
      MC_CHECK(got == want, "shape:crop", "on %dx%d, (%d,%d) is %s, and on a larger canvas %s", W, H, x, y, got ? "drawn" : "not drawn", want ? "drawn" : "not drawn");
    }
  }
  return s;
}
static bool in(const std::vector<char>& s, int x, int y) { x += OFF; y += OFF; return x >= 0 && y >= 0 && x < BIG && y < BIG && s[y * BIG + x]; }
static void format() { static const F FS[] = {F::GREY_8, F::MONOCHROME, F::R5_G6_B5}; small_format = mc::pick(FS); mc::op("on %s", Image::formatString(small_format)); }
static void line(int n) {
  format(); Canvas b(F::GREY_8, BIG, BIG); big = &b;
  const int x0 = mc::choose(n), y0 = mc::choose(n); mc::op("from (%d,%d)", x0, y0);
  for (int x1 = 0; x1 < n; x1++) for (int y1 = 0; y1 < n; y1++) {
    const std::vector<char> s = shape([=](Image& i, int o) { i.drawLine(x0 + o, y0 + o, x1 + o, y1 + o, 1); }, 5, 4, true), t = shape([=](Image& i, int o) { i.drawLine(x1 + o, y1 + o, x0 + o, y0 + o, 1); }, 5, 4, true);
    MC_CHECK(s == t, "line:reverse", "the line to (%d,%d) differs when drawn backwards", x1, y1);
    MC_CHECK(in(s, x0, y0) && in(s, x1, y1), "line:ends", "the line to (%d,%d) misses an end", x1, y1);
    const int dx = abs(x1 - x0), dy = abs(y1 - y0), len = std::max(dx, dy); int count = 0;
    for (char p : s) count += p;
    MC_CHECK(count == len + 1, "line:length", "the line to (%d,%d) has %d pixels", x1, y1, count);
    for (int y = -OFF; y < BIG - OFF; y++) for (int x = -OFF; x < BIG - OFF; x++) if (in(s, x, y)) {
      const double off = len == 0 ? 0 : (dx >= dy ? y - (y0 + (double) (y1 - y0) * (x - x0) / (x1 - x0)) : x - (x0 + (double) (x1 - x0) * (y - y0) / (y1 - y0)));
      MC_CHECK(fabs(off) <= 0.5 + 0.5 / std::max(len, 1) + 1e-9, "line:straight", "the line to (%d,%d) passes (%d,%d), off by %g", x1, y1, x, y, off);
    }
  }
}
static void far_lines() {
  Canvas c(mc::flip() ? F::GREY_8 : F::MONOCHROME, 4, 3); const PixUInt far = mc::pick(FAR); const int k = mc::choose(3); mc::op("to %u, at %d", far, k);
  auto show = [&](const char* what, auto want) { for (int y = 0; y < 3; y++) for (int x = 0; x < 4; x++) MC_CHECK((c.at(x, y) != 0) == want(x, y), "far", "%s: (%d,%d) is %08x", what, x, y, c.at(x, y)); c.img.fill(0); mc::steps(1); };
  c.img.drawLine(k, 1, k, far, 1); show("a line down", [=](int x, int y) { return x == k && y >= 1; });
  c.img.drawLine(far, k, 1, k, 1); show("a line to the right, drawn backwards", [=](int x, int y) { return y == k && x >= 1; });
  c.img.drawLine(far, far, far, far, 1); show("a point far away", [](int, int) { return false; });
}
static void rects(int lo, int hi) {
  format(); Canvas b(F::GREY_8, BIG, BIG); big = &b;
  const int x = lo + (int) mc::choose(hi - lo), y = lo + (int) mc::choose(hi - lo), w = mc::choose(8), what = mc::choose(4); static const char* NAMES[] = {"fillRect", "drawRect", "drawFastHLine", "drawFastVLine"};
  mc::op("%s at (%d,%d), %d wide", NAMES[what], x, y, w);
  for (int h = 0; h < (what < 2 ? 8 : 1); h++) {
    const std::vector<char> s = shape([=](Image& i, int o) {
      switch (what) { case 0: i.fillRect(x + o, y + o, w, h, 1); break; case 1: i.drawRect(x + o, y + o, w, h, 1); break; case 2: i.drawFastHLine(x + o, y + o, w, 1); break; case 3: i.drawFastVLine(x + o, y + o, w, 1); break; } }, 5, 4, true);
    for (int j = -OFF; j < BIG - OFF; j++) for (int i = -OFF; i < BIG - OFF; i++) {
      const int W = what == 3 ? 1 : w, H = what == 2 ? 1 : what == 3 ? w : h; bool want = i >= x && j >= y && i < x + W && j < y + H;
      if (what == 1) want = want && (i == x || j == y || i == x + w - 1 || j == y + h - 1);
      MC_CHECK(in(s, i, j) == want, "rect", "%d high: (%d,%d) is %s", h, i, j, want ? "not drawn" : "drawn");
    }
  }
}
/* What an outline encloses: everything its outside cannot reach by steps along the axes. */
static std::vector<char> enclosed(const std::vector<char>& s) {
  std::vector<char> out(BIG * BIG, 1); std::vector<int> todo{0}; out[0] = 0;
  while (!todo.empty()) {
    const int p = todo.back(); todo.pop_back(); const int x = p % BIG, y = p / BIG;
    for (int d = 0; d < 4; d++) { const int i = x + (d == 0) - (d == 1), j = y + (d == 2) - (d == 3); if (i >= 0 && j >= 0 && i < BIG && j < BIG && out[j * BIG + i] && !s[j * BIG + i]) { out[j * BIG + i] = 0; todo.push_back(j * BIG + i); } }
  }
  return out;
}
static void circles(int rmax) {
  format(); Canvas b(F::GREY_8, BIG, BIG); big = &b;
  const int r = mc::choose(rmax + 1), x0 = (int) mc::choose(6 + 2 * r) - r, y0 = (int) mc::choose(5 + 2 * r) - r; mc::op("circle of %d at (%d,%d)", r, x0, y0);
  const std::vector<char> s = shape([=](Image& i, int o) { i.drawCircle(x0 + o, y0 + o, r, 1); }, 5, 4, true), f = shape([=](Image& i, int o) { i.fillCircle(x0 + o, y0 + o, r, 1); }, 5, 4, true);
  MC_CHECK(f == enclosed(s), "circle:fill", "the filled circle is not what the outline encloses");
  MC_CHECK(in(f, x0, y0), "circle:centre", "the filled circle lacks its centre");
  for (int y = -OFF; y < BIG - OFF; y++) for (int x = -OFF; x < BIG - OFF; x++) {
    const double d = sqrt((x - x0) * (x - x0) + (y - y0) * (y - y0));
    if (in(s, x, y)) {
      MC_CHECK(fabs(d - r) < 0.8, "circle:round", "(%d,%d) is %g from the centre", x, y, d);
      MC_CHECK(in(s, x0 + (y - y0), y0 + (x - x0)) && in(s, 2 * x0 - x, y) && in(s, x, 2 * y0 - y), "circle:symmetry", "(%d,%d) has no reflection", x, y);
    }
    if (d <= r - 0.8) MC_CHECK(in(f, x, y), "circle:fill", "(%d,%d), %g from the centre, is not filled", x, y, d);
  }
}
static void round_rects() {
  format(); Canvas b(F::GREY_8, BIG, BIG); big = &b;
  const int x = (int) mc::choose(7) - 4, y = (int) mc::choose(7) - 4, w = mc::choose(10), h = mc::choose(10); mc::op("rounded rectangle at (%d,%d), %dx%d", x, y, w, h);
  for (int r = 0; r < 6; r++) {
    const std::vector<char> s = shape([=](Image& i, int o) { i.drawRoundRect(x + o, y + o, w, h, r, 1); }, 5, 4, true), f = shape([=](Image& i, int o) { i.fillRoundRect(x + o, y + o, w, h, r, 1); }, 5, 4, true);
    const int R = std::min(r, std::min(w, h) / 2);
    for (int j = -OFF; j < BIG - OFF; j++) for (int i = -OFF; i < BIG - OFF; i++) {
      const bool inside = i >= x && j >= y && i < x + w && j < y + h;
      /* distance from the nearest edge of the rectangle shrunk by R, whose rounded growth this is */
      const double cx = std::max({x + R - i, 0, i - (x + w - 1 - R)}), cy = std::max({y + R - j, 0, j - (y + h - 1 - R)}), d = sqrt(cx * cx + cy * cy);
      if (!inside) MC_CHECK(!in(s, i, j) && !in(f, i, j), "round:outside", "radius %d: (%d,%d) is drawn", r, i, j);
      else {
        const bool edge = i == x || j == y || i == x + w - 1 || j == y + h - 1, corner = cx > 0 && cy > 0;
        if (!corner) MC_CHECK(in(s, i, j) == edge && in(f, i, j), "round:straight", "radius %d: (%d,%d) is outlined %d, filled %d", r, i, j, in(s, i, j), in(f, i, j));
        else { if (in(s, i, j)) MC_CHECK(fabs(d - R) < 0.8, "round:corner", "radius %d: (%d,%d) is outlined", r, i, j); MC_CHECK(in(f, i, j) ? d < R + 0.8 : d > R - 0.8, "round:corner", "radius %d: (%d,%d) is filled %d", r, i, j, in(f, i, j)); }
      }
    }
  }
}
static void triangles(int n) {
  format(); Canvas b(F::GREY_8, BIG, BIG); big = &b;
  const int x0 = mc::choose(n), y0 = mc::choose(n), x1 = mc::choose(n), y1 = mc::choose(n); mc::op("triangle of (%d,%d) (%d,%d)", x0, y0, x1, y1);
  for (int x2 = 0; x2 < n; x2++) for (int y2 = 0; y2 < n; y2++) {
    const std::vector<char> s = shape([=](Image& i, int o) { i.drawTriangle(x0 + o, y0 + o, x1 + o, y1 + o, x2 + o, y2 + o, 1); }, 3, 4, true), f = shape([=](Image& i, int o) { i.fillTriangle(x0 + o, y0 + o, x1 + o, y1 + o, x2 + o, y2 + o, 1); }, 3, 4, true);
    const std::vector<char> l = shape([=](Image& i, int o) { i.drawLine(x0 + o, y0 + o, x1 + o, y1 + o, 1); i.drawLine(x2 + o, y2 + o, x1 + o, y1 + o, 1); i.drawLine(x0 + o, y0 + o, x2 + o, y2 + o, 1); }, 3, 4, false);
    MC_CHECK(s == l, "triangle:outline", "with (%d,%d), the outline is not its three lines", x2, y2);
    const int xs[] = {x0, x1, x2}, ys[] = {y0, y1, y2}, lo = std::min({y0, y1, y2}), hi = std::max({y0, y1, y2});
    for (int y = -OFF; y < BIG - OFF; y++) {
      int first = 999, last = -999, count = 0;
      for (int x = -OFF; x < BIG - OFF; x++) if (in(f, x, y)) { first = std::min(first, x); last = std::max(last, x); count++; }
      if (y < lo || y > hi) { MC_CHECK(count == 0, "triangle:rows", "with (%d,%d), row %d is filled", x2, y2, y); continue; }
      double L = 999, R = -999;
      for (int e = 0; e < 3; e++) {
        const int ax = xs[e], ay = ys[e], bx = xs[(e + 1) % 3], by = ys[(e + 1) % 3];
        if (y < std::min(ay, by) || y > std::max(ay, by)) continue;
        if (ay == by) { L = std::min({L, (double) ax, (double) bx}); R = std::max({R, (double) ax, (double) bx}); }
        else { const double x = ax + (double) (bx - ax) * (y - ay) / (by - ay); L = std::min(L, x); R = std::max(R, x); }
      }
      MC_CHECK(count > 0 && count == last - first + 1, "triangle:rows", "with (%d,%d), row %d has %d pixels from %d to %d", x2, y2, y, count, first, last);
      MC_CHECK(fabs(first - L) < 1 && fabs(last - R) < 1, "triangle:edges", "with (%d,%d), row %d is filled from %d to %d, not %g to %g", x2, y2, y, first, last, L, R);
    }
  }
}
static void text(bool) {
  format(); Canvas b(F::GREY_8, BIG, BIG); big = &b;
  static const GFXfont* FONTS[] = {nullptr, &FreeMono9pt7b, &Picopixel};
  const GFXfont* font = FONTS[mc::choose(3)]; const int size = 1 + mc::choose(font ? 2 : 3), x = mc::choose(6), y = mc::choose(6); const bool strict = !font && mc::flip();
  mc::op("text of %s, size %d at (%d,%d)", font ? font == FONTS[1] ? "FreeMono9pt7b" : "Picopixel" : "the classic font", size, x, y);
  for (int c = font ? font->first : 0; c <= (font ? font->last : 255); c++) {
    auto draw = [=](uint32_t bg) { return [=](Image& i, int o) { i.setFont(font); i.cp437(strict); i.drawChar(x + o, y + o, (unsigned char) c, 1, bg, size); }; };
    const std::vector<char> s = shape(draw(1), 5, 6, true);
    if (font) {
      const GFXglyph& g = font->glyph[c - font->first]; std::vector<char> want(BIG * BIG); unsigned bit = 0;
      for (int j = 0; j < g.height; j++) for (int i = 0; i < g.width; i++, bit++) if (font->bitmap[g.bitmapOffset + bit / 8] >> (7 - bit % 8) & 1)
        for (int v = 0; v < size; v++) for (int u = 0; u < size; u++) { const int px = x + OFF + (g.xOffset + i) * size + u, py = y + OFF + (g.yOffset + j) * size + v; if (px >= 0 && py >= 0 && px < BIG && py < BIG) want[py * BIG + px] = 1; }
      MC_CHECK(s == want, "text:glyph", "character %d is not its glyph", c);
    }
    else {
      const std::vector<char> one = shape([=](Image& i, int o) { i.setFont(nullptr); i.cp437(strict); i.drawChar(o, o, (unsigned char) c, 1, 1, 1); }, 5, 6, true);
      for (int j = -OFF; j < BIG - OFF; j++) for (int i = -OFF; i < BIG - OFF; i++) {
        const bool cell = i >= x && j >= y && i < x + 6 * size && j < y + 8 * size, want = cell && in(one, (i - x) / size, (j - y) / size);
        MC_CHECK(in(s, i, j) == want, "text:size", "character %d: (%d,%d) is %s", c, i, j, want ? "not drawn" : "drawn");
        MC_CHECK(!in(one, i, j) || (i >= 0 && j >= 0 && i < 5 && j < 8), "text:cell", "character %d draws (%d,%d)", c, i, j);
      }
      /* With a background: the whole cell, and nothing else. */
      big->img.fill(7); draw(3)(big->img, OFF);
      for (int j = -OFF; j < BIG - OFF; j++) for (int i = -OFF; i < BIG - OFF; i++) {
        const bool cell = i >= x && j >= y && i < x + 6 * size && j < y + 8 * size; const uint32_t want = in(s, i, j) ? 1 : cell ? 3 : 7;
        MC_CHECK(big->at(i + OFF, j + OFF) == want, "text:background", "character %d: (%d,%d) is %u, not %u", c, i, j, big->at(i + OFF, j + OFF), want);
      }
    }
  }
}
static void writing(unsigned depth) {
  const bool wrap = mc::flip(); const int size = 1 + mc::choose(2), cx = mc::choose(3) * 5, cy = mc::choose(3) * 5, W = 26, H = 40;
  std::string str; for (unsigned i = 0; i < depth; i++) { static const char C[] = {'A', '\n', 'g', '\r', '|'}; const unsigned k = mc::choose(6); if (k == 5) break; str += C[k]; }
  mc::op("writing %s at (%d,%d), size %d, wrap %d", mc::hex(str).c_str(), cx, cy, size, wrap);
  Canvas c(F::GREY_8, W, H), want(F::GREY_8, W, H);
  PixUInt bx[3], by[3], bw[3], bh[3];
  for (Canvas* p : {&c, &want}) { p->img.setTextSize(size); p->img.setTextColor(1); p->img.textWrap(wrap); p->img.setCursor(cx, cy); }
  StringBuilder sb(str.c_str());
  c.img.getTextBounds(str.c_str(), cx, cy, &bx[0], &by[0], &bw[0], &bh[0]);
  c.img.getTextBounds((const uint8_t*) str.c_str(), cx, cy, &bx[1], &by[1], &bw[1], &bh[1]);
  c.img.getTextBounds(&sb, cx, cy, &bx[2], &by[2], &bw[2], &bh[2]);
  if (mc::flip()) c.img.writeString(str.c_str()); else if (!str.empty()) c.img.writeString(&sb);
  else return;
  int x = cx, y = cy;
  for (char ch : str) {
    if (ch == '\n') { y += 8 * size; x = 0; }
    else if (ch != '\r') { if (wrap && x + 6 * size > W) { x = 0; y += 8 * size; } want.img.drawChar(x, y, ch, 1, 1, size); x += 6 * size; }
  }
  mc::steps(1);
  MC_CHECK(read_all(c) == read_all(want), "write", "the text is not its characters, one after the other");
  MC_CHECK(c.img.getCursorX() == x && c.img.getCursorY() == y, "write:cursor", "the cursor is at (%u,%u), not (%d,%d)", c.img.getCursorX(), c.img.getCursorY(), x, y);
  for (int k = 0; k < (str.empty() ? 2 : 3); k++) {
    for (int j = 0; j < H; j++) for (int i = 0; i < W; i++) if (c.at(i, j)) MC_CHECK(i >= bx[k] && j >= by[k] && i < bx[k] + bw[k] && j < by[k] + bh[k], "bounds", "(%d,%d) is outside the bounds (%u,%u) %ux%u of form %d", i, j, bx[k], by[k], bw[k], bh[k], k);
    MC_CHECK(bx[k] == bx[0] && by[k] == by[0] && bw[k] == bw[0] && bh[k] == bh[0], "bounds", "form %d of the bounds is (%u,%u) %ux%u, not (%u,%u) %ux%u", k, bx[k], by[k], bw[k], bh[k], bx[0], by[0], bw[0], bh[0]);
    MC_CHECK(bw[k] <= W + 6 * size * (int) depth && bh[k] <= 8 * size * (int) (depth + 1), "bounds", "the bounds of form %d are %ux%u", k, bw[k], bh[k]);
  }
}
/* Buffers: ownership, size and format over histories. */
static void buffers(unsigned depth) {
  const int64_t base = mc::live_blocks();
  {
    static const F FS[] = {F::UNALLOCATED, F::MONOCHROME, F::R8_G8_B8, F::R5_G6_B5}; static const int D[] = {0, 1, 3};
    const F f0 = mc::pick(FS); const int w0 = mc::pick(D), h0 = mc::pick(D);
    mc::op("%s of %dx%d", Image::formatString(f0), w0, h0);
    uint8_t* given[8]; unsigned ngiven = 0; uint8_t src[32]; for (int i = 0; i < 32; i++) src[i] = (uint8_t) (i * 37 + 1);
    {
      Image img(w0, h0, f0); F f = f0; int w = w0, h = h0; enum { NONE, OURS, FOREIGN } own = NONE; std::vector<uint8_t> want;
      for (unsigned k = 0; k < depth; k++) {
        const unsigned what = mc::choose(6);
        if (what == 0) {
          const int nw = mc::pick(D), nh = mc::pick(D); mc::op("setSize %dx%d", nw, nh); const bool r = img.setSize(nw, nh), ok = f != F::UNALLOCATED && own != FOREIGN;
          MC_CHECK(r == ok, "size:answer", "setSize was answered %d", r);
          if (ok || own == NONE) { w = nw; h = nh; } if (ok) { own = OURS; want.assign(size_of(f, w, h), 0); }
        }
        else if (what == 1) { mc::op("reallocate"); const bool r = img.reallocate(), ok = f != F::UNALLOCATED && own != FOREIGN; MC_CHECK(r == ok, "realloc:answer", "reallocate was answered %d", r); if (ok) { own = OURS; want.assign(size_of(f, w, h), 0); } }
        else if (what == 2) {
          const F nf = mc::pick(FS); mc::op("setBufferByCopy as %s", Image::formatString(nf)); const F of = f; const bool r = img.setBufferByCopy(src, nf);
          const bool fits = own == FOREIGN ? bits(nf) == bits(of) && f != F::UNALLOCATED : nf != F::UNALLOCATED;
          MC_CHECK(r == fits, "copy:answer", "setBufferByCopy was answered %d", r);
          if (fits) { f = nf; if (own == NONE) own = OURS; want.assign(src, src + size_of(f, w, h)); }
        }
        else if (what == 3) {
          const F nf = FS[1 + mc::choose(3)]; mc::op("setBuffer as %s", Image::formatString(nf)); const uint32_t n = size_of(nf, w, h); uint8_t* g = (uint8_t*) malloc(n); memset(g, 0x5A, n); given[ngiven++] = g;
          MC_CHECK(img.setBuffer(g, nf), "set:answer", "setBuffer was refused"); f = nf; own = FOREIGN; want.assign(n, 0x5A);
        }
        else if (what == 4) { mc::op("wipe"); img.wipe(); f = F::UNALLOCATED; w = h = 0; own = NONE; want.clear(); }
        else {                                               // draw, anywhere
          mc::op("draw"); img.fill(0xFFFFFFFF); img.drawLine(0, 0, 3, 3, 0); img.setPixel(2, 2, 0xFF00FF); img.setPixel(1, 0, 255, 255, 255);
          want.assign(img.buffer(), img.buffer() + (own == NONE ? 0 : size_of(f, w, h)));
        }
        mc::steps(1);
        MC_CHECK(img.x() == w && img.y() == h && img.format() == f && img.allocated() == (own != NONE), "buffer:state", "the image is %s of %ux%u, allocated %d; should be %s of %dx%d, %d", Image::formatString(img.format()), img.x(), img.y(), img.allocated(), Image::formatString(f), w, h, own != NONE);
        MC_CHECK(img.bytesUsed() == size_of(f, w, h), "buffer:size", "%u bytes", img.bytesUsed());
        if (own != NONE && !want.empty()) MC_CHECK(!memcmp(img.buffer(), want.data(), want.size()), "buffer:content", "the buffer holds %s, not %s", mc::hex(img.buffer(), want.size()).c_str(), mc::hex(want.data(), want.size()).c_str());
        if (own == FOREIGN) MC_CHECK(img.buffer() == given[ngiven - 1], "buffer:given", "the buffer is not the one given");
        for (int y = 0; y < 4; y++) for (int x = 0; x < 4; x++) if (x >= w || y >= h || own == NONE) MC_CHECK(img.getPixel(x, y) == 0, "buffer:outside", "(%d,%d) is %08x", x, y, img.getPixel(x, y));
      }
    }
    for (unsigned i = 0; i < ngiven; i++) free(given[i]);
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks were not released", (long long) (mc::live_blocks() - base));
}
static void large() {
  static const unsigned D[] = {1, 255, 4096, 8191, 8192, 16384, 23171, 32768, 46341, 65535};
  const F f = mc::pick(FORMATS); const unsigned w = mc::pick(D), h = mc::pick(D); const uint64_t n = ((uint64_t) w * h * bits(f) + 7) / 8; mc::op("%s of %ux%u", Image::formatString(f), w, h); mc::steps(1);
  Image img(w, h, f); MC_CHECK(img.bytesUsed() == std::min<uint64_t>(n, 0xFFFFFFFFu), "large:size", "%u bytes, not %llu", img.bytesUsed(), (unsigned long long) n);
  if (n > 0xE0000000u) MC_CHECK(!img.reallocate() && !img.allocated() && !img.setPixel(w - 1, h - 1, 1), "large:alloc", "%llu bytes were allocated", (unsigned long long) n);
}
/* Images wider or higher than a byte counts, and with more pixels than two do: each pixel, shapes and text as anywhere. */
static void wide() {
  static const unsigned D[] = {3, 127, 128, 129, 255, 256, 257, 300, 700}; const F f = mc::pick(FORMATS); const int w = mc::pick(D), h = mc::pick(D); if (w * h < 600 || w * h > 250000) throw mc::Prune();
  mc::op("%s of %dx%d", Image::formatString(f), w, h); Canvas c(f, w, h); mc::steps(1);
  auto ink = [](int x, int y) { return 0x9E3779B9u * (uint32_t) (1 + x * 1031 + y); };
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) c.img.setPixel(x, y, ink(x, y));
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) MC_CHECK(c.at(x, y) == held(f, ink(x, y)), "wide:pixel", "(%d,%d) is %08x, not %08x", x, y, c.at(x, y), held(f, ink(x, y)));
  auto expect = [&](const char* what, auto drawn) { for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { const uint32_t v = c.at(x, y), want = drawn(x, y) ? held(f, 0xFFFFFFFFu) : 0; MC_CHECK(v == want, "wide:shape", "%s: (%d,%d) is %08x, not %08x", what, x, y, v, want); } };
  c.img.fill(0xFFFFFFFF); expect("filling", [](int, int) { return true; }); c.img.fill(0); expect("emptying", [](int, int) { return false; });
  const int m = 2; auto box = [=](int x, int y) { return x >= m && y >= m && x < w - 1 && y < h - 1; };
  if (w > 3 && h > 3) {
    c.img.fillRect(m, m, w - 1 - m, h - 1 - m, 0xFFFFFFFF); expect("fillRect", box); c.img.fill(0);
    c.img.drawRect(m, m, w - 1 - m, h - 1 - m, 0xFFFFFFFF); expect("drawRect", [=](int x, int y) { return box(x, y) && (x == m || y == m || x == w - 2 || y == h - 2); }); c.img.fill(0);
    c.img.drawLine(0, 0, w - 1, h - 1, 0xFFFFFFFF);
    { int n = 0; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if (c.at(x, y)) { n++; const double off = w >= h ? y - (double) (h - 1) * x / (w - 1) : x - (double) (w - 1) * y / (h - 1); MC_CHECK(fabs(off) < 0.51, "wide:line", "the diagonal passes (%d,%d), off by %g", x, y, off); } MC_CHECK(n == std::max(w, h), "wide:line", "the diagonal has %d pixels", n); }
    c.img.fill(0); const int r = std::min(w, h) / 2 - 2, cx = w / 2, cy = h / 2;
    for (int filled = 0; filled < 2; filled++) {
      if (filled) c.img.fillCircle(cx, cy, r, 0xFFFFFFFF); else c.img.drawCircle(cx, cy, r, 0xFFFFFFFF);
      int n = 0; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { const double d = sqrt((double) (x - cx) * (x - cx) + (double) (y - cy) * (y - cy)); const bool on = c.at(x, y) != 0; n += on;
        if (on) MC_CHECK(filled ? d < r + 0.8 : fabs(d - r) < 0.8, "wide:circle", "a circle of %d: (%d,%d), %g from the centre, is drawn", r, x, y, d); else if (filled) MC_CHECK(d > r - 0.8, "wide:circle", "a circle of %d: (%d,%d), %g from the centre, is not filled", r, x, y, d); }
      MC_CHECK(n >= 4 * r, "wide:circle", "a circle of %d has %d pixels", r, n); c.img.fill(0);
    }
    const int rr = std::min(w, h) / 2 - 3;
    c.img.fillRoundRect(1, 1, w - 2, h - 2, rr, 0xFFFFFFFF);
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
      const double ex = std::max({1 + rr - x, 0, x - (w - 2 - rr)}), ey = std::max({1 + rr - y, 0, y - (h - 2 - rr)}), d = sqrt(ex * ex + ey * ey); const bool inside = x >= 1 && y >= 1 && x < w - 1 && y < h - 1, on = c.at(x, y) != 0;
      if (!inside) MC_CHECK(!on, "wide:round", "(%d,%d) is drawn", x, y); else if (ex == 0 || ey == 0) MC_CHECK(on, "wide:round", "(%d,%d) is not filled", x, y); else MC_CHECK(on ? d < rr + 0.8 : d > rr - 0.8, "wide:round", "radius %d: (%d,%d) is %d", rr, x, y, on);
    }
    c.img.fill(0); c.img.fillTriangle(0, 0, w - 1, 0, 0, h - 1, 0xFFFFFFFF);
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { const double edge = (w - 1) * (1.0 - (double) y / (h - 1)); const bool on = c.at(x, y) != 0; MC_CHECK(on ? x < edge + 1 : x > edge - 1, "wide:triangle", "(%d,%d) is %d", x, y, on); }
  }
  if (bits(f) == 8) {
    c.img.fill(0); c.img.setTextSize(1); c.img.setTextColor(1); c.img.textWrap(true); c.img.setCursor(0, 0);
    std::string t; for (int i = 0; i < 300; i++) t += (char) ('!' + i % 90); c.img.writeString(t.c_str()); Canvas o(f, w, h); int x = 0, y = 0;
    for (char k : t) { if (x + 6 > w) { x = 0; y += 8; } if (w >= 6) o.img.drawChar(x, y, k, 1, 1, 1); x += 6; }
    if (w >= 6) for (int j = 0; j < h; j++) for (int i = 0; i < w; i++) MC_CHECK(c.at(i, j) == o.at(i, j), "wide:text", "long text: (%d,%d) is %u, not %u", i, j, c.at(i, j), o.at(i, j));
  }
}
int main(int argc, char** argv) {
  const bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  std::vector<mc::Config> c;
  c.push_back({"pixels", [=]{ pixels(th ? 9 : 4, th ? 24 : 17); }, 4, "all formats, orientations and flips; 1..4 by 1..17 pixels (thorough 1..9 by 1..24); over three backgrounds each pixel set to each of 5 colours, those around the image, and filling"});
  c.push_back({"colours", colours, 3, "18^3 colours by channel in three formats and monochrome, and read as each"});
  c.push_back({"lines", [=]{ line(th ? 12 : 8); }, 3, "all lines between points of 8x8 (thorough 12x12), forwards and backwards, cropped to 5x4 in three formats"});
  c.push_back({"far-lines", far_lines, 2, "lines to the ends of the coordinates"});
  c.push_back({"rects", [=]{ rects(th ? -9 : -6, th ? 9 : 6); }, 4, "rectangles and straight lines of 0..7 by 0..7 at -6..5 (thorough -9..8), cropped to 5x4 in three formats"});
  c.push_back({"circles", [=]{ circles(th ? 14 : 8); }, 3, "circles of radius 0..8 (thorough 14) about every point that reaches a 5x4 image, in three formats"});
  c.push_back({"round-rects", round_rects, 4, "rounded rectangles of 0..9 by 0..9, radius 0..5, at -4..2"});
  c.push_back({"triangles", [=]{ triangles(th ? 6 : 5); }, 4, "all triangles of 5x5 points (thorough 6x6), outlined and filled"});
  c.push_back({"text", [=]{ text(th); }, 4, "every character of the classic and two other fonts, three sizes, at 36 places, cropped to 5x6"});
  c.push_back({"writing", [=]{ writing(th ? 6 : 5); }, 4, "all texts of up to 5 (thorough 6) of five characters, wrapped or not, two sizes, nine places"});
  c.push_back({"buffers", [=]{ buffers(th ? 5 : 4); }, 4, "every history of 4 (thorough 5) of setSize, reallocate, setBufferByCopy, setBuffer, wipe and drawing, in four formats and nine sizes"});
  c.push_back({"wide", wide, 3, "all formats of 3 to 700 by 3 to 700 pixels: each pixel, filling, rectangles, the diagonal, circles, a rounded rectangle and a triangle over all of it, and a text of 300 characters"});
  c.push_back({"large", large, 2, "all formats of ten by ten sizes up to 65535"});
  return mc::main(argc, argv, "C40", c, {
    "4-bit greyscale is not supported by the library; 32-bit and grey pixels are set by value, not by channel", "coordinates are 16 bits wide, the default, and wrap: a shape may begin left of or above the image",
    "the order of pixels within the buffer is not specified", "drawEllipse, drawBitmap and conversion to grey are unfinished, and not covered"});
}
