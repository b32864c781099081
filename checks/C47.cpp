/* C47: an image area is copied and zoomed exactly, or refused without a trace. */
#include "mc.h"
#include "Image/Image.h"
#include "Image/ImageUtils.h"
#include <math.h>

typedef ImgBufferFormat F;
static const F SAME[] = {F::MONOCHROME, F::GREY_24, F::GREY_16, F::GREY_8, F::R8_G8_B8_ALPHA, F::R8_G8_B8, F::R5_G6_B5, F::R3_G3_B2};
static const F COLOURS[] = {F::R8_G8_B8, F::R5_G6_B5, F::R3_G3_B2};
typedef std::vector<uint32_t> Map;

static uint32_t ink(unsigned i) { return 0x9E3779B9u * (i + 1) ^ 0x00F0C351u; }
static void paint(Image& m, unsigned salt) { unsigned n = 0; for (unsigned y = 0; y < m.y(); y++) for (unsigned x = 0; x < m.x(); x++) m.setPixel(x, y, ink(salt + n++)); }
static Map read(Image& m) { Map r; for (unsigned y = 0; y < m.y(); y++) for (unsigned x = 0; x < m.x(); x++) r.push_back(m.getPixel(x, y)); return r; }

struct Area { unsigned x, y, w, h, tx, ty; double k; };
/* What apply() has to answer, and where each target pixel comes from. */
static int verdict(Image& s, Image& t, const Area& a, unsigned* ow, unsigned* oh) {
  *ow = (unsigned) floor(a.w * a.k); *oh = (unsigned) floor(a.h * a.k);
  if (!s.allocated() || !t.allocated()) return -1;
  if ((uint64_t) a.x + a.w > s.x() || (uint64_t) a.y + a.h > s.y()) return -2;
  if ((uint64_t) a.tx + *ow > t.x() || (uint64_t) a.ty + *oh > t.y()) return -3;
  return 0;
}
static void examine(Image& s, Image& t, const Area& a, int r, const Map& before, const Map& source) {
  unsigned ow, oh; const int w = verdict(s, t, a, &ow, &oh);
  MC_CHECK(r == w, "answer", "%ux%u at (%u,%u) of %ux%u, times %g, to (%u,%u) of %ux%u was answered %d, not %d", a.w, a.h, a.x, a.y, s.x(), s.y(), a.k, a.tx, a.ty, t.x(), t.y(), r, w);
  if (!t.allocated()) return;
  Image want(t.x(), t.y(), t.format()); want.reallocate();       // the same pixel, set by hand in an image like the target
  for (unsigned y = 0; y < t.y(); y++) for (unsigned x = 0; x < t.x(); x++) {
    uint32_t w1 = before[y * t.x() + x];
    if (w == 0 && x >= a.tx && x < a.tx + ow && y >= a.ty && y < a.ty + oh) {
      const unsigned sx = a.x + (unsigned) floor((x - a.tx) / a.k), sy = a.y + (unsigned) floor((y - a.ty) / a.k);
      uint32_t c = source[sy * s.x() + sx];
      if (s.format() != t.format()) c = s.getPixelAsFormat(sx, sy, t.format());
      want.setPixel(x, y, c); w1 = want.getPixel(x, y);
    }
    MC_CHECK(t.getPixel(x, y) == w1, w ? "refused:changed" : "pixel", "(%u,%u) is %06x, not %06x", x, y, t.getPixel(x, y), w1);
    mc::steps(1);
  }
  if (&s != &t && s.allocated()) MC_CHECK(read(s) == source, "source", "the source image was changed");
}
static Area area(Image& s, Image& t, double k, unsigned slack) {
  Area a; a.k = k;
  a.w = 1 + mc::choose(s.x() + slack); a.h = 1 + mc::choose(s.y() + slack); a.x = mc::choose(s.x() + slack); a.y = mc::choose(s.y() + slack);
  // beginnings around the place where the result stops fitting, and the corner
  const int fx = (int) t.x() - (int) floor(a.w * k), fy = (int) t.y() - (int) floor(a.h * k);
  std::vector<unsigned> xs = {0}, ys = {0};
  for (int d = -1; d <= 1; d++) { if (fx + d > 0) xs.push_back((unsigned) (fx + d)); if (fy + d > 0) ys.push_back((unsigned) (fy + d)); }
  a.tx = mc::pick(xs); a.ty = mc::pick(ys); return a;
}

static void between(const std::vector<double>& ks, unsigned sw, unsigned sh, unsigned tw, unsigned th, bool formats) {
  const double k = mc::pick(ks);
  F fs = F::R5_G6_B5, ft = F::R5_G6_B5;
  if (formats) { if (mc::flip()) fs = ft = mc::pick(SAME); else { fs = mc::pick(COLOURS); ft = mc::pick(COLOURS); } }
  Image s(sw, sh, fs), t(tw, th, ft); s.reallocate(); t.reallocate(); paint(s, 1); paint(t, 7000);
  const Map before = read(t), source = read(s);
  const Area a = area(s, t, k, formats ? 0 : 1);
  const bool later = mc::flip();
  mc::op("%ux%u at (%u,%u), times %g, to (%u,%u)%s", a.w, a.h, a.x, a.y, k, a.tx, a.ty, later ? ", set later" : "");
  ImageScaler z(&s, &t, later ? 1.0f : (float) k, later ? 0 : a.x, later ? 0 : a.y, later ? 1 : a.w, later ? 1 : a.h, later ? 0 : a.tx, later ? 0 : a.ty);
  if (later) z.setParameters((float) k, a.x, a.y, a.w, a.h, a.tx, a.ty);
  MC_CHECK(z.scale() == (float) k, "scale", "the scale is %g, not %g", z.scale(), k);
  int r = z.apply(); examine(s, t, a, r, before, source);
  if (r == 0 && mc::flip()) { r = z.apply(); examine(s, t, a, r, before, source); }       // again: the same
}
/* The whole source, when no area is given. */
static void whole() {
  static const double K[] = {1, 2, 3, 0.5}; const double k = mc::pick(K); const unsigned w = 1 + mc::choose(5), h = 1 + mc::choose(5);
  Image s(w, h, F::R3_G3_B2), t(13, 13, F::R3_G3_B2); s.reallocate(); t.reallocate(); paint(s, 1); paint(t, 7000);
  const Map before = read(t), source = read(s); Area a = {0, 0, w, h, 0, 0, k}; mc::op("all of %ux%u, times %g", w, h, k);
  ImageScaler z(&s, &t, (float) k); const int r = z.apply(); examine(s, t, a, r, before, source);
}
/* From one place to another of the same image, not overlapping. */
static void within() {
  static const double K[] = {1, 2, 0.5}; Image m(8, 8, F::R8_G8_B8); m.reallocate(); paint(m, 1); const Map before = read(m); Area a; a.k = mc::pick(K);
  a.w = 1 + mc::choose(4); a.h = 1 + mc::choose(4); a.x = mc::choose(8); a.y = mc::choose(8); a.tx = mc::choose(8); a.ty = mc::choose(8);
  const unsigned ow = (unsigned) floor(a.w * a.k), oh = (unsigned) floor(a.h * a.k);
  if (a.x < a.tx + ow && a.tx < a.x + a.w && a.y < a.ty + oh && a.ty < a.y + a.h) throw mc::Prune();
  mc::op("%ux%u at (%u,%u), times %g, to (%u,%u) of the same image", a.w, a.h, a.x, a.y, a.k, a.tx, a.ty);
  ImageScaler z(&m, &m, (float) a.k, a.x, a.y, a.w, a.h, a.tx, a.ty); const int r = z.apply(); examine(m, m, a, r, before, before);
}
/* Areas that only look to be inside because the coordinates are short; images without a buffer. */
static void far() {
  static const unsigned V[] = {1, 2, 4, 5, 32767, 32768, 65533, 65534, 65535}; static const double K[] = {1, 2, 0.5, 4};
  Image s(4, 4, F::GREY_8), t(6, 6, F::GREY_8); const unsigned have = mc::choose(4); if (have & 1) { s.reallocate(); paint(s, 1); } if (have & 2) { t.reallocate(); paint(t, 9); }
  Area a = {have == 3 ? mc::pick(V) : 0, 0, 1, 1, 0, 0, 1};
  if (have == 3) { a.k = mc::pick(K); a.w = mc::pick(V); a.tx = mc::pick(V); if (mc::flip()) { std::swap(a.x, a.y); std::swap(a.w, a.h); std::swap(a.tx, a.ty); } }
  mc::op("%ux%u at (%u,%u), times %g, to (%u,%u); buffers %u", a.w, a.h, a.x, a.y, a.k, a.tx, a.ty, have);
  const Map before = t.allocated() ? read(t) : Map(), source = s.allocated() ? read(s) : Map();
  ImageScaler z(&s, &t, (float) a.k, a.x, a.y, a.w, a.h, a.tx, a.ty); const int r = z.apply(); examine(s, t, a, r, before, source);
}

int main(int argc, char** argv) {
  const char* tv = getenv("VERIF_TIER"); const bool T = tv && std::string(tv) == "thorough"; const unsigned n = T ? 7 : 5;
  std::vector<mc::Config> c;
  c.push_back(mc::Config("copy", [n] { between({1}, n, n - 1, n, n + 1, false); }, 3, "every area of a small image, inside or not, copied to every edge of another"));
  c.push_back(mc::Config("zoom-in", [n, T] { between(T ? std::vector<double>{2, 3, 4, 5, 8} : std::vector<double>{2, 3, 4}, n - 1, n - 1, 3 * n, 3 * n - 2, false); }, 3, "the same, magnified 2 to 4 (thorough 8) times"));
  c.push_back(mc::Config("zoom-out", [n] { between({0.5, 0.25, 0.125, 0.75}, 2 * n - 1, n, n - 1, n, false); }, 3, "the same, reduced to a half, a quarter, an eighth and three quarters"));
  c.push_back(mc::Config("formats", [T] { between(T ? std::vector<double>{1, 2, 3, 0.5, 0.25} : std::vector<double>{1, 2, 0.5}, 4, 3, 7, 6, true); }, 3, "eight pixel formats, and conversions between the three colour formats"));
  c.push_back(mc::Config("whole", whole, 1, "areas not given"));
  c.push_back(mc::Config("within", within, 2, "from place to place of one image"));
  c.push_back(mc::Config("far", far, 2, "coordinates at the end of their range; images without a buffer"));
  return mc::main(argc, argv, "C47", c, {"The scale is a positive whole number, or below one; areas do not overlap within one image.", "Conversion of a single pixel between formats is taken from Image::getPixelAsFormat() (C40)."});
}
