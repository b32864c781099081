/* C52: a graph plots every sample at its place and stays inside of its area. */
#include "mc.h"
#include "Image/Image.h"
#include "Image/ImageUtils.h"
#include <algorithm>

static const uint32_t BG = 0x102030, FG = 0xC0D0E0, INK = 0xFF8001;
static uint32_t ground(unsigned x, unsigned y) { return (0x9E3779B9u * (x * 512 + y + 1) >> 9 & 0x3FFFFF) | 1; }   // none of the colours above

template <class T> struct Setup { unsigned px, py, w, h, iw, ih; std::vector<T> data; bool curve = false, autoscale = false, enabled = true, null = false; int accent = -1; uint32_t offset = 0; T hi = 0, lo = 0; };
typedef std::vector<uint32_t> Map;

template <class T> static Map draw(Setup<T>& s) {
  Image img(s.iw, s.ih, ImgBufferFormat::R8_G8_B8); img.reallocate();
  for (unsigned y = 0; y < s.ih; y++) for (unsigned x = 0; x < s.iw; x++) img.setPixel(x, y, ground(x, y));
  std::vector<T> exact = s.data; exact.shrink_to_fit();  // reads beyond the samples are caught
  const std::vector<T> before = exact;
  ImageGraph<T> g(s.w, s.h); g.bg_color = BG; g.fg_color = FG;
  g.trace0.color = INK; g.trace0.enabled = s.enabled; g.trace0.dataset = s.null ? nullptr : exact.data(); g.trace0.data_len = exact.size();
  g.trace0.draw_curve = s.curve; g.trace0.autoscale_y = s.autoscale; g.trace0.accented_idx = s.accent; g.trace0.offset_x = s.offset;
  img.setTextSize(1); img.setTextColor(0x00FF00); img.setCursor(0, 0);
  g.drawGraph(&img, s.px, s.py);
  s.hi = g.trace0.maxValue(); s.lo = g.trace0.minValue();
  MC_CHECK(exact == before, "samples", "the samples were changed");
  Map m; for (unsigned y = 0; y < s.ih; y++) for (unsigned x = 0; x < s.iw; x++) m.push_back(img.getPixel(x, y));
  mc::steps(1);
  return m;
}
/* Nothing outside of the area is touched; nothing at all, if the area is not in the image. */
template <class T> static bool contained(const Setup<T>& s, const Map& m) {
  const bool fits = s.px + s.w <= s.iw && s.py + s.h <= s.ih;
  for (unsigned y = 0; y < s.ih; y++) for (unsigned x = 0; x < s.iw; x++) {
    if (fits && x >= s.px && x < s.px + s.w && y >= s.py && y < s.py + s.h) continue;
    MC_CHECK(m[y * s.iw + x] == ground(x, y), fits ? "outside" : "refused", "a graph of %ux%u at (%u,%u) of %ux%u changed (%u,%u)", s.w, s.h, s.px, s.py, s.iw, s.ih, x, y);
  }
  return fits;
}
/* The row of each sample, in a graph without curve or accent. */
template <class T> static std::vector<unsigned> plain(Setup<T>& s) {
  const bool curve = s.curve; const int accent = s.accent; s.curve = false; s.accent = -1;
  const Map m = draw(s);
  s.curve = curve; s.accent = accent;
  std::vector<unsigned> row;
  if (!contained(s, m)) return row;
  const unsigned gx = s.px + 1, gy = s.py + 1, gw = s.w - 2, gh = s.h - 2; // the plot; its floor is the row of the axis
  const size_t n = s.enabled && !s.null ? std::min<size_t>(gw, s.data.size()) : 0;
  if (n) {
    T hi = s.data[0], lo = s.data[0]; for (size_t i = 0; i < n; i++) { hi = std::max(hi, s.data[i]); lo = std::min(lo, s.data[i]); }
    MC_CHECK((s.hi == hi || (s.hi == 0 && hi < 0)) && (s.lo == lo || (s.lo == 0 && lo > 0)), "range", "the range is %.9g to %.9g, the samples' %.9g to %.9g", (double) s.lo, (double) s.hi, (double) lo, (double) hi);
  }
  for (unsigned x = 0; x < s.w; x++) {
    int at = -1;
    for (unsigned y = 0; y < s.h; y++) if (m[(s.py + y) * s.iw + s.px + x] == INK) {
      MC_CHECK(at < 0 && x >= 1 && x - 1 < n, "stray", "column %u of the area has ink in row %u that no sample put there", x, y);
      MC_CHECK(s.py + y >= gy && s.py + y <= gy + gh, "stray", "column %u of the area has ink outside of the plot, in row %u", x, y);
      at = (int) y;
    }
    for (unsigned y = 0; y < s.h; y++) if ((int) y != at) {       // behind it, the ground and the two axes
      const bool axis = (x == 0 && y >= 1) || (y == s.h - 1 && x < s.w - 1);
      MC_CHECK(m[(s.py + y) * s.iw + s.px + x] == (axis ? FG : BG), "ground", "(%u,%u) of the area is %06x, not %s", x, y, m[(s.py + y) * s.iw + s.px + x], axis ? "of the axes' colour" : "clear");
    }
    if (x < 1 || x - 1 >= n) continue;
    MC_CHECK(at >= 0, "missing", "sample %u (%.9g) of %zu does not appear", x - 1, (double) s.data[x - 1], n);
    const double range = (double) s.hi - (double) s.lo, ideal = range > 0 ? gh * ((double) s.data[x - 1] - (double) s.lo) / range : 0, got = (double) (gy + gh) - (s.py + at);
    MC_CHECK(got > ideal - 1.01 && got < ideal + 0.01, "place", "sample %u (%.9g, of %.9g to %.9g) is %g above the floor of a plot %u high, not %g", x - 1, (double) s.data[x - 1], (double) s.lo, (double) s.hi, got, gh, ideal);
    row.push_back(s.py + (unsigned) at);
  }
  (void) gx;
  return row;
}
template <class T> static void examine(Setup<T>& s) {
  const std::vector<unsigned> row = plain(s);
  if (row.empty()) return;
  const unsigned gx = s.px + 1, gy = s.py + 1, gw = s.w - 2, gh = s.h - 2; const size_t n = row.size();
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n && n < 20; j++) MC_CHECK(!(s.data[i] > s.data[j]) || row[i] <= row[j], "order", "a sample of %.9g is drawn below one of %.9g", (double) s.data[i], (double) s.data[j]);
  if (s.curve) {
    const Map m = draw(s); contained(s, m);
    std::vector<unsigned> top(n), low(n);
    for (size_t i = 0; i < n; i++) {
      unsigned a = row[i], b = row[i]; for (int d = -1; d <= 1; d += 2) if (i + d < n) { a = std::min(a, row[i + d]); b = std::max(b, row[i + d]); }
      top[i] = ~0u; low[i] = 0;
      for (unsigned y = 0; y < s.ih; y++) if (m[y * s.iw + gx + i] == INK) { MC_CHECK(y >= a && y <= b, "curve", "the curve at sample %zu leaves the rows between it and its neighbours", i); top[i] = std::min(top[i], y); low[i] = std::max(low[i], y); }
      MC_CHECK(top[i] <= row[i] && low[i] >= row[i] && m[row[i] * s.iw + gx + i] == INK, "curve", "sample %zu is not on the curve", i);
      for (unsigned y = top[i]; y <= low[i]; y++) MC_CHECK(m[y * s.iw + gx + i] == INK, "curve", "the curve has a gap at sample %zu", i);
      if (i) MC_CHECK(top[i] <= low[i - 1] + 1 && top[i - 1] <= low[i] + 1, "curve", "the curve is broken between samples %zu and %zu: rows %u to %u, then %u to %u", i - 1, i, top[i - 1], low[i - 1], top[i], low[i]);
    }
    for (unsigned x = gx + n; x < s.px + s.w; x++) for (unsigned y = 0; y < s.ih; y++) MC_CHECK(m[y * s.iw + x] != INK, "curve", "the curve goes on behind the last sample");
  }
  if (s.accent >= 0 && (size_t) s.accent < n) {          // a square, cut to the plot, and a rule
    const Map m = draw(s); contained(s, m);
    const int x0 = (int) gx + s.accent, y0 = (int) row[s.accent];
    for (int y = y0 - 3; y <= y0 + 3; y++) for (int x = x0 - 3; x <= x0 + 3; x++) if (x >= (int) gx && x < (int) (gx + gw) && y >= (int) gy && y < (int) (gy + gh))
      MC_CHECK(m[y * (int) s.iw + x] == INK, "accent", "the mark at sample %d of %zu, row %d of %u, lacks (%+d,%+d)", s.accent, n, y0 - (int) gy, gh, x - x0, y - y0);
    for (unsigned y = gy; y < gy + gh; y++) MC_CHECK(m[y * s.iw + x0] == INK, "accent", "the rule at sample %d of %zu lacks row %u of %u", s.accent, n, y - gy, gh);
    for (unsigned x = s.px; x < s.px + s.w; x++) if (x < gx) for (unsigned y = s.py; y < s.py + s.h; y++) MC_CHECK(m[y * s.iw + x] != INK, "accent", "the mark covers the axis");
    bool told = false;                                   // and its label, beside it
    Setup<T> bare = s; bare.accent = -1; const Map p = draw(bare);
    for (size_t i = 0; i < m.size(); i++) told |= m[i] != p[i] && m[i] != INK;
    MC_CHECK(told, "label", "the mark at sample %d has no label", s.accent);
  }
}

static const std::vector<uint32_t> UV = {0, 1, 7, 100, 0xFFFFFFFF};
static const std::vector<float> FV = {-100.5f, -1.0f, 0.0f, 0.25f, 3.0f, 1.0e6f};
template <class T> static const std::vector<T>& values();
template <> const std::vector<uint32_t>& values() { return UV; }
template <> const std::vector<float>& values() { return FV; }

#define CURVES (std::is_integral<T>::value)               /* graphs of floats have no curves (yet) */
template <class T> static void small(unsigned most) {
  Setup<T> s; static const unsigned W[] = {3, 4, 5, 6}, H[] = {3, 4, 5, 9};
  s.w = mc::pick(W); s.h = mc::pick(H); if (mc::flip()) { s.px = 2; s.py = 1; } else s.px = s.py = 0;
  const bool tight = mc::flip(); s.iw = s.px + s.w + (tight ? 0 : 2); s.ih = s.py + s.h + (tight ? 0 : 3);
  s.autoscale = mc::flip(); s.curve = CURVES && mc::flip();
  const unsigned n = mc::choose(most + 1); for (unsigned i = 0; i < n; i++) s.data.push_back(mc::pick(values<T>()));
  std::string t; for (T v : s.data) { char b[32]; snprintf(b, sizeof(b), " %.9g", (double) v); t += b; }
  mc::op("%ux%u at (%u,%u) of %ux%u,%s%s:%s", s.w, s.h, s.px, s.py, s.iw, s.ih, s.autoscale ? " scaled" : "", s.curve ? " curve" : "", t.c_str());
  examine(s);
}
template <class T> static void refused() {
  Setup<T> s; s.w = 3 + mc::choose(4); s.h = 3 + mc::choose(4); s.px = mc::choose(5); s.py = mc::choose(5); s.iw = 5 + mc::choose(3); s.ih = 5 + mc::choose(3);
  s.enabled = mc::flip(); s.null = mc::flip(); s.curve = CURVES && mc::flip();
  for (unsigned i = 0; i < 4; i++) s.data.push_back((T) (i * 3));
  if (s.null) s.data.clear();
  mc::op("%ux%u at (%u,%u) of %ux%u%s%s", s.w, s.h, s.px, s.py, s.iw, s.ih, s.enabled ? "" : ", disabled", s.null ? ", without samples" : "");
  examine(s);
}
/* Shapes of many samples, as wide as the plot, a little narrower and wider. */
template <class T> static T shape(unsigned kind, unsigned i, unsigned n) {
  switch (kind) {
    case 0: return (T) i;
    case 1: return (T) (n - i);
    case 2: return (T) (i % 17 * 1000);
    case 3: return (T) (0x9E3779B9u * (i + 1));
    case 4: return (T) (i + 1 == n ? 5000 : 2);
    default: return (T) (4000000000u - 10 * (i % 50));
  }
}
template <class T> static void wide() {
  Setup<T> s; static const unsigned W[] = {64, 257, 258, 300}, H[] = {17, 200, 258, 300}; static const int D[] = {-40, -3, -2, -1, 0, 40};
  s.w = mc::pick(W); s.h = mc::pick(H); if (mc::flip()) { s.px = 250; s.py = 255; } else s.px = s.py = 0;
  s.iw = s.px + s.w; s.ih = s.py + s.h; s.autoscale = mc::flip(); s.curve = CURVES && mc::flip();
  const unsigned n = s.w + mc::pick(D), k = mc::choose(6); for (unsigned i = 0; i < n; i++) s.data.push_back(shape<T>(k, i, n));
  mc::op("%ux%u at (%u,%u),%s%s, %u samples of shape %u", s.w, s.h, s.px, s.py, s.autoscale ? " scaled" : "", s.curve ? " curve" : "", n, k);
  examine(s);
}
template <class T> static void accent() {
  Setup<T> s; s.w = 220; static const unsigned H[] = {24, 40}; s.h = mc::pick(H); if (mc::flip()) { s.px = 5; s.py = 7; } else s.px = s.py = 0;
  s.iw = s.px + s.w + 3; s.ih = s.py + s.h + 3; s.autoscale = mc::flip();
  static const unsigned AT[] = {0, 1, 2, 3, 4, 5, 50, 100, 150, 200, 210, 211, 212, 213, 214, 215, 216, 217}; static const unsigned V[] = {0, 1, 5, 10, 20, 25, 33, 50, 66, 80, 90, 95, 99, 100};
  for (unsigned i = 0; i < 218; i++) s.data.push_back((T) (i % 2 * 100));
  s.accent = (int) mc::pick(AT); s.data[s.accent] = (T) mc::pick(V); s.offset = mc::flip() ? 1000 : 0;
  mc::op("%ux%u at (%u,%u),%s sample %d of %g accented", s.w, s.h, s.px, s.py, s.autoscale ? " scaled" : "", s.accent, (double) s.data[s.accent]);
  examine(s);
}

int main(int argc, char** argv) {
  const bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  std::vector<mc::Config> c;
  c.emplace_back("small", [=]{ if (mc::flip()) small<float>(th ? 5 : 4); else small<uint32_t>(th ? 5 : 4); }, 4, "every list of up to 4 (5) samples of 5 or 6 values, in areas of 3x3 to 6x9 at two places of an image that fits or is larger, scaled or not, with and without curve, both types of sample");
  c.emplace_back("refused", [=]{ if (mc::flip()) refused<float>(); else refused<uint32_t>(); }, 3, "areas of 3x3 to 6x6 at 25 places of images of 5x5 to 7x7, inside and outside; traces disabled and without samples");
  c.emplace_back("wide", [=]{ if (mc::flip()) wide<float>(); else wide<uint32_t>(); }, 3, "6 shapes of 24 to 340 samples in areas up to 300x300");
  c.emplace_back("accent", [=]{ if (mc::flip()) accent<float>(); else accent<uint32_t>(); }, 3, "a mark on 18 samples at 14 heights in two areas at two places");
  return mc::main(argc, argv, "C52", c, {"areas of at least 3x3; finite samples, whose range does not overflow", "grids and range labels are not drawn, nor curves of floats (which are not implemented); of the label of a mark, only that it is there and stays in the area", "a sample's row is judged to within the one row that truncation costs"});
}
