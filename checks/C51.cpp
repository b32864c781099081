/* C51: text in any font is set glyph by glyph, and measured by where it falls. */
#include "../mc/mc.h"
#include "Image/Image.h"
#include "Image/Fonts/FreeMono12pt7b.h"
#include "Image/Fonts/FreeMono18pt7b.h"
#include "Image/Fonts/FreeMono24pt7b.h"
#include "Image/Fonts/FreeMono9pt7b.h"
#include "Image/Fonts/FreeMonoBold12pt7b.h"
#include "Image/Fonts/FreeMonoBold18pt7b.h"
#include "Image/Fonts/FreeMonoBold24pt7b.h"
#include "Image/Fonts/FreeMonoBold9pt7b.h"
#include "Image/Fonts/FreeMonoBoldOblique12pt7b.h"
#include "Image/Fonts/FreeMonoBoldOblique18pt7b.h"
#include "Image/Fonts/FreeMonoBoldOblique24pt7b.h"
#include "Image/Fonts/FreeMonoBoldOblique9pt7b.h"
#include "Image/Fonts/FreeMonoOblique12pt7b.h"
#include "Image/Fonts/FreeMonoOblique18pt7b.h"
#include "Image/Fonts/FreeMonoOblique24pt7b.h"
#include "Image/Fonts/FreeMonoOblique9pt7b.h"
#include "Image/Fonts/FreeSans12pt7b.h"
#include "Image/Fonts/FreeSans18pt7b.h"
#include "Image/Fonts/FreeSans24pt7b.h"
#include "Image/Fonts/FreeSans9pt7b.h"
#include "Image/Fonts/FreeSansBold12pt7b.h"
#include "Image/Fonts/FreeSansBold18pt7b.h"
#include "Image/Fonts/FreeSansBold24pt7b.h"
#include "Image/Fonts/FreeSansBold9pt7b.h"
#include "Image/Fonts/FreeSansBoldOblique12pt7b.h"
#include "Image/Fonts/FreeSansBoldOblique18pt7b.h"
#include "Image/Fonts/FreeSansBoldOblique24pt7b.h"
#include "Image/Fonts/FreeSansBoldOblique9pt7b.h"
#include "Image/Fonts/FreeSansOblique12pt7b.h"
#include "Image/Fonts/FreeSansOblique18pt7b.h"
#include "Image/Fonts/FreeSansOblique24pt7b.h"
#include "Image/Fonts/FreeSansOblique9pt7b.h"
#include "Image/Fonts/FreeSerif12pt7b.h"
#include "Image/Fonts/FreeSerif18pt7b.h"
#include "Image/Fonts/FreeSerif24pt7b.h"
#include "Image/Fonts/FreeSerif9pt7b.h"
#include "Image/Fonts/FreeSerifBold12pt7b.h"
#include "Image/Fonts/FreeSerifBold18pt7b.h"
#include "Image/Fonts/FreeSerifBold24pt7b.h"
#include "Image/Fonts/FreeSerifBold9pt7b.h"
#include "Image/Fonts/FreeSerifBoldItalic12pt7b.h"
#include "Image/Fonts/FreeSerifBoldItalic18pt7b.h"
#include "Image/Fonts/FreeSerifBoldItalic24pt7b.h"
#include "Image/Fonts/FreeSerifBoldItalic9pt7b.h"
#include "Image/Fonts/FreeSerifItalic12pt7b.h"
#include "Image/Fonts/FreeSerifItalic18pt7b.h"
#include "Image/Fonts/FreeSerifItalic24pt7b.h"
#include "Image/Fonts/FreeSerifItalic9pt7b.h"
#include "Image/Fonts/Org_01.h"
#include "Image/Fonts/Picopixel.h"
#include <vector>
#include <string>
#include <string.h>
typedef ImgBufferFormat F;
typedef std::string S;

struct Named { const char* name; const GFXfont* font; size_t bitmap, glyphs; };
#define FONT(X) { #X, &X, sizeof(X##Bitmaps), sizeof(X##Glyphs) / sizeof(GFXglyph) }
static const Named SHIPPED[] = {
  FONT(FreeMono12pt7b),
  FONT(FreeMono18pt7b),
  FONT(FreeMono24pt7b),
  FONT(FreeMono9pt7b),
  FONT(FreeMonoBold12pt7b),
  FONT(FreeMonoBold18pt7b),
  FONT(FreeMonoBold24pt7b),
  FONT(FreeMonoBold9pt7b),
  FONT(FreeMonoBoldOblique12pt7b),
  FONT(FreeMonoBoldOblique18pt7b),
  FONT(FreeMonoBoldOblique24pt7b),
  FONT(FreeMonoBoldOblique9pt7b),
  FONT(FreeMonoOblique12pt7b),
  FONT(FreeMonoOblique18pt7b),
  FONT(FreeMonoOblique24pt7b),
  FONT(FreeMonoOblique9pt7b),
  FONT(FreeSans12pt7b),
  FONT(FreeSans18pt7b),
  FONT(FreeSans24pt7b),
  FONT(FreeSans9pt7b),
  FONT(FreeSansBold12pt7b),
  FONT(FreeSansBold18pt7b),
  FONT(FreeSansBold24pt7b),
  FONT(FreeSansBold9pt7b),
  FONT(FreeSansBoldOblique12pt7b),
  FONT(FreeSansBoldOblique18pt7b),
  FONT(FreeSansBoldOblique24pt7b),
  FONT(FreeSansBoldOblique9pt7b),
  FONT(FreeSansOblique12pt7b),
  FONT(FreeSansOblique18pt7b),
  FONT(FreeSansOblique24pt7b),
  FONT(FreeSansOblique9pt7b),
  FONT(FreeSerif12pt7b),
  FONT(FreeSerif18pt7b),
  FONT(FreeSerif24pt7b),
  FONT(FreeSerif9pt7b),
  FONT(FreeSerifBold12pt7b),
  FONT(FreeSerifBold18pt7b),
  FONT(FreeSerifBold24pt7b),
  FONT(FreeSerifBold9pt7b),
  FONT(FreeSerifBoldItalic12pt7b),
  FONT(FreeSerifBoldItalic18pt7b),
  FONT(FreeSerifBoldItalic24pt7b),
  FONT(FreeSerifBoldItalic9pt7b),
  FONT(FreeSerifItalic12pt7b),
  FONT(FreeSerifItalic18pt7b),
  FONT(FreeSerifItalic24pt7b),
  FONT(FreeSerifItalic9pt7b),
  FONT(Org_01),
  FONT(Picopixel),
};
/* A font with everything a table may hold: empty glyphs, glyphs left and right of their origin, above and below the line, and codes over 127. */
static uint8_t odd_bits[] = { 0xFF, 0xA5, 0x5A, 0xC3, 0x3C, 0x81, 0xFF, 0xF0, 0x0F, 0x99, 0x66 };
static GFXglyph odd_glyphs[] = { {0, 3, 5, 4, 0, -5}, {2, 0, 0, 3, 0, 1}, {2, 4, 2, 2, -2, -3}, {3, 1, 8, 5, 3, -7}, {4, 8, 1, 0, 0, 1}, {5, 5, 4, 200, 0, -4}, {8, 2, 2, 9, 1, -9} };
static const GFXfont ODD = { odd_bits, odd_glyphs, 125, 131, 8 }, TALL = { odd_bits, odd_glyphs, 125, 131, 200 };

struct Canvas {
  std::vector<uint8_t> mem; Image img; const int W, H;
  Canvas(int w, int h) : mem(w * h, 0), img(w, h, F::GREY_8), W(w), H(h) { img.setBuffer(mem.data()); }
};
struct Box { int l = 1 << 20, t = 1 << 20, r = -1, b = -1; void add(int x, int y, int w, int h) { l = std::min(l, x); t = std::min(t, y); r = std::max(r, x + w - 1); b = std::max(b, y + h - 1); } };
/* Text in a font, from the font's own table. */
struct Setter {
  const GFXfont* f; const int W, H, size; const bool wrap; int x, y; std::vector<uint8_t> px; Box box;
  Setter(const GFXfont* f_, int w, int h, int s, bool wr, int x_, int y_) : f(f_), W(w), H(h), size(s), wrap(wr), x(x_), y(y_), px(w * h, 0) {}
  void block(int bx, int by, uint8_t ink) { for (int v = 0; v < size; v++) for (int u = 0; u < size; u++) if (bx + u >= 0 && by + v >= 0 && bx + u < W && by + v < H) px[(by + v) * W + bx + u] = ink; }
  void put(uint8_t c, uint8_t ink) {
    if (c == '\n') { x = 0; y += size * f->yAdvance; return; }
    if (c == '\r' || c < f->first || c > f->last) return;
    const GFXglyph& g = f->glyph[c - f->first];
    if (g.width && g.height) {
      if (wrap && x + size * (g.xOffset + g.width) > W) { x = 0; y += size * f->yAdvance; }
      unsigned bit = 0;
      for (int j = 0; j < g.height; j++) for (int i = 0; i < g.width; i++, bit++) if (f->bitmap[g.bitmapOffset + bit / 8] >> (7 - bit % 8) & 1) block(x + (g.xOffset + i) * size, y + (g.yOffset + j) * size, ink);
      const int bx = x + g.xOffset * size, by = y + g.yOffset * size, ex = bx + g.width * size, ey = by + g.height * size;
      if (ex > 0 && ey > 0) box.add(std::max(bx, 0), std::max(by, 0), ex - std::max(bx, 0), ey - std::max(by, 0));
    }
    x += size * g.xAdvance;
  }
};
static void same(Canvas& c, const Setter& s, const char* what) {
  for (int j = 0; j < c.H; j++) for (int i = 0; i < c.W; i++) MC_CHECK(c.mem[j * c.W + i] == s.px[j * c.W + i], "ink", "%s: (%d,%d) is %u, not %u", what, i, j, c.mem[j * c.W + i], s.px[j * c.W + i]);
  MC_CHECK(c.img.getCursorX() == (PixUInt) s.x && c.img.getCursorY() == (PixUInt) s.y, "cursor", "%s: the cursor is at (%u,%u), not (%d,%d)", what, c.img.getCursorX(), c.img.getCursorY(), s.x, s.y);
}
static void measured(Canvas& c, const S& t, int x, int y, const Box& b) {
  PixUInt q[3][4]; StringBuilder sb(t.c_str()); memset(q, 0x5A, sizeof(q)); const int forms = t.empty() ? 2 : 3;
  c.img.getTextBounds(t.c_str(), x, y, &q[0][0], &q[0][1], &q[0][2], &q[0][3]);
  c.img.getTextBounds((const uint8_t*) t.c_str(), x, y, &q[1][0], &q[1][1], &q[1][2], &q[1][3]);
  if (forms > 2) c.img.getTextBounds(&sb, x, y, &q[2][0], &q[2][1], &q[2][2], &q[2][3]);
  for (int k = 0; k < forms; k++) {
    if (b.r < 0) { MC_CHECK(q[k][2] == 0 && q[k][3] == 0 && q[k][0] == x && q[k][1] == y, "bounds:none", "text without ink has bounds (%u,%u) %ux%u in form %d", q[k][0], q[k][1], q[k][2], q[k][3], k); continue; }
    MC_CHECK(q[k][0] == b.l && q[k][1] == b.t && q[k][2] == b.r - b.l + 1 && q[k][3] == b.b - b.t + 1, "bounds", "the bounds are (%u,%u) %ux%u, not (%d,%d) %dx%d, in form %d", q[k][0], q[k][1], q[k][2], q[k][3], b.l, b.t, b.r - b.l + 1, b.b - b.t + 1, k);
  }
}
/* Every character of every font that is shipped. */
static void shipped() {
  const unsigned n = mc::choose(sizeof(SHIPPED) / sizeof(*SHIPPED)); const Named& N = SHIPPED[n]; const GFXfont* f = N.font; const int size = 1 + mc::choose(3); const bool wrap = mc::flip();
  mc::op("%s, size %d%s", N.name, size, wrap ? ", wrapped" : "");
  MC_CHECK(f->first <= f->last && N.glyphs == (size_t) (f->last - f->first + 1), "table", "%s has %zu glyphs for %u to %u", N.name, N.glyphs, f->first, f->last);
  for (unsigned c = 0; c < 256; c++) {
    if (c >= f->first && c <= f->last) { const GFXglyph& g = f->glyph[c - f->first]; MC_CHECK(g.bitmapOffset + (g.width * g.height + 7) / 8 <= (int) N.bitmap, "table", "the bitmap of %u of %s is not all there", c, N.name); }
    Canvas w(150, 420); Setter s(f, w.W, w.H, size, wrap, 40, 130);
    w.img.setFont(f); w.img.setTextSize(size); w.img.setTextColor(9); w.img.textWrap(wrap); w.img.setCursor(40, 130);
    MC_CHECK(w.img.getFont() == f && w.img.getFontHeight() == size * f->yAdvance && w.img.getFontWidth() == size * f->glyph[0].xAdvance, "metrics", "the font's cell is %ux%u", w.img.getFontWidth(), w.img.getFontHeight());
    s.put(c, 9); w.img.writeChar(c); mc::steps(1);
    char what[64]; snprintf(what, sizeof(what), "character %u of %s", c, N.name); same(w, s, what);
    if (c) measured(w, S(1, (char) c), 40, 130, s.box);
  }
}
/* Texts in a font. */
static void setting(unsigned depth) {
  static const GFXfont* const FS[] = { &ODD, &Picopixel, &FreeMono9pt7b, &TALL }; const unsigned which = mc::choose(4); const GFXfont* f = FS[which];
  static const char C[4][9] = { { '}', '~', '\x7f', '\x80', '\x81', '\x83', '\n', '\r', 'a' }, { 'A', ' ', 'j', '~', 'W', '\n', '\r', '\x01', '\xC3' }, { 'A', ' ', 'j', '|', 'W', '\n', '\r', '\x7f', '\x80' }, { '}', '~', '\x82', '\x80', '\n', '\x83', '\n', '\r', 'a' } };
  const int size = 1 + mc::choose(2); const bool wrap = mc::flip(); const int W = which == 2 ? 50 : 24, H = which == 2 ? 60 : 44; static const int X[] = { 0, 1, 10 }; const int cx = X[mc::choose(3)], cy = mc::choose(3) * (which == 2 ? 9 : 5);
  S t; for (unsigned i = 0; i < depth; i++) { const unsigned k = mc::choose(10); if (k == 9) break; t += C[which][k]; }
  mc::op("%s at (%d,%d) in font %u, size %d%s", mc::hex(t).c_str(), cx, cy, which, size, wrap ? ", wrapped" : "");
  Canvas w(W, H); Setter s(f, W, H, size, wrap, cx, cy); w.img.setFont(f); w.img.setTextSize(size); w.img.setTextColor(9); w.img.textWrap(wrap); w.img.setCursor(cx, cy);
  for (char c : t) s.put((uint8_t) c, 9);
  bool inside = true; { Setter o(f, W, H, size, wrap, cx, cy); for (char c : t) { o.put((uint8_t) c, 9); if (o.box.r >= 0 && (o.box.l >= W || o.box.t >= H)) inside = false; } }
  if (inside) measured(w, t, cx, cy, s.box);
  const unsigned how = mc::choose(3);
  if (how == 0) w.img.writeString(t.c_str()); else if (how == 1) { StringBuilder sb(t.c_str()); if (t.size()) w.img.writeString(&sb); } else for (char c : t) w.img.writeChar((uint8_t) c);
  mc::steps(1); same(w, s, "the text");
}
/* The built-in font: two inks, tabs, and a change of font on the way. */
static void classic(unsigned depth) {
  const int W = 40, H = 50, size = 1 + mc::choose(2), cx = mc::choose(3) * 9; const bool wrap = mc::flip(), opaque = mc::flip(); const uint8_t bg = opaque ? 3 : 9;
  Canvas a(W, H), b(W, H); a.img.setTextSize(size); a.img.textWrap(wrap); if (opaque) a.img.setTextColor(9, 3); else a.img.setTextColor(9); a.img.setCursor(cx, 12);
  MC_CHECK(a.img.getFontWidth() == 6 * size && a.img.getFontHeight() == 8 * size, "metrics", "the built-in font's cell is %ux%u", a.img.getFontWidth(), a.img.getFontHeight());
  mc::op("built-in font, size %d, from %d%s%s", size, cx, wrap ? ", wrapped" : "", opaque ? ", on a background" : "");
  int x = cx, y = 12; bool odd = false;
  auto cell = [&](uint8_t c) { if (wrap && x + 6 * size > W) { x = 0; y += 8 * size; } b.img.drawChar(x, y, c, 9, bg, size); x += 6 * size; };
  for (unsigned i = 0; i < depth; i++) {
    const unsigned k = mc::choose(6); mc::op("%s", k == 0 ? "A" : k == 1 ? "tab" : k == 2 ? "newline" : k == 3 ? "~" : k == 4 ? "cr" : "another font"); mc::steps(1);
    if (k == 5) { odd = !odd; a.img.setFont(odd ? &ODD : nullptr); continue; }
    static const char C[] = { 'A', '\t', '\n', '~', '\r' }; a.img.writeChar(C[k]);
    if (odd) { Setter s(&ODD, W, H, size, wrap, x, y); s.px = b.mem; s.put(C[k], 9); b.mem = s.px; b.img.setBuffer(b.mem.data()); x = s.x; y = s.y; continue; }
    if (k == 1) { cell(' '); cell(' '); } else if (k == 2) { x = 0; y += 8 * size; } else if (k != 4) cell(C[k]);
    MC_CHECK(a.mem == b.mem, "classic", "the picture is not the text");
    MC_CHECK(a.img.getCursorX() == x && a.img.getCursorY() == y, "classic:cursor", "the cursor is at (%u,%u), not (%d,%d)", a.img.getCursorX(), a.img.getCursorY(), x, y);
  }
  MC_CHECK(a.mem == b.mem, "classic", "the picture is not the text");
}

int main(int argc, char** argv) {
  const bool T = mc::thorough; std::vector<mc::Config> c;
  c.emplace_back("shipped", []() { shipped(); }, 2, "every character code in each of the fonts that come with the library, three sizes, wrapped or not");
  c.emplace_back("setting", [=]() { setting(T ? 6 : 4); }, 4, "all texts of up to 4 (thorough 6) of nine characters in four fonts, two of them with wide, empty, overhanging and high-coded glyphs; two sizes, nine places, wrapped or not");
  c.emplace_back("classic", [=]() { classic(T ? 8 : 6); }, 3, "all texts of 6 (thorough 8) of five characters and changes of font, with and without a background");
  return mc::main(argc, argv, "C51", c, {"the shapes of the built-in font's characters, and single characters, are C40's", "the bounds of text are judged while it begins inside the picture"});
}
