/* C36: three-component vectors, on a lattice where every result is exact, against the definitions written out per component. */
#include "../mc/mc.h"
#include "Vector3.h"
#include <vector>
#include <string>
#include <math.h>

template <typename T> static std::string show(const Vector3<T>& v) { char b[96]; snprintf(b, sizeof(b), "(%.9g %.9g %.9g)", (double) v.x, (double) v.y, (double) v.z); return b; }
template <typename T> static bool is(const Vector3<T>& v, T x, T y, T z) { return v.x == x && v.y == y && v.z == z; }
#define SAME(V, X, Y, Z, WHAT) do { const auto r_ = (V); MC_CHECK(is<T>(r_, (T) (X), (T) (Y), (T) (Z)), "vector:" WHAT, "%s of %s and %s is %s", WHAT, show(a).c_str(), show(b).c_str(), show(r_).c_str()); } while (0)

/* Signed and unsigned lattices; every product used below stays in range of the type. */
template <typename T> struct Lattice { static std::vector<T> get(bool fine) { std::vector<T> r; const int n = fine ? 3 : 2; for (int i = -n; i <= n; i++) r.push_back((T) i); return r; } };
template <> struct Lattice<uint8_t>  { static std::vector<uint8_t> get(bool fine)  { std::vector<uint8_t> r;  for (int i = 0; i <= (fine ? 6 : 4); i++) r.push_back((uint8_t) i); return r; } };
template <> struct Lattice<uint16_t> { static std::vector<uint16_t> get(bool fine) { std::vector<uint16_t> r; for (int i = 0; i <= (fine ? 6 : 4); i++) r.push_back((uint16_t) i); return r; } };
template <> struct Lattice<uint32_t> { static std::vector<uint32_t> get(bool fine) { std::vector<uint32_t> r; for (int i = 0; i <= (fine ? 6 : 4); i++) r.push_back((uint32_t) i); return r; } };

template <typename T> static Vector3<T> any(const std::vector<T>& L) { return Vector3<T>(mc::pick(L), mc::pick(L), mc::pick(L)); }
template <typename T> static bool close(T got, double want) { return fabs((double) got - want) <= 1e-5 * (1.0 + fabs(want)); }

/* Every ordered pair of vectors, and a scalar. */
template <typename T> static void pairs() {
  const std::vector<T> L = Lattice<T>::get(mc::thorough);
  const Vector3<T> a = any<T>(L), b = any<T>(L);
  for (T k : L) {
    mc::steps(1);
    SAME(a * k, a.x * k, a.y * k, a.z * k, "scaling");
    { Vector3<T> c(a); Vector3<T>& r = (c *= k); SAME(c, a.x * k, a.y * k, a.z * k, "scaling in place"); MC_CHECK(&r == &c, "vector:chain", "*= gives another object"); }
    if (k != (T) 0) {
      SAME(a / k, a.x / k, a.y / k, a.z / k, "division");
      Vector3<T> c(a); Vector3<T>& r = (c /= k); SAME(c, a.x / k, a.y / k, a.z / k, "division in place"); MC_CHECK(&r == &c, "vector:chain", "/= gives another object");
    }
  }
  SAME(a + b, a.x + b.x, a.y + b.y, a.z + b.z, "sum");
  SAME(a - b, a.x - b.x, a.y - b.y, a.z - b.z, "difference");
  { Vector3<T> c(a); Vector3<T>& r = (c += b); SAME(c, a.x + b.x, a.y + b.y, a.z + b.z, "sum in place"); MC_CHECK(&r == &c, "vector:chain", "+= gives another object"); }
  { Vector3<T> c(a); Vector3<T>& r = (c -= b); SAME(c, a.x - b.x, a.y - b.y, a.z - b.z, "difference in place"); MC_CHECK(&r == &c, "vector:chain", "-= gives another object"); }
  { Vector3<T> c(a); c += c; SAME(c, a.x + a.x, a.y + a.y, a.z + a.z, "sum with itself"); c -= c; SAME(c, 0, 0, 0, "difference with itself"); }
  SAME(-a, -a.x, -a.y, -a.z, "negation");
  MC_CHECK(a * b == (T) (a.x * b.x + a.y * b.y + a.z * b.z), "vector:dot", "dot product of %s and %s is %g", show(a).c_str(), show(b).c_str(), (double) (a * b));
  SAME(a % b, a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x, "cross product");
  { Vector3<T> p(a), q(b); const bool eq = a.x == b.x && a.y == b.y && a.z == b.z;
    MC_CHECK((p == q) == eq && (p != q) == !eq, "vector:equality", "%s and %s: equal %d, unequal %d", show(a).c_str(), show(b).c_str(), p == q, p != q);
    p.set(&q); SAME(p, b.x, b.y, b.z, "copy"); p.set(a.x, a.y, a.z); SAME(p, a.x, a.y, a.z, "setting"); p(b.x, b.y, b.z); SAME(p, b.x, b.y, b.z, "setting by call");
    Vector3<T> c(&q); SAME(c, b.x, b.y, b.z, "copy construction"); Vector3<T> z; SAME(z, 0, 0, 0, "default"); }
  const double aa = (double) a.x * a.x + (double) a.y * a.y + (double) a.z * a.z;
  MC_CHECK((double) a.length_squared() == aa, "vector:length2", "%s: squared length %g", show(a).c_str(), (double) a.length_squared());
}
/* The operations that take roots and quotients, for the types that hold fractions. */
template <typename T> static void roots() {
  std::vector<T> L = Lattice<T>::get(mc::thorough);
  static const double SCALE[] = { 1.0, 0.1, 3.0, 1e-3, 1234.5 };
  const double sa = mc::pick(std::vector<double>(SCALE, SCALE + 5)), sb = mc::pick(std::vector<double>(SCALE, SCALE + 5));
  Vector3<T> a = any<T>(L), b = any<T>(L);
  a.x = (T) (a.x * sa); a.y = (T) (a.y * sa); a.z = (T) (a.z * sa); b.x = (T) (b.x * sb); b.y = (T) (b.y * sb); b.z = (T) (b.z * sb);
  const double ax = a.x, ay = a.y, az = a.z, bx = b.x, by = b.y, bz = b.z;
  const double aa = ax * ax + ay * ay + az * az, bb = bx * bx + by * by + bz * bz, ab = ax * bx + ay * by + az * bz;
  const double la = sqrt(aa), lb = sqrt(bb);
  mc::steps(8);
  MC_CHECK(close(a.length() , la), "vector:length", "%s: length %g", show(a).c_str(), (double) a.length());
  auto near3 = [&](const Vector3<T>& v, double x, double y, double z, double unit) { return fabs(v.x - x) <= 2e-5 * unit && fabs(v.y - y) <= 2e-5 * unit && fabs(v.z - z) <= 2e-5 * unit; };
  { Vector3<T> n(a); n.normalize(); MC_CHECK(la == 0 ? is<T>(n, 0, 0, 0) : near3(n, ax / la, ay / la, az / la, 1), "vector:normalize", "%s normalized is %s", show(a).c_str(), show(n).c_str());
    Vector3<T> m(a); m.normalize((float) la); MC_CHECK(la == 0 ? is<T>(m, 0, 0, 0) : near3(m, ax / la, ay / la, az / la, 1), "vector:normalize-by", "%s normalized by its length is %s", show(a).c_str(), show(m).c_str()); }
  if (la != 0) { const Vector3<T> n = a.normalized(); MC_CHECK(near3(n, ax / la, ay / la, az / la, 1), "vector:normalized", "%s normalized() is %s", show(a).c_str(), show(n).c_str()); }
  if (lb != 0) {
    const double k = ab / bb;
    Vector3<T> p = a.projected(b); MC_CHECK(near3(p, bx * k, by * k, bz * k, la + 1e-9), "vector:projected", "%s projected() onto %s is %s", show(a).c_str(), show(b).c_str(), show(p).c_str());
    MC_CHECK(is<T>(a, (T) ax, (T) ay, (T) az), "vector:projected-const", "projected() changed its vector");
    Vector3<T> q(a); q.project(b); MC_CHECK(near3(q, bx * k, by * k, bz * k, la + 1e-9), "vector:project", "%s project() onto %s is %s", show(a).c_str(), show(b).c_str(), show(q).c_str());
    Vector3<T> r(a); r.reflect(b); MC_CHECK(near3(r, 2 * bx * k - ax, 2 * by * k - ay, 2 * bz * k - az, 3 * la + 1e-9), "vector:reflect", "%s reflected about %s is %s", show(a).c_str(), show(b).c_str(), show(r).c_str());
  }
  const float g = Vector3<T>::angle(a, b);
  if (la == 0 || lb == 0) MC_CHECK(g == 0, "vector:angle-zero", "the angle between %s and %s is %g", show(a).c_str(), show(b).c_str(), g);
  else {
    const double c = ab / (la * lb), want = acos(c > 1 ? 1 : c < -1 ? -1 : c);
    MC_CHECK(fabs(g - want) <= 2e-3, "vector:angle", "the angle between %s and %s is %g, not %g", show(a).c_str(), show(b).c_str(), g, want);
    Vector3<T> na((T) (ax / la), (T) (ay / la), (T) (az / la)), nb((T) (bx / lb), (T) (by / lb), (T) (bz / lb));
    const float h = Vector3<T>::angle_normalized(na, nb);
    MC_CHECK(fabs(h - want) <= 2e-3, "vector:angle-normalized", "the angle between %s and %s, normalized, is %g, not %g", show(a).c_str(), show(b).c_str(), h, want);
  }
}
/* Each component to the ends of its type: what one does is what the others do. */
template <typename T> static std::vector<T> ends();
template <> std::vector<int8_t> ends()   { return { -128, -127, -64, -1, 0, 1, 63, 126, 127 }; }
template <> std::vector<int16_t> ends()  { return { -32768, -32767, -129, -1, 0, 1, 255, 32766, 32767 }; }
template <> std::vector<int32_t> ends()  { return { -1073741823, -32769, -1, 0, 1, 65537, 1073741823 }; }
template <> std::vector<uint8_t> ends()  { return { 0, 1, 2, 127, 128, 254, 255 }; }
template <> std::vector<uint16_t> ends() { return { 0, 1, 2, 255, 256, 32768, 65535 }; }
template <> std::vector<uint32_t> ends() { return { 0, 1, 2, 65535, 65536, 0x80000000u, 0xFFFFFFFFu }; }
template <> std::vector<float> ends()    { return { -1.5e18f, -16777216.0f, -0.375f, 0, 1e-12f, 0.125f, 3e17f }; }
template <> std::vector<double> ends()   { return { -1.5e150, -9007199254740992.0, -0.375, 0, 1e-120, 0.125, 3e140 }; }
template <typename T> static void edges() {
  const std::vector<T> L = ends<T>();
  const Vector3<T> a = any<T>(L); const T k = mc::pick(L); const Vector3<T> b(k, mc::pick(L), k);
  mc::steps(4);
  SAME(a + b, (T) (a.x + b.x), (T) (a.y + b.y), (T) (a.z + b.z), "sum");
  SAME(a - b, (T) (a.x - b.x), (T) (a.y - b.y), (T) (a.z - b.z), "difference");
  SAME(-a, (T) -a.x, (T) -a.y, (T) -a.z, "negation");
  if (sizeof(T) < 4 || std::is_floating_point<T>::value || std::is_unsigned<T>::value) SAME(a * k, (T) (a.x * k), (T) (a.y * k), (T) (a.z * k), "scaling");
  if (k != (T) 0) SAME(a / k, (T) (a.x / k), (T) (a.y / k), (T) (a.z / k), "division");
}
int main(int argc, char** argv) {
  std::vector<mc::Config> c;
#define ALL(T) c.emplace_back("pairs-" #T, pairs<T>, 2, "every ordered pair of vectors with components -2..2 (unsigned 0..4; thorough -3..3, 0..6), every such scalar"); \
               c.emplace_back("edges-" #T, edges<T>, 2, "components at the ends of the type and next to them");
  ALL(int8_t) ALL(int16_t) ALL(int32_t) ALL(uint8_t) ALL(uint16_t) ALL(uint32_t) ALL(float) ALL(double)
  c.emplace_back("roots-float", roots<float>, 2, "the same pairs at 25 pairs of scales: length, normalisation, projection, reflection, angle");
  c.emplace_back("roots-double", roots<double>, 2, "the same pairs at 25 pairs of scales");
  return mc::main(argc, argv, "C36", c, {"lengths are single precision, whatever the component type", "normalisation, projection and angles are for components that hold fractions"});
}
