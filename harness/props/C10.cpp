// C10 inverses
#include "../gen.hpp"
char const *const kProperty = "C10";
char const *const kRule =
    "pick an invertible-type item (4 blades, ComPlex, MultiVector), compare inverse(x) with the long double "
    "dirverse(x)/ampSq(x), check x*inv == inv*x == 1, inverse of the inverse, linear equations a*x=b, and "
    "that zero and exact zero divisors (constructed from integer null elements) have no valid inverse; "
    "non-trivial = nonzero item with >= 2 nonzero components (or single-component), condition number "
    "|x|^2/|ampSq| below 1e9, or a constructed zero divisor";
using namespace vt;
static g3::Scalar inv(g3::Scalar const &x) { return g3::inverse(x); }
static g3::Vector inv(g3::Vector const &x) { return g3::inverse(x); }
static g3::BiVector inv(g3::BiVector const &x) { return g3::inverse(x); }
static g3::TriVector inv(g3::TriVector const &x) { return g3::inverse(x); }
static g3::ComPlex inv(g3::ComPlex const &x) { return g3::inverse<g3::ComPlex>(x); }
static g3::MultiVector inv(g3::MultiVector const &x) { return g3::inverse<g3::MultiVector>(x); }
typedef Types<g3::Scalar, g3::Vector, g3::BiVector, g3::TriVector, g3::ComPlex, g3::MultiVector> InvTypes;

template <class T> static void one(Ctx &c, Gen &g) {
  T x = g.item<T>();
  if (g.chance(1, 24)) x = g3::zero<T>();
  if constexpr (std::is_same_v<T, g3::MultiVector>)
    if (g.pick(6) == 0) { // close to a zero divisor: u + v or v + b with |v| nearly u, nearly orthogonal
      auto v = g.unitTriple(), w = g.unitTriple();
      double s = g.mag(-2, 2), e = g.mag(-8, 0);
      D8 d{};
      for (int i = 0; i < 3; ++i) d[1 + i] = s * v[i];
      if (g.pick(2))
        d[0] = s * (1 + e);
      else {
        d[4] = s * (v[1] * w[2] - v[2] * w[1]), d[5] = s * (v[2] * w[0] - v[0] * w[2]), d[6] = s * (v[0] * w[1] - v[1] * w[0]);
        double n = std::hypot(d[4], d[5], d[6]);
        if (n > 0)
          for (int i = 4; i < 7; ++i) d[i] *= s / n * (1 + e);
        else
          d[4] = s;
      }
      for (double &q : d) q += s * e * e * (2 * g.unit() - 1) * g.pick(2);
      x = fromD8<T>(d);
      if (g.pick(2)) x = x * g.item<g3::Spinor>();
      D8 f = d8(x);
      for (double q : f) c.note(q);
    }
  c.show("x", [&] { return str(x); });
  M m = toM(x);
  M q = m * ref::dirverse(m);
  LD qa = std::hypot(q[0], q[7]), n2 = ref::magSq(m);
  auto r = inv(x);
  if (c.verbose) c.showStr("inverse", str(r));
  if (n2 == 0) {
    c.nontriv = true;
    c.label("zero item");
    c.check(!g3::isValid(r), "inverse of zero is valid");
    return;
  }
  if (qa == 0 || n2 / qa > 1e9L) {
    c.label("ill-conditioned (value not compared)");
    return;
  }
  LD kap = n2 / qa;
  // the library documents null below the smallest normal squared amplitude: stay clear of under/overflow
  if (qa < 1e-130L || qa > 1e130L) {
    c.label("amplitude out of range");
    return;
  }
  bool single = std::is_same_v<T, g3::Scalar> || std::is_same_v<T, g3::TriVector>;
  c.nontriv = single || countNonzero(d8(x)) >= 2;
  c.label(Nm<T>::s);
  M w; // dirverse(x) * conj(q)/|q|^2
  M qi;
  qi[0] = q[0] / (qa * qa), qi[7] = -q[7] / (qa * qa);
  w = qi * ref::dirverse(m);
  LD wn = ref::mag(w);
  M sc;
  if (std::is_same_v<T, g3::MultiVector>)
    for (int i = 0; i < 8; ++i) sc[i] = wn * kap;
  else if (std::is_same_v<T, g3::ComPlex>)
    for (int i = 0; i < 8; ++i) sc[i] = wn;
  else
    sc = ref::absM(w); // blades: relative accuracy per component
  c.check(g3::isValid(r), "inverse of an invertible item is not valid");
  near8(c, "inverse", d8(r), w, sc, std::is_same_v<T, g3::MultiVector> ? 64 : 16);
  M s1;
  for (int i = 0; i < 8; ++i) s1[i] = kap * ref::mag(m) * wn;
  near8(c, "x*inverse(x)", d8(x * r), ref::scalar(1), s1, 128);
  near8(c, "inverse(x)*x", d8(r * x), ref::scalar(1), s1, 128);
  LD kk = kap * kap * kap;
  M s2;
  for (int i = 0; i < 8; ++i) s2[i] = kk * ref::mag(m);
  if (kk < 1e9L) near8(c, "inverse(inverse(x))", d8(inv(r)), m, s2, 512);
  // linear equation x*y = b solved by inverse(x)*b
  g3::MultiVector const y = g.item<g3::MultiVector>();
  auto b = x * y;
  M s3;
  for (int i = 0; i < 8; ++i) s3[i] = kap * ref::mag(m) * wn * ref::mag(toM(y));
  near8(c, "inverse(x)*(x*y) == y", d8(r * b), toM(y), s3, 256);
}
static void divisors(Ctx &c, Gen &g) {
  // integer Pythagorean directions: (u + v) with |v|^2 == u^2 exactly
  static int const py[][4] = {{1, 0, 0, 1}, {3, 4, 0, 5}, {0, 3, 4, 5}, {1, 2, 2, 3}, {2, 3, 6, 7},
                              {1, 4, 8, 9}, {4, 4, 7, 9}, {2, 6, 9, 11}, {6, 6, 7, 11}, {3, 4, 12, 13},
                              {0, 5, 12, 13}, {8, 9, 12, 17}};
  auto t = py[g.pick(sizeof py / sizeof py[0])];
  std::array<double, 3> v{(double)t[0], (double)t[1], (double)t[2]};
  for (double &x : v)
    if (g.pick(2)) x = -x;
  if (g.pick(2)) std::swap(v[0], v[1]);
  if (g.pick(2)) std::swap(v[1], v[2]);
  double u = t[3];
  D8 d{};
  switch (g.pick(3)) {
  case 0: // scalar + vector
    d = {u, v[0], v[1], v[2], 0, 0, 0, 0};
    break;
  case 1: { // vector + orthogonal bivector of equal size: e.g. v and its permuted cross direction
    static double const ax[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
    size_t i = g.pick(3), j = (i + 1 + g.pick(2)) % 3;
    d = {0, u * ax[i][0], u * ax[i][1], u * ax[i][2], u * ax[j][0], u * ax[j][1], u * ax[j][2], 0};
    break;
  }
  default: // bivector + trivector: T*(scalar+vector)
    d = {0, 0, 0, 0, v[0], v[1], v[2], u};
  }
  if (g.pick(2))
    for (double &x : d) x = -x;
  double s = std::ldexp(1., (int)g.pick(41) - 20);
  for (double &x : d) x *= s;
  for (double x : d) c.note(x);
  g3::MultiVector x = fromD8<g3::MultiVector>(d);
  // multiply by another exact integer element: still a zero divisor, generally all grades
  if (g.pick(2)) {
    D8 e{};
    for (double &y : e) y = (double)((int)g.pick(7) - 3);
    x = g.pick(2) ? x * fromD8<g3::MultiVector>(e) : fromD8<g3::MultiVector>(e) * x;
  }
  c.show("zero divisor", [&] { return str(x); });
  M m = toM(x), q = m * ref::dirverse(m);
  if (q[0] != 0 || q[7] != 0) c.fail("generator: not a zero divisor");
  c.nontriv = true;
  c.label("zero divisors");
  c.check(!g3::isValid(inv(x)), "inverse of an element without inverse is valid");
}
void property(Ctx &c) {
  if (c.draw(6) == 5) {
    Gen g(c);
    divisors(c, g);
    return;
  }
  Gen g(c, c.draw(4) == 3 ? Rng{-20, 20, -30, 30, true} : Rng{-2, 2, -6, 6, true});
  size_t i = g.pick(9);
  if (i >= 6) i = 5;
  withType(i, InvTypes{}, [&](auto t) { one<typename decltype(t)::type>(c, g); });
}
