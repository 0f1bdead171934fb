// C15 rotations, reflections, projections: geometry of the products
#include "../gen.hpp"
char const *const kProperty = "C15";
char const *const kRule =
    "generate a rotation angle bivector (|B| 0..20) and items of all grades; compare R*x*reverse(R) with "
    "R=exp(B/2) against the Rodrigues rotation of vectors (and duals), check lengths, inner/outer products, "
    "grades and composition; reflections -n*x*n and projections against 3-vector formulas; the spinor "
    "sqrtG2(b*a) takes direction a to direction b; non-trivial = nonzero angle and generic (>= 2 component) "
    "plane and item";
using namespace vt;
typedef std::array<LD, 3> V3;
static V3 cross(V3 const &a, V3 const &b) {
  return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
static LD dot(V3 const &a, V3 const &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
template <class T> static V3 v3(T const &x) { return {(LD)x[0], (LD)x[1], (LD)x[2]}; }
static V3 rodrigues(V3 const &x, V3 const &biv) {
  // exp(B/2) x exp(-B/2): right-handed rotation by -|B| about the dual axis of B
  LD n = std::sqrt(dot(biv, biv));
  if (n == 0) return x;
  V3 k{biv[0] / n, biv[1] / n, biv[2] / n};
  LD cs = std::cos(n), sn = -std::sin(n);
  V3 kx = cross(k, x);
  LD kd = dot(k, x);
  V3 r;
  for (int i = 0; i < 3; ++i) r[i] = x[i] * cs + kx[i] * sn + k[i] * kd * (1 - cs);
  return r;
}
static M all(LD v) {
  M s;
  for (int i = 0; i < 8; ++i) s[i] = v;
  return s;
}
void property(Ctx &c) {
  Gen g(c, Rng{-3, 3, -8, 8, true});
  std::array<double, 3> b;
  if (g.chance(1, 2)) {
    auto u = g.unitTriple();
    double a = g.pick(2) ? ((int)g.pick(49) - 24) * (3.14159265358979323846 / 12.) : 40 * g.unit() - 20;
    c.note(a);
    for (int i = 0; i < 3; ++i) b[i] = a * u[i];
  } else {
    b = g.triple();
    double n = std::sqrt(b[0] * b[0] + b[1] * b[1] + b[2] * b[2]);
    if (n > 20)
      for (double &x : b) x *= 20 / n;
  }
  for (double x : b) c.note(x);
  g3::BiVector const B{b[0], b[1], b[2]};
  auto t1 = g.triple(), t2 = g.triple();
  // items in special position to the plane and to each other: along its axis, nearly, in the plane,
  // nearly parallel or opposite
  auto toward = [&](std::array<double, 3> &t, std::array<double, 3> const &o) {
    LD on = 0;
    for (double v : o) on += (LD)v * v;
    on = std::sqrt(on);
    if (!(on > 1e-6L)) return;
    double s = g.mag(-2, 2) * (g.pick(2) ? 1 : -1), e = g.pick(3) ? g.mag(-12, 0) : 0.;
    for (int i = 0; i < 3; ++i) t[i] = (double)(s * (o[i] / on + e * (2 * g.unit() - 1)));
    for (double v : t) c.note(v);
  };
  switch (g.pick(8)) {
  case 0: toward(t1, b); break;
  case 1: toward(t2, t1); break;
  case 2: toward(t2, b); break;
  case 3: { // in the plane of B
    V3 w = cross({(LD)b[0], (LD)b[1], (LD)b[2]}, {(LD)t1[0], (LD)t1[1], (LD)t1[2]});
    LD wn = std::sqrt(dot(w, w));
    if (wn > 1e-6L && wn < 1e6L)
      for (int i = 0; i < 3; ++i) t1[i] = (double)w[i];
    break;
  }
  }
  // the geometry has no preferred unit of length: scale each item by a power of two of its own
  bool const scaled = g.pick(4) == 0;
  auto unitOf = [&] { return scaled ? std::ldexp(1., (int)g.pick(801) - 400) : 1.; };
  double const ux = unitOf(), uy = unitOf();
  for (int i = 0; i < 3; ++i) t1[i] *= ux, t2[i] *= uy;
  c.note(ux), c.note(uy);
  g3::Vector const x{t1[0], t1[1], t1[2]}, y{t2[0], t2[1], t2[2]};
  c.show("B", [&] { return str(B); });
  c.show("x", [&] { return str(x); });
  c.show("y", [&] { return str(y); });
  LD n = ref::mag(toM(B)), xn = ref::mag(toM(x)), yn = ref::mag(toM(y));
  c.nontriv = n > 0 && countNonzero(d8(x)) >= 2;
  switch (g.pick(4)) {
  case 0: { // rotation of all grades
    c.label("rotation");
    g3::Spinor const R = g3::exp(.5 * B);
    auto rv = R * x * g3::reverse(R);
    V3 w = rodrigues(v3(x), v3(B));
    M wm;
    for (int i = 0; i < 3; ++i) wm[1 + i] = w[i];
    near8(c, "R*x*reverse(R) vs Rodrigues", d8(rv), wm, all(xn * (1 + n)), 24);
    // bivectors rotate as planes (duals), scalars and trivectors are unchanged
    g3::BiVector const P = unitOf() * g.item<g3::BiVector>();
    LD pn = ref::mag(toM(P));
    auto rp = R * P * g3::reverse(R);
    V3 wp = rodrigues(v3(P), v3(B));
    M pm;
    for (int i = 0; i < 3; ++i) pm[4 + i] = wp[i];
    near8(c, "R*P*reverse(R) vs rotated plane", d8(rp), pm, all(pn * (1 + n)), 24);
    g3::TriVector const T = unitOf() * g.item<g3::TriVector>();
    near8(c, "R*T*reverse(R) == T", d8(R * T * g3::reverse(R)), toM(T), all(std::fabs(T[0])), 16);
    g3::Scalar const s = unitOf() * g.item<g3::Scalar>();
    near8(c, "R*s*reverse(R) == s", d8(R * s * g3::reverse(R)), toM(s), all(std::fabs(s[0])), 16);
    // the same through a general multivector
    g3::MultiVector const mv(s, x, P, T);
    M wa = wm + pm + toM(T) + toM(s);
    near8(c, "R*M*reverse(R)", d8(R * mv * g3::reverse(R)), wa,
          all((xn + pn + std::fabs((LD)T[0]) + std::fabs((LD)s[0])) * (1 + n)), 48);
    // lengths and products are preserved
    auto ry = R * y * g3::reverse(R);
    near8(c, "rotated product == product rotated", d8(rv * ry), toM(R * (x * y) * g3::reverse(R)),
          all(xn * yn), 128);
    nearS(c, "length preserved", g3::magnitude(rv), xn, 24 * kEps * xn);
    // inverse rotation
    near8(c, "reverse(R)*(..)*R undoes", d8(g3::reverse(R) * rv * R), toM(x), all(xn), 64);
    break;
  }
  case 1: { // composition of two rotations
    c.label("composition");
    auto u = g.unitTriple();
    double a = 12 * g.unit() - 6;
    if (n > 1e-6L && g.pick(4) == 0) { // coplanar, or undoing the first
      for (int i = 0; i < 3; ++i) u[i] = (double)(b[i] / n);
      if (g.pick(2)) a = (double)(g.pick(2) ? -n : n) * (g.pick(2) ? g.tiltUp() : 1.);
      if (std::fabs(a) > 6.5) a = 1;
    }
    g3::BiVector const B2{a * u[0], a * u[1], a * u[2]};
    c.show("B2", [&] { return str(B2); });
    g3::Spinor const R1 = g3::exp(.5 * B), R2 = g3::exp(.5 * B2);
    g3::Spinor const R = R2 * R1;
    nearS(c, "|R2*R1|", g3::magnitude(R), 1, 24 * kEps);
    V3 w = rodrigues(rodrigues(v3(x), v3(B)), v3(B2));
    M wm;
    for (int i = 0; i < 3; ++i) wm[1 + i] = w[i];
    near8(c, "composed rotation", d8(R * x * g3::reverse(R)), wm, all(xn * (7 + n)), 48);
    break;
  }
  case 2: { // reflection, projection, rejection
    c.label("reflection and projection");
    if (yn < 1e-8L * uy) {
      c.label("skipped: mirror too small");
      return;
    }
    g3::Vector const nrm = g3::direction(y);
    V3 nu{v3(y)[0] / yn, v3(y)[1] / yn, v3(y)[2] / yn};
    LD k = dot(nu, v3(x));
    M refl, proj;
    for (int i = 0; i < 3; ++i) {
      refl[1 + i] = (LD)x[i] - 2 * k * nu[i];
      proj[1 + i] = k * nu[i];
    }
    near8(c, "-n*x*n reflects", d8(-(nrm * x * nrm)), refl, all(xn), 48);
    auto pr = (x * nrm).theSca * nrm;
    near8(c, "projection (x.n)n", d8(pr), proj, all(xn), 32);
    auto rj = (x * nrm).theBiv * nrm;
    near8(c, "rejection (x^n)n", d8(rj), toM(x) - proj, all(xn), 48);
    // area and its plane: bivector part of x*y is the dual of the cross product
    V3 cr = cross(v3(x), v3(y));
    g3::Spinor const xy = x * y;
    for (int i = 0; i < 3; ++i) nearS(c, "outer product", xy.theBiv[i], cr[i], 8 * kEps * xn * yn);
    nearS(c, "inner product", xy.theSca[0], dot(v3(x), v3(y)), 8 * kEps * xn * yn);
    // volume of three vectors
    auto t3 = g.triple();
    g3::Vector const z{t3[0], t3[1], t3[2]};
    LD vol = dot(cr, v3(z));
    nearS(c, "volume", (x * y * z).theTri[0], vol, 32 * kEps * xn * yn * ref::mag(toM(z)));
    break;
  }
  default: { // rotation taking one direction to another
    c.label("direction to direction");
    if (xn < 1e-6L * ux || yn < 1e-6L * uy) {
      c.label("skipped: no direction");
      return;
    }
    LD cosA = dot(v3(x), v3(y)) / (xn * yn);
    V3 cr = cross(v3(x), v3(y));
    LD sinA = std::sqrt(dot(cr, cr)) / (xn * yn);
    if (cosA < 0 && sinA < 1e-6L) {
      c.label("skipped: opposite directions");
      return;
    }
    g3::Vector const a = g3::direction(x), b2 = g3::direction(y);
    g3::Spinor const R = g3::sqrtG2(b2 * a);
    M w;
    for (int i = 0; i < 3; ++i) w[1 + i] = v3(y)[i] / yn;
    LD slack = sinA < 1e-7L ? 1e-7L / kEps : 0;
    near8(c, "sqrtG2(b*a) takes a to b", d8(R * a * g3::reverse(R)), w, all(64 / (cosA < 0 ? sinA : 1) + slack), 1);
  }
  }
}
