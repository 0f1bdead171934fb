// C14 square root of spinors
#include "../gen.hpp"
char const *const kProperty = "C14";
char const *const kRule =
    "generate a spinor by magnitude (1e-139..1e139), angle in [0,pi] and plane (or raw components), compare "
    "sqrtG2 with sqrt|S|*(cos(a/2)+plane*sin(a/2)) in long double (rotations within 1e-7 rad of "
    "identity/half turn may be snapped), check root*root == S, non-negative scalar part, the half-turn plane "
    "argument, zero -> zero; non-trivial = nonzero bivector part, exact half turn, or zero";
using namespace vt;
void property(Ctx &c) {
  Gen g(c, Rng{-6, 6, -130, 130, true});
  g3::Spinor S;
  size_t kind = g.pick(8);
  double const PI = 3.14159265358979323846;
  if (kind <= 3) {
    auto u = g.unitTriple();
    double a;
    switch (g.pick(6)) {
    case 0: a = PI * std::pow(10., -12 * g.unit()); break;
    case 1: a = PI - PI * std::pow(10., -12 * g.unit()); break;
    case 2: a = PI / 12 * g.pick(13); break;
    case 3: a = PI / 2 + (2 * g.unit() - 1) * std::pow(10., -16 * g.unit()); break;
    default: a = PI * g.unit();
    }
    double m = kind == 0 ? 1. : kind == 1 ? g.mag(-139, 139) : g.mag(-3, 3);
    c.note(a), c.note(m);
    double s = std::sin(a), k = std::cos(a);
    S = g3::Spinor{g3::Scalar{m * k}, g3::BiVector{m * s * u[0], m * s * u[1], m * s * u[2]}};
  } else if (kind == 4) {
    double s = g.nonzero();
    S = g3::Spinor{g3::Scalar{g.pick(3) ? -std::fabs(s) : std::fabs(s)}, g3::BiVector{0., 0., 0.}};
  } else if (kind == 5 && g.pick(4) == 0)
    S = g3::zero<g3::Spinor>();
  else
    S = g.item<g3::Spinor>();
  g3::BiVector plane = g3::e23;
  bool given = g.pick(2);
  if (given) {
    auto t = g.triple();
    plane = g3::BiVector{t[0], t[1], t[2]};
    LD pn = ref::mag(toM(plane));
    if (!(pn > 1e-60L)) plane = g3::BiVector{0., 0., 2.};
  }
  c.show("S", [&] { return str(S); });
  if (given) c.show("plane", [&] { return str(plane); });
  D8 d = d8(S);
  LD bn = std::sqrt((LD)d[4] * d[4] + (LD)d[5] * d[5] + (LD)d[6] * d[6]);
  LD n = ref::mag(toM(S));
  g3::Spinor const R = given ? g3::sqrtG2(S, plane) : g3::sqrtG2(S);
  if (c.verbose) c.showStr("sqrt", str(R));
  if (n == 0) {
    c.nontriv = true;
    c.label("zero");
    exact8(c, "sqrtG2(0)", d8(R), D8{});
    return;
  }
  if (n < 1e-140L || n > 1e140L) {
    c.label("magnitude out of the compared range");
    return;
  }
  LD ang = std::atan2(bn, (LD)d[0]), PIl = std::acos(-1.0L), ln = std::fabs(std::log(n));
  LD rt = std::sqrt(n);
  M w;
  w[0] = rt * std::cos(ang / 2);
  if (bn > 0)
    for (int i = 0; i < 3; ++i) w[4 + i] = rt * std::sin(ang / 2) * d[4 + i] / bn;
  LD pm = ref::mag(toM(plane));
  M half;
  for (int i = 0; i < 3; ++i) half[4 + i] = rt * plane[i] / pm;
  D8 r = d8(R);
  LD tight = (24 + 6 * ln) * kEps * rt;
  auto close = [&](M const &x, LD tol) {
    for (int i = 0; i < 8; ++i)
      if (!(std::fabs((LD)r[i] - x[i]) <= tol)) return false;
    return true;
  };
  bool ok;
  LD sq = 0; // extra slack for root*root
  if (bn == 0 && d[0] < 0) {
    c.nontriv = true;
    c.label("exact half turn");
    ok = close(half, tight);
  } else if (ang < 1e-7L) {
    c.nontriv = bn > 0;
    c.label("near identity");
    LD slack = ang < 4e-8L ? ang : 0;
    ok = close(w, tight + slack * rt);
    sq = 2 * slack;
  } else if (PIl - ang < 1e-7L) {
    c.nontriv = true;
    c.label("near half turn");
    ok = close(w, tight) || (PIl - ang < 4e-8L && close(half, tight));
    sq = 8e-8L;
  } else {
    c.nontriv = true;
    c.label("general rotation");
    ok = close(w, tight);
    // relative accuracy of the bivector part for small angles
    for (int i = 4; i < 7; ++i)
      ok = ok && std::fabs((LD)r[i] - w[i]) <= (32 + 8 * ln) * kEps * std::fabs(w[i]) + 1e-280L;
  }
  c.checkf(ok, [&] { return "sqrtG2 gives " + str(R) + " expected " + str(w) + " or (half turn) " + str(half); });
  c.check(r[0] >= -(double)tight, "principal root has negative scalar part");
  nearS(c, "|root|^2 == |S|", g3::magSq(R), n, (24 + 8 * ln) * kEps * n);
  M sc;
  for (int i = 0; i < 8; ++i) sc[i] = n / kEps;
  near8(c, "root*root == S", d8(R * R), toM(S), sc, (64 + 16 * ln) * kEps + sq);
}
