// C13 logarithm of spinors
#include "../gen.hpp"
char const *const kProperty = "C13";
char const *const kRule =
    "generate a spinor by magnitude (1e-139..1e139), angle in [0,pi] (uniform, log-close to 0 and pi, right "
    "angles) and plane, or from raw components, compare logG2 with log|S| + angle*plane in long double "
    "(rotations within 1e-7 rad of identity/half turn may be snapped), exact half turns take the supplied "
    "plane (default e23), exp(logG2(S)) == S, zero gives null; non-trivial = nonzero bivector part, or an "
    "exact half turn, or zero";
using namespace vt;
void property(Ctx &c) {
  Gen g(c, Rng{-6, 6, -130, 130, true});
  g3::Spinor S;
  size_t kind = g.pick(8);
  if (kind <= 3) {
    auto u = g.unitTriple();
    double a;
    double const PI = 3.14159265358979323846;
    switch (g.pick(6)) {
    case 0: a = PI * std::pow(10., -12 * g.unit()); break;
    case 1: a = PI - PI * std::pow(10., -12 * g.unit()); break;
    case 2: a = PI / 12 * g.pick(13); break;
    case 3: a = PI / 2 + (2 * g.unit() - 1) * std::pow(10., -16 * g.unit()); break;
    default: a = PI * g.unit();
    }
    double m = kind == 0 ? 1. : kind == 1 ? g.mag(-139, 139) : g.mag(-3, 3);
    c.note(a), c.note(m);
    double s = std::sin(a), k = std::cos(a);
    S = g3::Spinor{g3::Scalar{m * k}, g3::BiVector{m * s * u[0], m * s * u[1], m * s * u[2]}};
  } else if (kind == 4) { // exact half turn or identity
    double s = g.nonzero();
    S = g3::Spinor{g3::Scalar{g.pick(3) ? -std::fabs(s) : std::fabs(s)}, g3::BiVector{0., 0., 0.}};
  } else
    S = g.item<g3::Spinor>();
  g3::BiVector plane = g3::e23;
  bool given = g.pick(2);
  if (given) {
    auto t = g.triple();
    plane = g3::BiVector{t[0], t[1], t[2]};
    LD pn = ref::mag(toM(plane));
    if (!(pn > 1e-60L)) plane = g3::BiVector{0., 0., 2.};
  }
  c.show("S", [&] { return str(S); });
  if (given) c.show("plane", [&] { return str(plane); });
  D8 d = d8(S);
  LD bn = std::sqrt((LD)d[4] * d[4] + (LD)d[5] * d[5] + (LD)d[6] * d[6]);
  LD n = ref::mag(toM(S));
  g3::Spinor const L = given ? g3::logG2(S, plane) : g3::logG2(S);
  if (c.verbose) c.showStr("log", str(L));
  if (n == 0) {
    c.nontriv = true;
    c.label("zero");
    c.check(!g3::isValid(L), "logarithm of zero is valid");
    return;
  }
  if (n < 1e-140L || n > 1e140L) {
    c.label("magnitude out of the compared range");
    return;
  }
  c.check(g3::isValid(L) , "logarithm of a nonzero spinor is not valid");
  LD ang = std::atan2(bn, (LD)d[0]), PIl = std::acos(-1.0L);
  LD ln = std::log(n);
  D8 l = d8(L);
  nearS(c, "scalar part == log|S|", l[0], ln, (6 + 4 * std::fabs(ln)) * kEps);
  M diff;
  for (int i = 1; i < 4; ++i)
    if (l[i] != 0) c.fail("vector part");
  LD const kSnap = 1e-7L;
  bool ok = false;
  auto closeTo = [&](std::array<LD, 3> const &w, LD rel, LD abs) {
    for (int i = 0; i < 3; ++i)
      if (!(std::fabs((LD)l[4 + i] - w[i]) <= rel * std::fabs(w[i]) + abs)) return false;
    return true;
  };
  LD pm = ref::mag(toM(plane));
  std::array<LD, 3> half{PIl * plane[0] / pm, PIl * plane[1] / pm, PIl * plane[2] / pm};
  std::array<LD, 3> gen{0, 0, 0};
  if (bn > 0)
    for (int i = 0; i < 3; ++i) gen[i] = ang * d[4 + i] / bn;
  if (bn == 0 && d[0] < 0) {
    c.nontriv = true;
    c.label("exact half turn");
    ok = closeTo(half, 16 * kEps, 1e-290L);
  } else if (bn == 0) {
    c.label("no rotation");
    ok = l[4] == 0 && l[5] == 0 && l[6] == 0;
  } else {
    c.nontriv = true;
    if (ang < kSnap) {
      c.label("near identity");
      ok = closeTo(gen, 0, 4e-8L);
      if (ok && ang > 4e-8L) ok = closeTo(gen, 32 * kEps, 1e-290L);
    } else if (PIl - ang < kSnap) {
      c.label("near half turn");
      ok = closeTo(gen, 32 * kEps, 1e-290L) ||
           (PIl - ang < 4e-8L && closeTo(half, 16 * kEps, 1e-290L));
    } else {
      c.label("general rotation");
      ok = closeTo(gen, 24 * kEps, 1e-290L);
    }
  }
  c.checkf(ok, [&] {
    return "logG2 bivector part " + str(L) + " for angle " + num17((double)ang) + " expected [" +
           num17((double)gen[0]) + "," + num17((double)gen[1]) + "," + num17((double)gen[2]) + "]";
  });
  // exp inverts log
  g3::Spinor const E = g3::exp(L);
  LD tol = 64 * kEps * (1 + std::fabs(ln));
  if (bn > 0 && (ang < kSnap || PIl - ang < kSnap)) tol += 4e-8L;
  M sc;
  for (int i = 0; i < 8; ++i) sc[i] = n / kEps;
  near8(c, "exp(logG2(S)) == S", d8(E), toM(S), sc, tol);
}
