// C11 exponential of bivectors and spinors
#include "../gen.hpp"
char const *const kProperty = "C11";
char const *const kRule =
    "generate a bivector (angle 1e-30..1e6, axis aligned, generic, multiples of pi/12 of a unit plane) or a "
    "spinor (log magnitude -300..300), compare exp with cos + plane*sin (times e^s) in long double and, for "
    "moderate arguments, with the power series in the reference algebra; unit magnitude, reversal, addition "
    "of coplanar angles, tau-periodicity; non-trivial = at least two nonzero bivector components, or a "
    "zero/near-multiple-of-pi angle";
using namespace vt;
void property(Ctx &c) {
  Gen g(c, Rng{-6, 3, -30, 6, true});
  std::array<double, 3> b;
  bool special = false;
  if (g.chance(1, 3)) {
    auto u = g.unitTriple();
    double a = ((int)g.pick(49) - 24) * (3.14159265358979323846 / 12.);
    if (g.pick(2)) a += (2 * g.unit() - 1) * std::pow(10., -(double)g.pick(16));
    for (int i = 0; i < 3; ++i) b[i] = a * u[i];
    special = true;
    for (double x : b) c.note(x);
  } else
    b = g.triple();
  g3::BiVector const B{b[0], b[1], b[2]};
  c.show("B", [&] { return str(B); });
  LD n = std::sqrt((LD)b[0] * b[0] + (LD)b[1] * b[1] + (LD)b[2] * b[2]);
  LD cs = std::cos(n), sn = std::sin(n);
  auto want = [&](LD scale) {
    M w;
    w[0] = scale * cs;
    for (int i = 0; i < 3; ++i) w[4 + i] = n == 0 ? 0 : scale * sn * b[i] / n;
    return w;
  };
  auto tol = [&](LD scale, LD kx) { // in units of eps
    M t;
    t[0] = scale * (kx + 6 + 4 * n * std::fabs(sn) + n * n * 0);
    for (int i = 0; i < 3; ++i) {
      LD di = n == 0 ? 0 : std::fabs(b[i] / n);
      t[4 + i] = scale * di * ((10 + kx) * std::fabs(sn) + 4 * n * std::fabs(cs)) +
                 scale * di * n * n * (LD)kEps * 8 + 1e-280L;
    }
    return t;
  };
  c.nontriv = countNonzero(d8(B)) >= 2 || special || n == 0;
  if (g.chance(1, 2)) {
    c.label("exp(BiVector)");
    g3::Spinor const r = g3::exp(B);
    if (c.verbose) c.showStr("exp", str(r));
    near8(c, "exp(B)", d8(r), want(1), tol(1, 0), 1);
    nearS(c, "|exp(B)|", g3::magnitude(r), 1, 8 * kEps);
    exact8(c, "exp(-B) == reverse(exp(B))", d8(g3::exp(-B)), d8(reverse(r)));
    near8(c, "exp(B)*exp(-B)", d8(r * g3::exp(-B)), ref::scalar(1), [] { M s; for (int i = 0; i < 8; ++i) s[i] = 1; return s; }(), 16);
    if (n == 0) exact8(c, "exp(0) == 1", d8(r), D8{1, 0, 0, 0, 0, 0, 0, 0});
    if (n < 8) {
      M e = ref::expM(toM(B));
      M s;
      for (int i = 0; i < 8; ++i) s[i] = 1 + n;
      near8(c, "exp(B) vs power series", d8(r), e, s, 12);
    }
    // coplanar angles add
    double t = g.num();
    if (std::fabs(t) < 100 && n < 1e4L) {
      g3::Spinor const p = g3::exp(t * B) * r;
      g3::Spinor const q = g3::exp((t + 1.) * B);
      M s;
      for (int i = 0; i < 8; ++i) s[i] = 1 + n * (std::fabs(t) + 1);
      near8(c, "exp(tB)*exp(B) vs exp((t+1)B)", d8(p), toM(q), s, 32);
    }
    // the spinor overload agrees
    near8(c, "exp(0+B)", d8(g3::exp(g3::Spinor{g3::Scalar{0.}, B})), want(1), tol(1, 0), 1);
  } else {
    c.label("exp(Spinor)");
    double s;
    switch (g.pick(4)) {
    case 0: s = (2 * g.unit() - 1) * 300; c.note(s); break;
    case 1: s = 0; break;
    default: s = g.num();
    }
    if (!(std::fabs(s) <= 300)) s = std::copysign(1., s);
    g3::Spinor const S{g3::Scalar{s}, B};
    c.show("S", [&] { return str(S); });
    LD es = std::exp((LD)s);
    g3::Spinor const r = g3::exp(S);
    if (c.verbose) c.showStr("exp", str(r));
    near8(c, "exp(S)", d8(r), want(es), tol(es, 4), 1);
    nearS(c, "|exp(S)|", g3::magnitude(r), es, 12 * kEps * es);
    if (std::fabs(s) < 100) {
      M sc;
      for (int i = 0; i < 8; ++i) sc[i] = 1;
      near8(c, "exp(S)*exp(-S)", d8(r * g3::exp(-S)), ref::scalar(1), sc, 24);
    }
  }
}
