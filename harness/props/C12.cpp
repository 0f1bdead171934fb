// C12 exponential of a general multivector
#include "../gen.hpp"
char const *const kProperty = "C12";
char const *const kRule =
    "generate a multivector (generic, blade-only, null directed part, commuting part only, small, directed "
    "part up to magnitude 12, or a plane angle up to 1e5 (1e4 next to a vector); scalar part up to 300, trivector part up to 1e6), "
    "compare every component of exp with the long double scaled power series within a few rounding units of "
    "the terms that make it up, check exp(0), exp(A)exp(-A), exp(2A), agreement with exp of the "
    "bivector/spinor/complex special cases; non-trivial = nonzero directed part and at least three nonzero "
    "components, or a special subspace case";
using namespace vt;
typedef std::complex<ref::LD> CL;
// even series: sum w^k/(2k)! and sum w^k/(2k+1)!, by argument halving
static void evenSeries(CL w, CL &ch, CL &sh) {
  int k = 0;
  while (std::abs(w) > 0.25L) w *= 0.25L, ++k;
  ch = sh = 0;
  CL p = 1;
  ref::LD f = 1;
  for (int i = 0; i < 14; ++i) {
    ch += p / f, sh += p / (f * (2 * i + 1));
    p *= w, f *= (ref::LD)(2 * i + 1) * (2 * i + 2);
  }
  for (; k > 0; --k) {
    CL c2 = (ref::LD)1 + (ref::LD)2 * w * sh * sh; // cosh(2z) = 1 + 2 sinh(z)^2
    sh = sh * ch;                                  // sinh(2z)/(2z)
    ch = c2, w *= (ref::LD)4;
  }
}
void property(Ctx &c) {
  Gen g(c, Rng{-4, 1, -20, 1, true});
  D8 d = g.octet();
  size_t kind = g.pick(14);
  char const *lbl = "generic";
  switch (kind) {
  case 0: for (int i = 1; i < 7; ++i) d[i] = 0; lbl = "commuting only"; break;
  case 1: d[0] = d[7] = 0; lbl = "directed only"; break;
  case 2: for (int i : {1, 2, 3, 7}) d[i] = 0; lbl = "spinor"; break;
  case 3: for (int i : {0, 4, 5, 6, 7}) d[i] = 0; lbl = "vector"; break;
  case 4: { // null directed part: v perpendicular b, equal size
    double a = g.num(), b = g.num();
    size_t i = g.pick(3), j = (i + 1 + g.pick(2)) % 3;
    (void)b;
    for (int k = 1; k < 7; ++k) d[k] = 0;
    d[1 + i] = a, d[4 + j] = g.pick(2) ? a : -a;
    lbl = "null directed part";
    break;
  }
  case 5: for (double &x : d) x *= 1e-5; lbl = "small"; break;
  case 6: for (double &x : d) x *= 1e-9; lbl = "tiny"; break;
  case 7: { // directed square near the series/closed form switch
    double t = std::pow(10., -6 + 4 * g.unit());
    for (int k = 1; k < 7; ++k) d[k] = std::fabs(d[k]) > 0 ? std::copysign(t * (0.2 + g.unit()), d[k]) : 0;
    lbl = "small directed part";
    break;
  }
  case 8: // a tiny directed part or a tiny central part, in some components
    for (int k = 0; k < 8; ++k)
      if (g.pick(2)) d[k] *= g.mag(-18, -3);
    lbl = "uneven";
    break;
  default: break;
  }
  bool large = kind >= 12;
  LD n = ref::mag(toM(d));
  if (n > 12) {
    double f = (double)(12 * g.unit() / n);
    for (double &x : d) x *= f;
    n = ref::mag(toM(d));
  }
  if (large) { // size in the central part and in a plane angle
    if (g.pick(2)) d[0] = 300 * (2 * g.unit() - 1);
    if (g.pick(2)) d[7] = g.mag(-2, 6) * (g.pick(2) ? 1 : -1);
    lbl = "large central part";
    size_t how = g.pick(4);
    if (how == 3) { // a moderate vector next to a large plane angle, at any inclination
      double f = g.mag(0, 4) / (1e-9 + std::fabs(d[4]) + std::fabs(d[5]) + std::fabs(d[6]));
      for (int k = 4; k < 7; ++k) d[k] *= f;
      lbl = "vector and large plane angle";
    } else if (how) {
      double f = g.mag(0, 5) / (1e-9 + std::fabs(d[4]) + std::fabs(d[5]) + std::fabs(d[6]));
      for (int k = 1; k < 4; ++k) d[k] = 0, d[3 + k] *= f;
      lbl = "large plane angle";
    }
    n = ref::mag(toM(d));
  }
  for (double x : d) c.note(x);
  g3::MultiVector const A = fromD8<g3::MultiVector>(d);
  c.show("A", [&] { return str(A); });
  c.label(lbl);
  bool dir = false;
  for (int i = 1; i < 7; ++i) dir = dir || d[i] != 0;
  c.nontriv = (dir && countNonzero(d) >= 3) || kind <= 4;
  g3::MultiVector const r = g3::exp(A);
  if (c.verbose) c.showStr("exp", str(r));
  // exp(A) == exp(central) * exp(directed): the central part commutes with everything
  M cen, D = toM(A);
  D[0] = D[7] = 0;
  cen[0] = std::exp((LD)d[0]) * std::cos((LD)d[7]), cen[7] = std::exp((LD)d[0]) * std::sin((LD)d[7]);
  LD vn = std::sqrt((LD)d[1] * d[1] + (LD)d[2] * d[2] + (LD)d[3] * d[3]);
  LD bn = std::sqrt((LD)d[4] * d[4] + (LD)d[5] * d[5] + (LD)d[6] * d[6]);
  M eD;
  if (vn == 0) { // a plane angle: cosine and sine
    eD[0] = std::cos(bn);
    for (int i = 4; i < 7; ++i) eD[i] = bn > 0 ? std::sin(bn) / bn * d[i] : 0;
  } else if (bn > 50) { // too many doublings for the power series: its closed form, in long double
    M DD = D * D;
    CL z = std::sqrt(CL(DD[0], DD[7])), ch = std::cosh(z), sh = std::sinh(z) / z;
    M mc, ms;
    mc[0] = ch.real(), mc[7] = ch.imag(), ms[0] = sh.real(), ms[7] = sh.imag();
    eD = mc + ms * D;
  } else
    eD = ref::expM(D);
  M e = cen * eD;
  // the same with the structure kept: the square of the directed part is central
  M e2;
  {
    CL ch = eD[0], sh = bn > 0 ? std::sin(bn) / bn : 1;
    if (vn != 0) {
      M DD = D * D;
      CL w(DD[0], DD[7]);
      if (bn > 50) {
        CL z = std::sqrt(w);
        ch = std::cosh(z), sh = std::sinh(z) / z;
      } else
        evenSeries(w, ch, sh);
    }
    M mc, ms;
    mc[0] = ch.real(), mc[7] = ch.imag(), ms[0] = sh.real(), ms[7] = sh.imag();
    e2 = cen * mc + (cen * ms) * D;
  }
  LD en = ref::mag(e), dn = std::sqrt(vn * vn + bn * bn);
  LD sc = std::max(std::exp((LD)d[0]) * std::exp(vn), en);
  M s;
  for (int i = 0; i < 8; ++i) s[i] = sc * (1 + n) * (1 + dn) * (1 + dn);
  // the terms of each component: the central factors have parts 1 (real) and at most |a3|, and
  // 2 sum|v_i b_i| (imaginary), times growth and conditioning
  M fine;
  {
    LD grow = std::exp((LD)d[0]) * std::exp(vn) * (1 + dn) * (vn == 0 ? 1 : 1 + dn);
    LD t = std::fabs((LD)d[7]), w = 0;
    for (int i = 1; i < 4; ++i) w += 2 * std::fabs((LD)d[i] * d[i + 3]);
    // dividing sinh(z) by z leaves a rounding unit of the direction of z in the imaginary part
    M DD = D * D;
    LD w2 = std::hypot(DD[0], DD[7]);
    if (w2 < 1) w = w2 > w ? w / w2 : std::min(w, (LD)1) + (w > 0);
    LD t1 = std::min(t, (LD)1), k0 = 1 + t1 * w, k7 = w + t1;
    fine[0] = grow * k0, fine[7] = grow * k7;
    for (int i = 1; i < 4; ++i) {
      LD v = std::fabs((LD)d[i]), b = std::fabs((LD)d[i + 3]);
      fine[i] = grow * (k0 * v + k7 * b), fine[i + 3] = grow * (k0 * b + k7 * v);
    }
    for (int i = 0; i < 8; ++i) fine[i] += 1e-290L;
  }
  near8(c, "exp(A) vs power series", d8(r), e, s, 24);
  near8(c, "exp(A) vs exp(central)*(cosh + sinh/z D)", d8(r), e2, fine, 24);
  if (n == 0) exact8(c, "exp(0) == 1", d8(r), D8{1, 0, 0, 0, 0, 0, 0, 0});
  if (!large) {
  LD den = std::exp(-(LD)d[0]) * std::exp(vn);
  M s1;
  for (int i = 0; i < 8; ++i) s1[i] = sc * den * (1 + n) * (1 + dn) * (1 + dn);
  near8(c, "exp(A)*exp(-A)", d8(r * g3::exp(-A)), ref::scalar(1), s1, 160);
  }
  // doubling: exp(2A) == exp(A)^2
  if (n < 6 && !large) {
    M s2;
    for (int i = 0; i < 8; ++i) s2[i] = sc * sc * (1 + 2 * n) * (1 + 2 * dn) * (1 + 2 * dn);
    near8(c, "exp(2A) vs exp(A)*exp(A)", d8(g3::exp(2. * A)), toM(r * r), s2, 160);
  }
  if (kind == 2 || (vn == 0 && d[7] == 0)) {
    g3::Spinor const S{A.theSca, A.theBiv};
    near8(c, "exp(promoted spinor)", d8(r), toM(g3::exp(S)), s, 32);
  }
  if (kind == 0) {
    std::complex<double> z = std::exp(std::complex<double>(d[0], d[7]));
    M w;
    w[0] = z.real(), w[7] = z.imag();
    near8(c, "exp(commuting part) vs std::exp(complex)", d8(r), w, s, 16);
  }
}
