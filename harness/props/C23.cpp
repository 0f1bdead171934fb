// C23 ComPlex <-> std::complex
#include "../gen.hpp"
char const *const kProperty = "C23";
char const *const kRule =
    "generate complex numbers (related pairs included), convert both ways bit-exactly, and compare +, -, *, "
    "inverse, squared magnitude, amplitude, reversal as conjugation and mixed expressions with std::complex "
    "and a long double formula; non-trivial = both real and imaginary parts nonzero";
using namespace vt;
typedef std::complex<double> Z;
typedef std::complex<long double> ZL;
void property(Ctx &c) {
  Gen g(c, c.draw(3) == 2 ? Rng{-60, 60, -60, 60, true} : Rng{});
  double ar = g.num(), ai = g.num(), br = g.num(), bi = g.num();
  switch (g.pick(6)) {
  case 0: br = ar, bi = -ai; break;
  case 1: br = -ai, bi = ar; break;
  case 2: ai = 0; break;
  case 3: ar = 0; break;
  }
  c.show("a,b", [&] { return num17(ar) + "," + num17(ai) + " " + num17(br) + "," + num17(bi); });
  for (double x : {ar, ai, br, bi}) c.note(x);
  c.nontriv = ar != 0 && ai != 0 && br != 0 && bi != 0;
  Z za(ar, ai), zb(br, bi);
  g3::ComPlex a = g3::ComPlex::from(za), b = g3::ComPlex::from(zb);
  c.check(bitsOf(a.theSca[0]) == bitsOf(ar) && bitsOf(a.theTri[0]) == bitsOf(ai), "ComPlex::from");
  Z back = a;
  c.check(bitsOf(back.real()) == bitsOf(ar) && bitsOf(back.imag()) == bitsOf(ai), "conversion to std::complex");
  c.check(Z(g3::ComPlex::from(back)) == za, "round trip");
  auto near = [&](char const *what, g3::ComPlex const &got, ZL want, LD scale, LD k) {
    nearS(c, what, got.theSca[0], want.real(), k * kEps * scale);
    nearS(c, what, got.theTri[0], want.imag(), k * kEps * scale);
  };
  ZL la(ar, ai), lb(br, bi);
  LD na = std::abs(la), nb = std::abs(lb);
  near("a+b", a + b, la + lb, na + nb, 1);
  near("a-b", a - b, la - lb, na + nb, 1);
  near("a*b", a * b, la * lb, na * nb, 4);
  exact8(c, "a*b commutes", d8(a * b), d8(b * a));
  near("-a", -a, -la, na, 0);
  near("reverse(a) is the conjugate", g3::reverse(a), std::conj(la), na, 0);
  nearS(c, "magSq", g3::magSq(a), std::norm(la), 8 * kEps * std::norm(la));
  nearS(c, "magnitude", g3::magnitude(a), na, 8 * kEps * na);
  double s = g.num();
  near("s*a", s * a, (LD)s * la, std::fabs((LD)s) * na, 1);
  near("a*s", a * s, (LD)s * la, std::fabs((LD)s) * na, 1);
  near("Scalar*a", g3::Scalar{s} * a, (LD)s * la, std::fabs((LD)s) * na, 1);
  near("TriVector*a", g3::TriVector{s} * a, ZL(0, s) * la, std::fabs((LD)s) * na, 1);
  near("dual is multiplication by i", g3::dual(a), ZL(0, 1) * la, na, 0);
  near("ampSq", g3::ampSq(a), la * la, na * na, 8);
  near("sq", g3::sq(a), la * la, na * na, 8);
  near("cube", g3::cube(a), la * la * la, na * na * na, 16);
  if (na > 1e-70L) {
    near("inverse", g3::inverse<g3::ComPlex>(a), 1.0L / la, 1 / na, 16);
    near("a*inverse(a)", a * g3::inverse<g3::ComPlex>(a), 1.0L, 1, 32);
    if (nb > 1e-70L) near("b/a by inverse", b * g3::inverse<g3::ComPlex>(a), lb / la, nb / na, 32);
  }
  // amplitude of a complex is itself up to the principal sign
  g3::ComPlex r = g3::amplitude(a);
  LD sg = ((LD)r.theSca[0] * ar + (LD)r.theTri[0] * ai) < 0 ? -1 : 1;
  near("amplitude", r, sg * la, na, 32);
  c.check(r.theSca[0] >= 0, "amplitude principal");
  // embedded in the whole algebra
  g3::MultiVector const ma(a), mb(b);
  near8(c, "promoted product", d8(ma * mb), toM(a * b), ref::absProd(toM(a), toM(b)), 16);
  g3::MultiVector const x = g.item<g3::MultiVector>();
  near8(c, "a commutes with any multivector", d8(a * x), toM(x * a), ref::absProd(toM(a), toM(x)), 24);
  if (std::fabs(ar) < 100 && std::fabs(ai) < 1e4) {
    ZL e = std::exp(la);
    g3::MultiVector const em = g3::exp(ma);
    nearS(c, "exp scalar part", em[0], e.real(), 16 * kEps * (1 + na) * std::abs(e));
    nearS(c, "exp trivector part", em[7], e.imag(), 16 * kEps * (1 + na) * std::abs(e));
  }
}
