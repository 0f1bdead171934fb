// C09 amplitudes
#include "../gen.hpp"
char const *const kProperty = "C09";
char const *const kRule =
    "pick a type, generate an item, compare ampSq with grades 0 and 3 of the reference x*dirverse(x) (and "
    "the other grades of that product with zero), with the promoted item's, check amplitude is the root with "
    "non-negative scalar part whose square is ampSq, and ampSq(x*y) == ampSq(x)*ampSq(y); non-trivial = "
    "at least two nonzero components (one for single-component types)";
using namespace vt;
template <class T> static void one(Ctx &c, Gen &g) {
  T x = g.item<T>();
  c.show("x", [&] { return str(x); });
  M m = toM(x);
  M want = m * ref::dirverse(m), sc = ref::absProd(m, m);
  M w03;
  w03[0] = want[0], w03[7] = want[7];
  bool single = std::is_same_v<T, g3::Scalar> || std::is_same_v<T, g3::TriVector>;
  c.nontriv = countNonzero(d8(x)) >= (single ? 1 : 2);
  c.label(Nm<T>::s);
  g3::ComPlex const q = g3::ampSq(x);
  if (c.verbose) c.showStr("ampSq", str(q));
  near8(c, "ampSq", d8(q), w03, sc, 12);
  near8(c, "promoted ampSq", d8(g3::ampSq(g3::MultiVector(x))), w03, sc, 12);
  near8(c, "x*dirverse(x)", d8(x * dirverse(x)), w03, sc, 16);
  near8(c, "dirverse(x)*x", d8(dirverse(x) * x), w03, sc, 16);
  g3::ComPlex const a = g3::amplitude(x);
  if (c.verbose) c.showStr("amplitude", str(a));
  D8 da = d8(a), dq = d8(q);
  LD zr = dq[0], zi = dq[7], za = std::hypot(zr, zi);
  LD sr = (LD)da[0] * da[0] - (LD)da[7] * da[7], si = 2 * (LD)da[0] * da[7];
  nearS(c, "amplitude squared, scalar part", (double)sr, zr, 24 * kEps * za + 1e-290L);
  nearS(c, "amplitude squared, trivector part", (double)si, zi, 24 * kEps * za + 1e-290L);
  c.check(da[0] >= 0, "amplitude is not the principal root (negative scalar part)");
  if constexpr (std::is_same_v<T, g3::Scalar> || std::is_same_v<T, g3::BiVector> ||
                std::is_same_v<T, g3::Spinor>) {
    LD n = ref::mag(m);
    nearS(c, "amplitude == magnitude", da[0], n, 12 * kEps * n);
    c.check(std::fabs(da[7]) == 0, "amplitude of a real-amplitude item has a trivector part");
  }
  if constexpr (std::is_same_v<T, g3::Vector> || std::is_same_v<T, g3::TriVector> ||
                std::is_same_v<T, g3::ImSpin>) {
    LD n = ref::mag(m);
    nearS(c, "|amplitude| == magnitude", std::fabs(da[7]), n, 12 * kEps * n);
    c.check(std::fabs(da[0]) == 0, "amplitude of an imaginary-amplitude item has a scalar part");
  }
  T y = g.chance(1, 4) ? g.related<T>(d8(x)) : g.item<T>();
  auto xy = x * y;
  g3::ComPlex l = g3::ampSq(xy);
  g3::ComPlex r = q * g3::ampSq(y);
  LD mx = ref::magSq(m) * ref::magSq(toM(y));
  M s2;
  for (int i = 0; i < 8; ++i) s2[i] = 4 * mx;
  near8(c, "ampSq(x*y) vs ampSq(x)*ampSq(y)", d8(l), toM(r), s2, 64);
}
void property(Ctx &c) {
  Gen g(c);
  size_t i = g.pick(9);
  withType(i, All9{}, [&](auto t) { one<typename decltype(t)::type>(c, g); });
}
