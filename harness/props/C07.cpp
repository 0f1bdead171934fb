// C07 magnitudes
#include "../gen.hpp"
char const *const kProperty = "C07";
char const *const kRule =
    "pick a type, generate an item (1e-140..1e140), compare magSq and magnitude with the long double sum of "
    "squares, and check invariance under -, reverse, oddverse, dirverse, dual, homogeneity, the triangle "
    "inequality and multiplicativity over versors; non-trivial = at least two nonzero components (one for "
    "single-component types)";
using namespace vt;
template <class T> static void one(Ctx &c, Gen &g) {
  T x = g.item<T>();
  c.show("x", [&] { return str(x); });
  M m = toM(x);
  LD want = ref::magSq(m);
  bool single = std::is_same_v<T, double> || std::is_same_v<T, g3::Scalar> || std::is_same_v<T, g3::TriVector>;
  c.nontriv = countNonzero(d8(x)) >= (single ? 1 : 2);
  c.label(Nm<T>::s);
  double q = g3::magSq(x), n = g3::magnitude(x);
  nearS(c, "magSq", q, want, 10 * kEps * want);
  nearS(c, "magnitude", n, std::sqrt(want), 8 * kEps * std::sqrt(want));
  c.check(n >= 0, "magnitude is negative");
  c.check((n == 0) == !anyNonzero(d8(x)), "magnitude zero iff item zero");
  double s = g.num();
  LD sm = std::fabs((LD)s) * std::sqrt(want);
  if (sm < 1e150L && (sm == 0 || sm > 1e-140L)) nearS(c, "magnitude(s*x)", g3::magnitude(s * x), sm, 12 * kEps * sm + 1e-170L);
  if constexpr (!std::is_same_v<T, double>) {
    nearS(c, "magSq(-x)", g3::magSq(-x), want, 10 * kEps * want);
    nearS(c, "magSq(reverse)", g3::magSq(reverse(x)), want, 10 * kEps * want);
    nearS(c, "magSq(oddverse)", g3::magSq(oddverse(x)), want, 10 * kEps * want);
    nearS(c, "magSq(dirverse)", g3::magSq(dirverse(x)), want, 10 * kEps * want);
    nearS(c, "magSq(dual)", g3::magSq(g3::dual(x)), want, 10 * kEps * want);
    nearS(c, "promoted magSq", g3::magSq(g3::MultiVector(x)), want, 12 * kEps * want);
    T y = g.chance(1, 3) ? g.related<T>(d8(x)) : g.item<T>();
    double ny = g3::magnitude(y);
    c.check(g3::magnitude(x + y) <= (n + ny) * (1 + 16 * kEps), "triangle inequality");
    // scalar part of x*reverse(x) is magSq
    auto xr = x * reverse(x);
    nearS(c, "scalar part of x*reverse(x)", d8(xr)[0], want, 24 * kEps * want);
    if constexpr (std::is_same_v<T, g3::Vector> || std::is_same_v<T, g3::Spinor> ||
                  std::is_same_v<T, g3::BiVector> || std::is_same_v<T, g3::Scalar> ||
                  std::is_same_v<T, g3::TriVector> || std::is_same_v<T, g3::ComPlex> ||
                  std::is_same_v<T, g3::ImSpin>) {
      LD p = std::sqrt(want) * std::sqrt(ref::magSq(toM(y)));
      if (p < 1e140L && (p == 0 || p > 1e-140L))
        nearS(c, "|x*y| == |x||y|", g3::magnitude(x * y), p, 64 * kEps * p + 1e-150L);
    }
  }
}
void property(Ctx &c) {
  Gen g(c, c.draw(4) == 3 ? Rng{-70, 70, -140, 140, true} : Rng{});
  size_t i = g.pick(10);
  withType(i, All10{}, [&](auto t) { one<typename decltype(t)::type>(c, g); });
}
