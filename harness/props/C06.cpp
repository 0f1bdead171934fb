// C06 dual
#include "../gen.hpp"
char const *const kProperty = "C06";
char const *const kRule =
    "pick a type, generate an item, compare dual(x) with reference e123*x exactly, with the library products "
    "e123*x and x*e123, dual(dual(x)) == -x, linearity, magnitude preservation and dual of products; "
    "non-trivial = at least two distinct nonzero component magnitudes (one for single-component types)";
using namespace vt;
template <class T> static void one(Ctx &c, Gen &g, bool wide) {
  T x = g.item<T>();
  c.show("x", [&] { return str(x); });
  D8 d = d8(x), want;
  M w = ref::dual(toM(x));
  for (int i = 0; i < 8; ++i) want[i] = (double)w[i];
  auto r = g3::dual(x);
  if (c.verbose) c.showStr("dual", str(r));
  int single = std::is_same_v<T, double> || std::is_same_v<T, g3::Scalar> || std::is_same_v<T, g3::TriVector>;
  double first = 0;
  bool two = false;
  for (double v : d)
    if (v != 0) {
      if (first == 0)
        first = std::fabs(v);
      else if (std::fabs(v) != first)
        two = true;
    }
  c.nontriv = single ? anyNonzero(d) : two;
  c.label(Nm<T>::s);
  exact8(c, "dual(x) vs e123*x (reference)", d8(r), want);
  exact8(c, "e123*x", d8(g3::e123 * x), want);
  exact8(c, "x*e123", d8(x * g3::e123), want);
  D8 minus;
  for (int i = 0; i < 8; ++i) minus[i] = -d[i];
  exact8(c, "dual(dual(x)) == -x", d8(g3::dual(g3::dual(x))), minus);
  double m0 = g3::magSq(x), m1 = g3::magSq(r);
  if (!wide) nearS(c, "magSq(dual(x)) == magSq(x)", m1, m0, 8 * kEps * m0);
  if constexpr (!std::is_same_v<T, double>) {
    T y = g.item<T>();
    exact8(c, "dual(x+y)", d8(g3::dual(x + y)), d8(g3::dual(x) + g3::dual(y)));
    exact8(c, "promoted dual", d8(g3::dual(g3::MultiVector(x))), want);
    if (!wide) near8(c, "dual(x*y) vs dual(x)*y", d8(g3::dual(x * y)), toM(g3::dual(x) * y),
          ref::absM(ref::dual(ref::absProd(toM(x), toM(y)))), 24);
  }
}
void property(Ctx &c) {
  // the dual itself is exact over the whole double range; squares and products need headroom
  static Rng const rgs[4] = {{}, {}, {-300, 300, -300, 300, true}, {-323, -300, -323, 300, true}};
  size_t k = c.draw(4);
  Gen g(c, rgs[k]);
  size_t i = g.pick(10);
  withType(i, All10{}, [&](auto t) { one<typename decltype(t)::type>(c, g, k >= 2); });
}
