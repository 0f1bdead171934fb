// C08 magnitude/direction split
#include "../gen.hpp"
char const *const kProperty = "C08";
char const *const kRule =
    "pick a type, generate an item (1e-140..1e140 or zero), check the magnitude/direction pair: first is the "
    "magnitude, second has unit magnitude and equals item/magnitude per component, same for direction(); "
    "scaling by s only changes the sign; zero items give magnitude 0 and a null direction; non-trivial = "
    "nonzero item with at least two nonzero components (one for single-component types) or a zero item";
using namespace vt;
template <class T> static void one(Ctx &c, Gen &g) {
  T x = g.item<T>();
  if (g.chance(1, 16)) x = g3::zero<T>();
  c.show("x", [&] { return str(x); });
  M m = toM(x);
  LD n = ref::mag(m);
  D8 d = d8(x);
  bool single = std::is_same_v<T, g3::Scalar> || std::is_same_v<T, g3::TriVector>;
  std::pair<double, T> const p = g3::pairMagDirFrom(x);
  T const q = g3::direction(x);
  if (!anyNonzero(d)) {
    c.nontriv = true;
    c.label("zero item");
    c.check(p.first == 0, "magnitude of zero is not zero");
    c.check(!g3::isValid(p.second), "direction of a zero item (pair) is not null");
    c.check(!g3::isValid(q), "direction of a zero item is not null");
    return;
  }
  c.nontriv = single || countNonzero(d) >= 2;
  c.label(Nm<T>::s);
  nearS(c, "pair.first", p.first, n, 8 * kEps * n);
  D8 a = d8(p.second), b = d8(q);
  for (int i = 0; i < 8; ++i) {
    LD w = (LD)d[i] / n, lim = 10 * kEps * std::fabs(w) + 1e-300L;
    nearS(c, "pair.second component", a[i], w, lim);
    nearS(c, "direction component", b[i], w, lim);
  }
  nearS(c, "|direction|", g3::magnitude(q), 1, 12 * kEps);
  near8(c, "mag*dir == item", d8(p.first * p.second), m, ref::absM(m) + ref::scalar(0), 20);
  double s = g.nonzero();
  LD sn = std::fabs((LD)s) * n;
  if (sn > 1e-140L && sn < 1e140L) {
    D8 e = d8(g3::direction(s * x));
    for (int i = 0; i < 8; ++i) {
      LD w = (s < 0 ? -1 : 1) * (LD)d[i] / n;
      nearS(c, "direction(s*x)", e[i], w, 16 * kEps * std::fabs(w) + 1e-150L);
    }
  }
}
void property(Ctx &c) {
  Gen g(c, c.draw(4) == 3 ? Rng{-140, 140, -140, 140, true} : Rng{});
  size_t i = g.pick(9);
  withType(i, All9{}, [&](auto t) { one<typename decltype(t)::type>(c, g); });
}
