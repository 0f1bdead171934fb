// C26 constants, neutral elements, squares and cubes
#include "../gen.hpp"
char const *const kProperty = "C26";
char const *const kRule =
    "generate an item, check one*x == x*one == x (double, Scalar, Spinor, ComPlex, MultiVector units), zero*x == 0, "
    "sq and cube against reference products, the multiplication table of the basis constants used as factors, "
    "the turn/pi constants as angles, and that the item is its sum of components times basis constants; "
    "non-trivial = nonzero item with >= 2 components (single-component types: nonzero)";
using namespace vt;
// a program's own constants, made from the library's before main starts
static D8 const kEarly[8] = {d8(g3::e0), d8(g3::e1), d8(g3::e2), d8(g3::e3), d8(g3::e23), d8(g3::e31), d8(g3::e12), d8(g3::e123)};
static D8 const kEarlyProd = d8(g3::e1 * g3::e23);
static double const kEarlyTurn = g3::turnFull + g3::piHalf;
template <class T> static void one(Ctx &c, Gen &g) {
  T const x = g.item<T>();
  c.show("x", [&] { return str(x); });
  D8 d = d8(x);
  M m = toM(x);
  bool single = std::is_same_v<T, g3::Scalar> || std::is_same_v<T, g3::TriVector>;
  c.nontriv = countNonzero(d) >= (single ? 1 : 2);
  c.label(Nm<T>::s);
  exact8(c, "1.*x", d8(1. * x), d);
  exact8(c, "x*1.", d8(x * 1.), d);
  exact8(c, "e0*x", d8(g3::e0 * x), d);
  exact8(c, "x*e0", d8(x * g3::e0), d);
  exact8(c, "one<Scalar>*x", d8(g3::one<g3::Scalar>() * x), d);
  exact8(c, "one<Spinor>*x", d8(g3::one<g3::Spinor>() * x), d);
  exact8(c, "x*one<Spinor>", d8(x * g3::one<g3::Spinor>()), d);
  exact8(c, "one<ComPlex>*x", d8(g3::one<g3::ComPlex>() * x), d);
  exact8(c, "x*one<ComPlex>", d8(x * g3::one<g3::ComPlex>()), d);
  exact8(c, "one<MultiVector>*x", d8(g3::one<g3::MultiVector>() * x), d);
  exact8(c, "x*one<MultiVector>", d8(x * g3::one<g3::MultiVector>()), d);
  D8 z{};
  exact8(c, "0.*x", d8(0. * x), z);
  exact8(c, "zero<Scalar>*x", d8(g3::zero<g3::Scalar>() * x), z);
  exact8(c, "zero<T>*x", d8(g3::zero<T>() * x), z);
  exact8(c, "x*zero<MultiVector>", d8(x * g3::zero<g3::MultiVector>()), z);
  // products with the basis constants move components exactly
  struct B {
    char const *n;
    D8 d;
  };
  size_t k = g.pick(8);
  M bm;
  bm[(int)k] = 1;
  auto with = [&](auto const &bas, char const *nm) {
    D8 unit{};
    unit[k] = 1;
    exact8(c, nm, d8(bas), unit);
    exact8(c, nm, kEarly[k], unit);
    M l = bm * m, r = m * bm;
    D8 dl, dr;
    for (int i = 0; i < 8; ++i) dl[i] = (double)l[i], dr[i] = (double)r[i];
    exact8(c, "basis*x", d8(bas * x), dl);
    exact8(c, "x*basis", d8(x * bas), dr);
  };
  switch (k) {
  case 0: with(g3::e0, "e0"); break;
  case 1: with(g3::e1, "e1"); break;
  case 2: with(g3::e2, "e2"); break;
  case 3: with(g3::e3, "e3"); break;
  case 4: with(g3::e23, "e23"); break;
  case 5: with(g3::e31, "e31"); break;
  case 6: with(g3::e12, "e12"); break;
  default: with(g3::e123, "e123");
  }
  if constexpr (std::is_same_v<T, g3::Scalar> || std::is_same_v<T, g3::Spinor> ||
                std::is_same_v<T, g3::ComPlex> || std::is_same_v<T, g3::MultiVector>) {
    M a2 = ref::absProd(m, m);
    near8(c, "sq", d8(g3::sq(x)), m * m, a2, 16);
    near8(c, "cube", d8(g3::cube(x)), m * m * m, ref::absProd(a2, ref::absM(m)), 48);
  }
}
void property(Ctx &c) {
  Gen g(c);
  size_t i = g.pick(10);
  if (i == 0) {
    double x = g.num(), y = g.num();
    c.show("x,y", [&] { return num17(x) + "," + num17(y); });
    c.nontriv = x != 0;
    c.label("double and angles");
    nearS(c, "sq(double)", g3::sq(x), (LD)x * x, kEps * (LD)x * x);
    nearS(c, "cube(double)", g3::cube(x), (LD)x * x * x, 2 * kEps * std::fabs((LD)x * x * x));
    LD p = std::acos(-1.0L);
    auto at = [&](char const *n, double v, LD w) { nearS(c, n, v * y, w * y, kEps * std::fabs(w * y)); };
    at("pi", g3::pi, p), at("piHalf", g3::piHalf, p / 2), at("piQtr", g3::piQtr, p / 4);
    at("turnFull", g3::turnFull, 2 * p), at("turnHalf", g3::turnHalf, p), at("turnQtr", g3::turnQtr, p / 2);
    c.check(std::isnan(g3::nan), "nan");
    exact8(c, "e1*e23 before main", kEarlyProd, D8{0, 0, 0, 0, 0, 0, 0, 1});
    nearS(c, "turnFull+piHalf before main", kEarlyTurn, 2.5L * p, 8 * kEps);
    // turning by whole/half/quarter turns in a generated plane
    auto u = g.unitTriple();
    g3::BiVector const P{u[0], u[1], u[2]};
    if (std::fabs(g3::magnitude(P) - 1) < 1e-9) {
      double tol = 64;
      M s;
      for (int j = 0; j < 8; ++j) s[j] = 1;
      M un = toM(P);
      LD pm = ref::mag(un);
      (void)pm;
      near8(c, "exp(turnFull*P)", d8(g3::exp(g3::turnFull * P)), ref::scalar(1), s, tol + (LD)20 * std::fabs(pm - 1) / kEps);
      near8(c, "exp(turnHalf*P)", d8(g3::exp(g3::turnHalf * P)), ref::scalar(-1), s, tol + (LD)20 * std::fabs(pm - 1) / kEps);
      near8(c, "exp(turnQtr*P)", d8(g3::exp(g3::turnQtr * P)), un, s, tol + (LD)20 * std::fabs(pm - 1) / kEps);
    }
    return;
  }
  withType(i - 1, All9{}, [&](auto t) { one<typename decltype(t)::type>(c, g); });
}
