// C16 validity, null, zero and unit instances
#include "../gen.hpp"
char const *const kProperty = "C16";
char const *const kRule =
    "pick a type, fill every component with a draw from {normal, zero, -0, subnormal, inf, -inf, nan, largest, "
    "smallest normal}, isValid must be true exactly when every component is zero or a normal number; null<T> "
    "is invalid in every component and grade, zero<T> all zeros, one<T> has unit scalar grade and nothing else; "
    "non-trivial = a case with exactly one invalid component, or all valid with a nonzero";
using namespace vt;
static double special(Gen &g) {
  static double const lim[] = {0., -0., 1., -1.,
                               std::numeric_limits<double>::min(), -std::numeric_limits<double>::min(),
                               std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(),
                               std::numeric_limits<double>::denorm_min(), -std::numeric_limits<double>::denorm_min(),
                               INFINITY, -INFINITY, NAN, -NAN};
  switch (g.pick(4)) {
  case 0: return lim[g.pick(sizeof lim / sizeof *lim)];
  case 1: {
    double s = std::ldexp(1 + g.unit(), -1023 - (int)g.pick(50)); // subnormal (or zero)
    return g.pick(2) ? s : -s;
  }
  case 2: return g.pick(2) ? NAN : (g.pick(2) ? INFINITY : -INFINITY);
  default: return g.num();
  }
}
static bool okNum(double x) { return x == 0 || std::fpclassify(x) == FP_NORMAL; }
template <class T> static void one(Ctx &c, Gen &g) {
  D8 d{};
  std::vector<int> idx;
  for (int i = 0; i < 8; ++i)
    if (Has<T>::g[ref::kGrade[i]]) idx.push_back(i);
  for (int i : idx) d[i] = g.num();
  switch (g.pick(4)) {
  case 0: break; // all valid
  case 1:
  case 2: d[idx[g.pick(idx.size())]] = special(g); break; // exactly one candidate
  default:
    for (int i : idx) d[i] = special(g);
  }
  int bad = 0;
  for (int i : idx) bad += !okNum(d[i]);
  for (int i : idx) c.note(d[i]);
  T const x = fromD8<T>(d);
  c.show("x", [&] { return str(x); });
  c.nontriv = bad == 1 || (bad == 0 && anyNonzero(d));
  c.label(std::string(Nm<T>::s) + (bad == 0 ? " valid" : bad == 1 ? " one bad" : " several bad"));
  c.checkf(g3::isValid(x) == (bad == 0), [&] {
    return std::string("isValid(") + str(x) + ") is " + (bad == 0 ? "false" : "true");
  });
  if constexpr (!std::is_same_v<T, double>) {
    // promotion and grade selection agree
    g3::MultiVector const m(x);
    c.check(g3::isValid(m) == (bad == 0), "validity changes by promotion to MultiVector");
    c.check(g3::isValid(m) == (g3::isValid(m.theSca) && g3::isValid(m.theVec) && g3::isValid(m.theBiv) &&
                               g3::isValid(m.theTri)),
            "validity of a multivector is not that of all its grades");
    // all-components array form
    std::array<double, 3> a{d[idx[0]], d[idx[idx.size() / 2]], d[idx.back()]};
    c.check(g3::isValid(a) == (okNum(a[0]) && okNum(a[1]) && okNum(a[2])), "isValid(array)");
    std::array<double, 8> const all = d8(m);
    c.check(g3::isValid(all) == (bad == 0), "isValid(array of 8)");
    std::array<double, 2> const two{d[idx[0]], d[idx.back()]};
    c.check(g3::isValid(two) == (okNum(two[0]) && okNum(two[1])), "isValid(array of 2)");
  }
  // named instances
  D8 nl = d8(g3::null<T>()), zr = d8(g3::zero<T>()), on = d8(g3::one<T>());
  for (int i : idx) {
    c.check(std::isnan(nl[i]), "null<T> has a component that is not null");
    c.check(zr[i] == 0, "zero<T> has a nonzero component");
  }
  c.check(!g3::isValid(g3::null<T>()), "null<T> is valid");
  c.check(g3::isValid(g3::zero<T>()), "zero<T> is not valid");
  c.check(g3::isValid(g3::one<T>()), "one<T> is not valid");
  if constexpr (!std::is_same_v<T, g3::TriVector>)
    for (int i : idx) c.check(on[i] == (i == 0 ? 1. : 0.), "one<T> is not the unit value");
}
void property(Ctx &c) {
  Gen g(c, Rng{-300, 300, -300, 300, true});
  size_t i = g.pick(10);
  withType(i, All10{}, [&](auto t) { one<typename decltype(t)::type>(c, g); });
}
