// C27 null propagation
#include "addsub.hpp"
char const *const kProperty = "C27";
char const *const kRule =
    "generate an item in which one or more components are NaN (all, for the null pattern) and a valid partner, "
    "apply every applicable operation: the result must be invalid, and comparisons false; with both operands "
    "valid and moderate the result must be valid; non-trivial = only some components are null, or the null is "
    "the second operand";
using namespace vt;
template <class T> static T nullish(Ctx &c, Gen &g, bool &partial) {
  T x = g.item<T>();
  D8 d = d8(x);
  std::vector<int> idx;
  for (int i = 0; i < 8; ++i)
    if (Has<T>::g[ref::kGrade[i]]) idx.push_back(i);
  partial = false;
  if (g.pick(3) == 0)
    x = g3::null<T>();
  else {
    size_t n = 0;
    d[idx[g.pick(idx.size())]] = NAN, ++n;
    if (g.pick(2)) d[idx[g.pick(idx.size())]] = NAN;
    x = fromD8<T>(d);
    int bad = 0;
    for (int i : idx) bad += std::isnan(d[i]) ? 1 : 0;
    partial = bad < (int)idx.size();
  }
  for (double v : d8(x)) c.note(v);
  c.show("null item", [&] { return str(x); });
  return x;
}
// a null swallows any partner, not only a valid moderate one
template <class T> static T extreme(Ctx &c, Gen &g) {
  T x = g.item<T>();
  if (g.pick(4)) return x;
  static double const ext[] = {INFINITY, -INFINITY, 1e300, -1.7e308, 4e-320, 0., -0., NAN, 2.3e-308};
  D8 d = d8(x);
  for (int i = 0; i < 8; ++i)
    if (Has<T>::g[ref::kGrade[i]] && g.pick(2)) d[i] = ext[g.pick(9)];
  x = fromD8<T>(d);
  for (double v : d8(x)) c.note(v);
  c.label("extreme partner");
  return x;
}
template <class T> static bool bad(T const &x) { return !g3::isValid(x); }

template <class A, class B> static void binary(Ctx &c, Gen &g) {
  bool part;
  A a = nullish<A>(c, g, part);
  B b = extreme<B>(c, g);
  c.show("partner", [&] { return str(b); });
  c.label("product/sum");
  bool second = g.pick(2);
  c.nontriv = part || second;
  if (second)
    c.check(bad(b * a), "valid * null is valid");
  else
    c.check(bad(a * b), "null * valid is valid");
  c.check(bad(g3::MultiVector(a) + g3::MultiVector(b)), "null + valid is valid");
  c.check(bad(g3::MultiVector(b) - g3::MultiVector(a)), "valid - null is valid");
  if constexpr (addable<A, B>())
    c.check(bad(a + b) && bad(b + a) && bad(a - b) && bad(b - a), "null +- valid (own sum of the two types) is valid");
  if (g.pick(4) == 0) { // nulls on both sides
    bool part2;
    B n = nullish<B>(c, g, part2);
    c.check(bad(a * n) && bad(n * a), "null * null is valid");
    if constexpr (addable<A, B>()) c.check(bad(a + n) && bad(n - a), "null +- null is valid");
  }
  // both valid
  A a2 = g.template item<A>();
  b = g.template item<B>();
  c.check(!bad(a2 * b) || ref::maxAbs(ref::absProd(toM(a2), toM(b))) > 1e100L, "valid * valid is not valid");
}
template <class T> static void unary(Ctx &c, Gen &g) {
  bool part;
  T x = nullish<T>(c, g, part);
  T y = g.item<T>(), w = extreme<T>(c, g);
  c.show("partner", [&] { return str(w); });
  c.nontriv = part;
  c.label(std::string("unary ") + Nm<T>::s);
  c.check(bad(x), "item with a null component is valid");
  c.check(bad(-x), "-null");
  c.check(bad(reverse(x)), "reverse(null)");
  c.check(bad(oddverse(x)), "oddverse(null)");
  c.check(bad(dirverse(x)), "dirverse(null)");
  c.check(bad(g3::dual(x)), "dual(null)");
  c.check(bad(x + y) && bad(y + x), "null + valid (same type)");
  c.check(bad(x - y) && bad(y - x), "null - valid (same type)");
  c.check(bad(x + w) && bad(w + x) && bad(x - w) && bad(w - x) && bad(x * w) && bad(w * x), "null with any item");
  c.check(!g3::nearlyEquals(x, w) && !g3::nearlyEquals(w, x, 1e9), "a null item compares nearly equal to an extreme one");
  c.check(bad(x + x) && bad(x - x) && bad(x * x), "null with itself");
  c.check(bad(x * (T)g3::zero<T>()) && bad(g3::zero<T>() * x), "null * zero");
  c.check(bad(g3::magSq(x)), "magSq(null)");
  c.check(bad(g3::magnitude(x)), "magnitude(null)");
  c.check(bad(g3::direction(x)), "direction(null)");
  c.check(bad(g3::pairMagDirFrom(x).first) && bad(g3::pairMagDirFrom(x).second), "pairMagDirFrom(null)");
  if (x[0] != x[0] || !part) c.label("first component null");
  g3::ComPlex q = g3::ampSq(x);
  c.check(bad(q), "ampSq(null)");
  c.check(bad(g3::amplitude(x)), "amplitude(null)");
  double s = g.num();
  if (g.pick(8) == 0) { static double const ext[] = {INFINITY, -INFINITY, 1e300, 4e-320, 0., -0., NAN}; s = ext[g.pick(7)], c.note(s); }
  c.check(bad(s * x) && bad(x * s), "double * null");
  c.check(bad(g3::nan * y) && bad(y * g3::nan), "nan * valid");
  c.check(!g3::nearlyEquals(x, y) && !g3::nearlyEquals(y, x) && !g3::nearlyEquals(x, x) &&
              !g3::nearlyEquals(x, y, 1e9) && !g3::nearlyEquals(y, x, 1e9) && !g3::nearlyEquals(x, x, 1e9),
          "a null item compares nearly equal");
  // all functions keep valid things valid
  c.check(!bad(-y) && !bad(reverse(y)) && !bad(oddverse(y)) && !bad(dirverse(y)) && !bad(g3::dual(y)), "valid -> invalid");
  if constexpr (std::is_same_v<T, g3::Scalar> || std::is_same_v<T, g3::Vector> ||
                std::is_same_v<T, g3::BiVector> || std::is_same_v<T, g3::TriVector>)
    c.check(bad(g3::inverse(x)), "inverse(null blade)");
  if constexpr (std::is_same_v<T, g3::ComPlex>) {
    c.check(bad(g3::inverse<g3::ComPlex>(x)), "inverse(null ComPlex)");
    c.check(bad(g3::sq(x)) && bad(g3::cube(x)), "sq/cube(null)");
  }
  if constexpr (std::is_same_v<T, g3::MultiVector>) {
    c.check(bad(g3::inverse<g3::MultiVector>(x)), "inverse(null MultiVector)");
    c.check(bad(g3::exp(x)), "exp(null MultiVector)");
    c.check(bad(g3::sq(x)) && bad(g3::cube(x)), "sq/cube(null)");
  }
  if constexpr (std::is_same_v<T, g3::BiVector>) {
    c.check(bad(g3::exp(x)), "exp(null BiVector)");
    g3::Spinor const e = g3::exp(x);
    c.check(bad(e.theSca) && bad(e.theBiv), "exp(null BiVector) is null in both grades");
    // the plane matters for a half turn
    double const h = -g.positive();
    g3::Spinor const half{h, g3::zero<g3::BiVector>()};
    c.check(bad(g3::logG2(half, x)) && bad(g3::sqrtG2(half, x)), "log/root of a half turn in a null plane is valid");
    c.check(!bad(g3::logG2(half)) && !bad(g3::sqrtG2(half)), "log/root of a half turn (default plane) is not valid");
  }
  if constexpr (std::is_same_v<T, g3::Spinor>) {
    c.check(bad(g3::exp(x)), "exp(null Spinor)");
    c.check(bad(g3::logG2(x)), "logG2(null)");
    c.check(bad(g3::sqrtG2(x)), "sqrtG2(null)");
    c.check(bad(g3::logG2(x, g3::e31)) && bad(g3::sqrtG2(x, g3::e31)), "logG2/sqrtG2(null, plane)");
    c.check(bad(g3::sq(x)) && bad(g3::cube(x)), "sq/cube(null)");
  }
}
void property(Ctx &c) {
  Gen g(c, Rng{-3, 3, -9, 9, true});
  if (g.pick(2)) {
    size_t i = g.pick(9);
    withType(i, All9{}, [&](auto t) { unary<typename decltype(t)::type>(c, g); });
  } else {
    size_t i = g.pick(9), j = g.pick(9);
    withType(i, All9{}, [&](auto ta) {
      withType(j, All9{}, [&](auto tb) { binary<typename decltype(ta)::type, typename decltype(tb)::type>(c, g); });
    });
  }
}
