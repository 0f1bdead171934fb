// C18 exact equality
#include "../gen.hpp"
char const *const kProperty = "C18";
char const *const kRule =
    "pick one of the 7 equality-comparable types, generate an item and a copy that is identical or differs in "
    "one or more components (by one ulp, sign, or another value); == must hold exactly when all components "
    "are equal, be reflexive and symmetric, imply nearlyEquals, and agree with promotion; non-trivial = "
    "identical, or differing in exactly one component";
using namespace vt;
typedef Types<g3::Scalar, g3::Vector, g3::BiVector, g3::TriVector, g3::Spinor, g3::ImSpin, g3::MultiVector> Eq;
template <class T> static void one(Ctx &c, Gen &g) {
  D8 d = d8(g.item<T>()), e = d;
  std::vector<int> idx;
  for (int i = 0; i < 8; ++i)
    if (Has<T>::g[ref::kGrade[i]]) idx.push_back(i);
  size_t mode = g.pick(4);
  if (mode == 1 || mode == 2) {
    int i = idx[g.pick(idx.size())];
    switch (g.pick(6)) {
    case 0: e[i] = Gen::ulps(e[i], 1); break;
    case 1: e[i] = Gen::ulps(e[i], -1); break;
    case 2: e[i] = -e[i]; break;
    case 3: e[i] = g.special(); break;
    case 4: d[i] = e[i] = g.special(); break;
    default: e[i] = g.num();
    }
  } else if (mode == 3)
    e = d8(g.related<T>(d));
  for (int i : idx) c.note(e[i]);
  T const x = fromD8<T>(d), y = fromD8<T>(e);
  c.show("x", [&] { return str(x); });
  c.show("y", [&] { return str(y); });
  int diff = 0;
  for (int i : idx) diff += !(d[i] == e[i]);
  c.nontriv = diff <= 1 && anyNonzero(d);
  c.label(std::string(Nm<T>::s) + (diff ? " different" : " same"));
  c.check((x == y) == (diff == 0), "x == y does not say whether all components are equal");
  c.check((y == x) == (diff == 0), "== is not symmetric");
  bool nan = false, plain = true;
  for (int i : idx) nan = nan || std::isnan(d[i]), plain = plain && (d[i] == 0 || std::isnormal(d[i]));
  c.check((x == x) == !nan, "== is not reflexive (or holds for an item with a null component)");
  g3::MultiVector const mx(x), my(y);
  c.check((mx == my) == (diff == 0), "== of promoted items");
  if (diff == 0 && plain) c.check(g3::nearlyEquals(x, y), "equal items are not nearlyEquals");
}
void property(Ctx &c) {
  static Rng const rgs[4] = {{}, {}, {-300, 300, -300, 300, true}, {-323, -300, -323, 300, true}};
  Gen g(c, rgs[c.draw(4)]);
  size_t i = g.pick(7);
  withType(i, Eq{}, [&](auto t) { one<typename decltype(t)::type>(c, g); });
}
