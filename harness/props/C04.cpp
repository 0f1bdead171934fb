// C04 subtraction.  Six ordered pairs are known findings: they return b-a.
#include "addsub.hpp"
char const *const kProperty = "C04";
char const *const kRule =
    "pick one of the 53 ordered type pairs that have a difference, generate both operands, compare every "
    "component of a-b with the IEEE difference of the components, and check a-b == a+(-b), a-zero, a-a and "
    "the promoted difference; listed known findings (exactly b-a for six pairs) are excluded and counted; "
    "non-trivial = both operands nonzero";
using namespace vt;
void property(Ctx &c) {
  static Rng const rgs[4] = {{}, {}, {-300, 300, -300, 300, true}, {-323, -300, -323, 300, true}};
  Gen g(c, rgs[c.draw(4)]);
  auto const &ps = addPairs();
  PairIx p = ps[g.pick(ps.size())];
  withAddPair(p.a, p.b, [&](auto ta, auto tb) {
    typedef typename decltype(ta)::type A;
    typedef typename decltype(tb)::type B;
    A a = g.template item<A>();
    B b = g.chance(1, 3) ? g.template related<B>(d8(a)) : g.template item<B>();
    c.show("a", [&] { return str(a); });
    c.show("b", [&] { return str(b); });
    D8 da = d8(a), db = d8(b), want, negd;
    for (int i = 0; i < 8; ++i) want[i] = da[i] - db[i], negd[i] = db[i] - da[i];
    c.nontriv = anyNonzero(da) && anyNonzero(db);
    std::string nm = std::string(Nm<A>::s) + "-" + Nm<B>::s;
    c.label(nm);
    D8 r = d8(a - b);
    bool right = true, negated = true;
    for (int i = 0; i < 8; ++i) right = right && r[i] == want[i], negated = negated && r[i] == negd[i];
    if (!right && negated && c.isKnown(nm + ":negated")) return;
    exact8(c, nm.c_str(), r, want);
    exact8(c, "a-b == a+(-b)", d8(a + (-b)), want);
    D8 az = d8(a - g3::zero<B>());
    bool azNeg = true;
    for (int i = 0; i < 8; ++i) azNeg = azNeg && az[i] == -da[i];
    if (!(azNeg && anyNonzero(da) && c.isKnown(nm + ":negated"))) exact8(c, "a-zero == a", az, da);
    exact8(c, "a-a == zero", d8(a - a), D8{});
    exact8(c, "promoted difference", d8(g3::MultiVector(a) - g3::MultiVector(b)), want);
  });
}
