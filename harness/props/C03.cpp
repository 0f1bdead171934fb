// C03 addition
#include "addsub.hpp"
char const *const kProperty = "C03";
char const *const kRule =
    "pick one of the 53 ordered type pairs that have a sum, generate both operands (full double range "
    "that does not overflow), compare every component of a+b with the IEEE sum of the components, and "
    "check commutativity, neutral zero, additive inverse and associativity; non-trivial = both "
    "operands have a nonzero component in a grade they share or in different grades, i.e. both nonzero";
using namespace vt;
void property(Ctx &c) {
  static Rng const rgs[4] = {{}, {}, {-300, 300, -300, 300, true}, {-323, -300, -323, 300, true}};
  Gen g(c, rgs[c.draw(4)]);
  auto const &ps = addPairs();
  PairIx p = ps[g.pick(ps.size())];
  withAddPair(p.a, p.b, [&](auto ta, auto tb) {
    typedef typename decltype(ta)::type A;
    typedef typename decltype(tb)::type B;
    A a = g.template item<A>();
    B b = g.chance(1, 3) ? g.template related<B>(d8(a)) : g.template item<B>();
    c.show("a", [&] { return str(a); });
    c.show("b", [&] { return str(b); });
    D8 da = d8(a), db = d8(b), want;
    for (int i = 0; i < 8; ++i) want[i] = da[i] + db[i];
    c.nontriv = anyNonzero(da) && anyNonzero(db);
    std::string nm = std::string(Nm<A>::s) + "+" + Nm<B>::s;
    c.label(nm);
    auto r = a + b;
    exact8(c, nm.c_str(), d8(r), want);
    exact8(c, "b+a == a+b", d8(b + a), d8(r));
    exact8(c, "a+zero == a", d8(a + g3::zero<B>()), da);
    exact8(c, "zero+a == a", d8(g3::zero<B>() + a), da);
    exact8(c, "a+(-a) == zero", d8(a + (-a)), D8{});
    exact8(c, "promoted sum", d8(g3::MultiVector(a) + g3::MultiVector(b)), want);
    if constexpr (std::is_same_v<A, B>) {
      D8 twice;
      for (int i = 0; i < 8; ++i) twice[i] = da[i] + da[i];
      exact8(c, "a+a", d8(a + a), twice);
      A d = g.template item<A>();
      auto l = (a + b) + d;
      auto rr = a + (b + d);
      near8(c, "(a+b)+c vs a+(b+c)", d8(l), toM(rr), ref::absM(toM(a)) + ref::absM(toM(b)) + ref::absM(toM(d)), 4);
    }
  });
}
