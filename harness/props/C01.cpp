// C01 geometric product of every pair of types == reference Clifford product
#include "any.hpp"
char const *const kProperty = "C01";
char const *const kRule =
    "pick an ordered pair of the 10 operand types (not double*double), generate both operands "
    "(second independent of, or related to, the first), compare all 8 components of a*b with the "
    "bit-mask reference product; non-trivial = both operands nonzero and at least three nonzero "
    "component products";
using namespace vt;
static Any scaled(size_t type, D8 d, int e) {
  for (double &x : d) x = std::ldexp(x, e);
  Any r = 0.;
  withType(type, All10{}, [&](auto t) { r = fromD8<typename decltype(t)::type>(d); });
  return r;
}
void property(Ctx &c) {
  static Rng const rgs[3] = {{-6, 6, -30, 30, true}, {-2, 2, -10, 10, true}, {-140, 140, -140, 140, true}};
  uint64_t k = c.draw(8);
  Gen g(c, rgs[k == 7 ? 2 : k & 1]);
  size_t ia = g.pick(10), ib = g.pick(10);
  if (ia == 0 && ib == 0) ia = 9;
  Any a = anyItem(g, ia);
  Any b = 0.;
  withType(ib, All10{}, [&](auto t) {
    typedef typename decltype(t)::type B;
    b = g.chance(1, 4) ? g.template related<B>(dAny(a)) : g.template item<B>();
  });
  if (k == 6) { // operands of opposite extreme sizes, whose products are of everyday size
    int const e = (int)g.pick(1601) - 800;
    a = scaled(ia, dAny(a), e), b = scaled(ib, dAny(b), -e);
  }
  c.show("a", [&] { return sAny(a); });
  bool const alias = k != 6 && ia == ib && g.chance(1, 6); // the very same object on both sides
  if (alias) b = a;
  Any const r = alias ? mul(a, a) : mul(a, b);
  c.show("b", [&] { return sAny(b); });
  M ma = toM(dAny(a)), mb = toM(dAny(b));
  c.nontriv = countNonzero(dAny(a)) * countNonzero(dAny(b)) >= 3;
  std::string const what = std::string(nAny(a)) + "*" + nAny(b);
  c.label(what);
  if (c.verbose) c.showStr("a*b", sAny(r));
  near8(c, what.c_str(), dAny(r), ma * mb, ref::absProd(ma, mb), 12);
}
