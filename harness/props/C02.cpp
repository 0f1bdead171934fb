// C02 expression programs over mixed types == the same program in the reference
// algebra, plus the ring laws.
#include "any.hpp"
char const *const kProperty = "C02";
char const *const kRule =
    "generate a program of 1..12 operations (products, same-type and promoted sums, involutions, "
    "dual) over registers of all 9 types and double, run it in the library with native result types "
    "and in the reference algebra with a running error bound, compare after each step; then the ring "
    "laws (associative, distributive, central grades, promotion) on three generated items; "
    "non-trivial = the program has >= 2 binary operations with nonzero operands";
using namespace vt;
struct Reg {
  Any v;
  M m; // reference value
  M e; // absolute error bound of the library value
  M a; // magnitude bound
};
static void verify(Ctx &c, char const *what, Reg const &r) {
  D8 d = dAny(r.v);
  for (int i = 0; i < 8; ++i) {
    LD diff = std::fabs((LD)d[i] - r.m[i]);
    ++c.comparisons;
    if (!(diff <= r.e[i] * 1.0001L))
      c.fail(std::string("program step ") + what + " -> " + nAny(r.v) + ": component " +
             std::to_string(i) + " got " + num17(d[i]) + " expected " + num17((double)r.m[i]) +
             " allowed " + num17((double)r.e[i]));
  }
}
static void program(Ctx &c) {
  Gen g(c, c.draw(5) ? Rng{-3, 3, -6, 6, true} : Rng{-25, 25, -40, 40, true});
  std::vector<Reg> regs;
  size_t n0 = 2 + g.pick(3);
  for (size_t i = 0; i < n0; ++i) {
    Reg r;
    r.v = anyItem(g, g.pick(10));
    r.m = toM(dAny(r.v));
    c.show("r", [&] { return std::visit([](auto const &x) { return str(x); }, r.v); });
    regs.push_back(r);
  }
  size_t steps = 1 + g.pick(12);
  int binaries = 0;
  for (size_t s = 0; s < steps; ++s) {
    Reg const x = regs[g.pick(regs.size())];
    Reg const y = regs[g.pick(regs.size())];
    Reg r;
    std::string what;
    size_t op = g.pick(10);
    bool done = false;
    if (op <= 4) { // product
      r.v = mul(x.v, y.v);
      what = std::string(nAny(x.v)) + "*" + nAny(y.v);
      r.m = x.m * y.m;
      M ax = ref::absM(x.m) + x.e, ay = ref::absM(y.m) + y.e;
      r.e = ref::absProd(ax, y.e) + ref::absProd(x.e, ay) + 14 * (LD)kEps * ref::absProd(ax, ay);
      if (anyNonzero(dAny(x.v)) && anyNonzero(dAny(y.v))) ++binaries;
      done = true;
    } else if (op <= 6) { // sum or difference: same type, or promote both to MultiVector
      bool minus = op == 6;
      r.v = sum(x.v, y.v, minus);
      what = std::string(nAny(x.v)) + (minus ? "-" : "+") + nAny(y.v);
      r.m = minus ? x.m - y.m : x.m + y.m;
      r.e = x.e + y.e + (LD)kEps * (ref::absM(x.m) + ref::absM(y.m) + x.e + y.e);
      if (anyNonzero(dAny(x.v)) && anyNonzero(dAny(y.v))) ++binaries;
      done = true;
    } else {
      std::visit(
          [&](auto const &p) {
            typedef std::decay_t<decltype(p)> P;
            if constexpr (!std::is_same_v<P, double>) {
              done = true;
              if (op == 7) {
                r.v = -p, r.m = ref::neg(x.m), r.e = x.e, what = "-";
              } else if (op == 8) {
                switch (g.pick(3)) {
                case 0: r.v = reverse(p), r.m = ref::reverse(x.m), what = "reverse "; break;
                case 1: r.v = oddverse(p), r.m = ref::oddverse(x.m), what = "oddverse "; break;
                default: r.v = dirverse(p), r.m = ref::dirverse(x.m), what = "dirverse "; break;
                }
                r.e = x.e;
              } else {
                r.v = dual(p), r.m = ref::dual(x.m), what = "dual ";
                M e;
                M de = ref::dual(x.e);
                for (int i = 0; i < 8; ++i) e[i] = std::fabs(de[i]);
                r.e = e;
              }
              what += Nm<P>::s;
            }
          },
          x.v);
    }
    if (!done) continue;
    if (!(ref::maxAbs(r.m) < 1e60L)) { // keep well inside double range
      c.label("program stopped: large");
      break;
    }
    for (int i = 0; i < 8; ++i) r.e[i] += 1e-290L;
    if (c.verbose) c.showStr("step", what);
    verify(c, what.c_str(), r);
    if (g.chance(1, 2) || regs.size() < 6)
      regs.push_back(r);
    else
      regs[g.pick(regs.size())] = r;
  }
  c.nontriv = binaries >= 2;
  c.label("programs");
}
static void laws(Ctx &c) {
  Gen g(c, c.draw(5) ? Rng{-3, 3, -12, 12, true} : Rng{-80, 80, -80, 80, true});
  size_t ia = g.pick(10), ib = g.pick(10), ic = 1 + g.pick(9);
  Any va = anyItem(g, ia), vc = anyItem(g, ic);
  Any vb = 0.;
  withType(ib, All10{}, [&](auto t) {
    typedef typename decltype(t)::type B;
    vb = g.chance(1, 3) ? g.template related<B>(dAny(va)) : g.template item<B>();
  });
  M A = toM(dAny(va)), B = toM(dAny(vb)), C = toM(dAny(vc));
  c.show("a", [&] { return sAny(va); });
  c.show("b", [&] { return sAny(vb); });
  c.show("c", [&] { return sAny(vc); });
  M abc = ref::absProd(ref::absProd(ref::absM(A), ref::absM(B)), ref::absM(C));
  for (int i = 0; i < 8; ++i) abc[i] += 1e-290L;
  c.nontriv = anyNonzero(dAny(va)) && anyNonzero(dAny(vb)) && anyNonzero(dAny(vc));
  c.label("laws");
  // associativity, evaluated with whatever native types the products have
  Any bc = mul(vb, vc);
  D8 l = dAny(mul(mul(va, vb), vc));
  near8(c, "(a*b)*c vs a*(b*c)", l, toM(dAny(mul(va, bc))), abc, 48);
  near8(c, "(a*b)*c vs reference", l, A * B * C, abc, 32);
  // promotion of both operands is a homomorphism
  Any const ma = promote(va), mb = promote(vb), mc = promote(vc);
  near8(c, "promoted product", dAny(mul(mb, mc)), toM(dAny(bc)), ref::absProd(B, C), 24);
  // distributivity over a promoted sum
  Any const sbc = sum(mb, mc, false);
  M sc = ref::absProd(A, ref::absM(B) + ref::absM(C));
  near8(c, "a*(b+c) vs a*b+a*c", dAny(mul(ma, sbc)), toM(dAny(sum(mul(ma, mb), mul(ma, mc), false))), sc, 40);
  M sd = ref::absProd(ref::absM(B) + ref::absM(C), A);
  near8(c, "(b+c)*a vs b*a+c*a", dAny(mul(sbc, ma)), toM(dAny(sum(mul(mb, ma), mul(mc, ma), false))), sd, 40);
  // grades 0 and 3 are central
  std::visit(
      [&](auto const &x) {
        typedef std::decay_t<decltype(x)> X;
        g3::ComPlex const z = g.item<g3::ComPlex>();
        near8(c, "z*x vs x*z", d8(z * x), toM(x * z), ref::absProd(toM(z), toM(x)), 24);
        if constexpr (!std::is_same_v<X, double>) {
          double const s = g.num();
          near8(c, "s*x vs x*s", d8(s * x), toM(x * s), ref::absProd(toM(s), toM(x)), 4);
        }
        g3::TriVector const t = g.item<g3::TriVector>();
        near8(c, "t*x vs x*t", d8(t * x), toM(x * t), ref::absProd(toM(t), toM(x)), 4);
      },
      va);
}
void property(Ctx &c) {
  if (c.draw(3) == 0)
    laws(c);
  else
    program(c);
}
