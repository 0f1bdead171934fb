// C05 negation and the three involutions
#include "../gen.hpp"
char const *const kProperty = "C05";
char const *const kRule =
    "pick a type, generate an item, check -x, reverse, oddverse, dirverse against the grade sign patterns "
    "exactly, that each is its own inverse, that they commute and any two compose to the third, and on a "
    "second generated item the (anti)automorphism laws on sums and products; non-trivial = x nonzero in "
    "every grade its type has";
using namespace vt;
template <class T> static void checkItem(Ctx &c, Gen &g) {
  T x = g.item<T>();
  c.show("x", [&] { return str(x); });
  M m = toM(x);
  auto D = [](M const &v) {
    D8 d;
    for (int i = 0; i < 8; ++i) d[i] = (double)v[i];
    return d;
  };
  D8 d = d8(x);
  int grades = 0, nz = 0;
  for (int k = 0; k < 4; ++k)
    if (Has<T>::g[k]) {
      ++grades;
      for (int i = 0; i < 8; ++i)
        if (ref::kGrade[i] == k && d[i] != 0) {
          ++nz;
          break;
        }
    }
  c.nontriv = grades == nz;
  c.label(Nm<T>::s);
  exact8(c, "-x", d8(-x), D(ref::neg(m)));
  exact8(c, "reverse", d8(reverse(x)), D(ref::reverse(m)));
  exact8(c, "oddverse", d8(oddverse(x)), D(ref::oddverse(m)));
  exact8(c, "dirverse", d8(dirverse(x)), D(ref::dirverse(m)));
  exact8(c, "-(-x)", d8(-(-x)), d);
  exact8(c, "reverse twice", d8(reverse(reverse(x))), d);
  exact8(c, "oddverse twice", d8(oddverse(oddverse(x))), d);
  exact8(c, "dirverse twice", d8(dirverse(dirverse(x))), d);
  exact8(c, "reverse(oddverse)", d8(reverse(oddverse(x))), d8(dirverse(x)));
  exact8(c, "oddverse(reverse)", d8(oddverse(reverse(x))), d8(dirverse(x)));
  exact8(c, "reverse(dirverse)", d8(reverse(dirverse(x))), d8(oddverse(x)));
  exact8(c, "dirverse(reverse)", d8(dirverse(reverse(x))), d8(oddverse(x)));
  exact8(c, "dirverse(oddverse)", d8(dirverse(oddverse(x))), d8(reverse(x)));
  exact8(c, "oddverse(dirverse)", d8(oddverse(dirverse(x))), d8(reverse(x)));
  // promotion commutes
  g3::MultiVector const px(x);
  exact8(c, "promoted -x", d8(-px), d8(-x));
  exact8(c, "promoted reverse", d8(reverse(px)), d8(reverse(x)));
  exact8(c, "promoted oddverse", d8(oddverse(px)), d8(oddverse(x)));
  exact8(c, "promoted dirverse", d8(dirverse(px)), d8(dirverse(x)));
  // linear
  T y = g.chance(1, 4) ? g.related<T>(d8(x)) : g.item<T>();
  exact8(c, "reverse of sum", d8(reverse(x + y)), d8(reverse(x) + reverse(y)));
  exact8(c, "oddverse of sum", d8(oddverse(x + y)), d8(oddverse(x) + oddverse(y)));
  exact8(c, "dirverse of sum", d8(dirverse(x + y)), d8(dirverse(x) + dirverse(y)));
}
template <class A, class B> static void checkProduct(Ctx &c, Gen &g) {
  A a = g.item<A>();
  B b = g.chance(1, 4) ? g.template related<B>(d8(a)) : g.template item<B>();
  c.show("a", [&] { return str(a); });
  c.show("b", [&] { return str(b); });
  c.nontriv = anyNonzero(d8(a)) && anyNonzero(d8(b));
  c.label("product laws");
  M s = ref::absProd(toM(a), toM(b));
  near8(c, "reverse(a*b) vs reverse(b)*reverse(a)", d8(reverse(a * b)), toM(reverse(b) * reverse(a)), s, 24);
  near8(c, "oddverse(a*b) vs oddverse(a)*oddverse(b)", d8(oddverse(a * b)), toM(oddverse(a) * oddverse(b)), s,
        24);
  near8(c, "dirverse(a*b) vs dirverse(b)*dirverse(a)", d8(dirverse(a * b)), toM(dirverse(b) * dirverse(a)), s,
        24);
}
void property(Ctx &c) {
  bool const items = c.draw(3) < 2;
  // sign patterns and sums are exact over the whole double range, product laws need headroom
  static Rng const rgs[4] = {{}, {}, {-300, 300, -300, 300, true}, {-323, -300, -323, 300, true}};
  Gen g(c, items ? rgs[c.draw(4)] : Rng{});
  if (items) {
    size_t i = g.pick(10);
    if (i == 0) {
      double x = g.num();
      c.show("x", [&] { return num17(x); });
      c.check(g3::reverse(x) == x, "reverse(double) is not identity");
      return;
    }
    withType(i - 1, All9{}, [&](auto t) { checkItem<typename decltype(t)::type>(c, g); });
  } else {
    size_t i = g.pick(9), j = g.pick(9);
    withType(i, All9{}, [&](auto ta) {
      withType(j, All9{}, [&](auto tb) {
        checkProduct<typename decltype(ta)::type, typename decltype(tb)::type>(c, g);
      });
    });
  }
}
