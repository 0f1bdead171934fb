// C22 construction, component access, grade selection, decomposition
#include "../gen.hpp"
char const *const kProperty = "C22";
char const *const kRule =
    "generate eight component values, build items by every construction route (braces, grades, promotion, "
    "indexed writes in random order), read all components back by index and by grade, out-of-range indices give "
    "null (last component for the full multivector), split a multivector into grade pairs and rebuild it; "
    "non-trivial = all eight components distinct and nonzero";
using namespace vt;
static bool same(double a, double b) { return bitsOf(a) == bitsOf(b); }
template <class T> static void access(Ctx &c, Gen &g, T const &x, D8 const &d) {
  std::vector<int> idx;
  for (int i = 0; i < 8; ++i)
    if (Has<T>::g[ref::kGrade[i]]) idx.push_back(i);
  for (size_t k = 0; k < idx.size(); ++k)
    c.checkf(same(x[k], d[idx[k]]), [&] { return std::string(Nm<T>::s) + " index " + std::to_string(k) + " reads " + num17(x[k]); });
  size_t far[] = {idx.size(), idx.size() + 1, 8, 9, 100, (size_t)-1, (size_t)1 << 32, (size_t)1 << 63, (size_t)g.pick(0)};
  for (size_t f : far)
    if (f >= idx.size()) {
      if (std::is_same_v<T, g3::MultiVector>)
        c.check(same(x[f], d[7]), "multivector index past the end is not the trivector grade");
      else
        c.check(std::isnan(x[f]), "index past the end is not null");
    }
  D8 e = d8(x);
  for (int i : idx) c.check(same(e[i], d[i]), "grade member holds another component");
  // promotion places exactly the type's grades
  g3::MultiVector const m(x);
  for (int i = 0; i < 8; ++i)
    c.check(same(m[(size_t)i], Has<T>::g[ref::kGrade[i]] ? d[i] : 0.), "promotion to MultiVector misplaces a component");
}
void property(Ctx &c) {
  static Rng const rgs[4] = {{}, {}, {-300, 300, -300, 300, true}, {-323, -300, -323, 300, true}};
  Gen g(c, rgs[c.draw(4)]);
  D8 d = g.pick(2) ? g.octet() : D8{};
  if (!anyNonzero(d))
    for (double &x : d) x = g.num();
  c.show("components", [&] { return str(d); });
  bool plain = true;
  if (g.pick(6) == 0) { // any bit pattern is a component value
    size_t n = 1 + g.pick(8);
    for (size_t k = 0; k < n; ++k) d[g.pick(8)] = g.special();
    for (double x : d) plain = plain && std::isfinite(x);
  }
  bool distinct = true;
  for (int i = 0; i < 8; ++i)
    for (int j = i; j < 8; ++j) distinct = distinct && d[i] != 0 && (i == j || d[i] != d[j]);
  c.nontriv = distinct;
  g3::Scalar const s{d[0]};
  g3::Vector const v{d[1], d[2], d[3]};
  g3::BiVector const b{d[4], d[5], d[6]};
  g3::TriVector const t{d[7]};
  g3::Spinor const sp{s, b}, sp2{d[0], b};
  g3::ImSpin const im{v, t};
  g3::ComPlex const z{s, t}, z2{d[0], d[7]};
  g3::DirPlex const f{v, b};
  g3::MultiVector const m{s, v, b, t};
  access(c, g, s, d), access(c, g, v, d), access(c, g, b, d), access(c, g, t, d);
  access(c, g, sp, d), access(c, g, sp2, d), access(c, g, im, d), access(c, g, z, d), access(c, g, z2, d);
  access(c, g, f, d), access(c, g, m, d);
  access(c, g, g3::MultiVector{d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]}, d);
  access(c, g, g3::MultiVector{z, f}, d);
  c.check(same(g3::MultiVector(d[0])[0], d[0]), "MultiVector from double");
  for (size_t i = 1; i < 8; ++i) c.check(g3::MultiVector(d[0])[i] == 0, "MultiVector from double has other grades");
  if (!plain) {
    c.label("not finite");
    g3::MultiVector cp = m, w = g3::zero<g3::MultiVector>();
    for (size_t i = 0; i < 8; ++i) w[i] = d[i];
    for (size_t i = 0; i < 8; ++i) c.check(same(cp[i], d[i]) && same(w[i], d[i]), "copy or indexed write changes a component");
    return;
  }
  // basis meaning of the components
  auto sum = d[0] * g3::e0 + d[4] * g3::e23 + d[5] * g3::e31 + d[6] * g3::e12;
  near8(c, "s*e0+b1*e23+b2*e31+b3*e12", d8(sum), toM(sp), ref::absM(toM(sp)), 1);
  auto vs = (d[1] * g3::e1 + d[2] * g3::e2 + d[3] * g3::e3) + d[7] * g3::e123;
  near8(c, "v1*e1+v2*e2+v3*e3+t*e123", d8(vs), toM(im), ref::absM(toM(im)), 1);
  // decompositions rebuild the whole exactly
  exact8(c, "ComPlex + DirPlex", d8(z + f), d);
  exact8(c, "Spinor + ImSpin", d8(sp + im), d);
  exact8(c, "Scalar + ... + TriVector",
         d8(g3::MultiVector(s) + g3::MultiVector(v) + g3::MultiVector(b) + g3::MultiVector(t)), d);
  exact8(c, "ComPlex,DirPlex of grades",
         d8(g3::MultiVector(g3::ComPlex{m.theSca, m.theTri}, g3::DirPlex{m.theVec, m.theBiv})), d);
  // indexed writes in a random order, with overwrites
  g3::MultiVector w = g3::zero<g3::MultiVector>();
  D8 model{};
  size_t n = 1 + g.pick(16);
  for (size_t k = 0; k < n; ++k) {
    size_t i = g.pick(8);
    double x = g.num();
    w[i] = x;
    model[i] = x;
  }
  for (size_t i = 0; i < 8; ++i) {
    c.check(same(w[i], model[i]), "indexed write went elsewhere");
    c.check(same(static_cast<g3::MultiVector const &>(w)[i], model[i]), "const read differs from the write");
  }
  exact8(c, "grades after indexed writes", d8(w), model);
  // copies are values: changing the copy leaves the source alone
  g3::MultiVector cp = m;
  cp[g.pick(8)] = 12345.;
  exact8(c, "source after writing to a copy", d8(m), d);
  g3::MultiVector as = g3::zero<g3::MultiVector>();
  as = m;
  exact8(c, "assignment", d8(as), d);
}
