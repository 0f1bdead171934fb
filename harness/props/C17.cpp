// C17 tolerance comparison
#include "../gen.hpp"
char const *const kProperty = "C17";
char const *const kRule =
    "generate reference, tolerance (default, 1e-16..1e12, zero, negative) and a test value displaced by a "
    "chosen fraction of the tolerance; the documented rule (relative to the reference, absolute near zero, "
    "RSS-relative for 3-component blades, every grade of composites, false when anything is invalid) decides "
    "outside a band of a few ulp around the threshold; non-trivial = displacement within 100 tolerances, or "
    "an invalid/zero-reference case";
using namespace vt;
enum Tri { No, Yes, Skip };
static Tri andT(Tri a, Tri b) {
  if (a == No || b == No) return No;
  if (a == Skip || b == Skip) return Skip;
  return Yes;
}
static bool okNum(double x) { return x == 0 || std::fpclassify(x) == FP_NORMAL; }
static Tri thresh(LD v, LD tol, LD band) { // v < tol ?
  if (!(tol > 0)) return No;               // v >= 0 always
  if (v == 0) return Yes;
  if (v + band < tol) return Yes;
  if (v - band > tol) return No;
  return Skip;
}
static Tri oracle1(double t, double r, double tol) {
  if (!okNum(t) || !okNum(r)) return No;
  LD ar = std::fabs((LD)r), df = std::fabs((LD)t - r);
  if (ar < 1e-300L) return thresh(df, tol, 4 * kEps * df); // near zero: absolute
  if (ar < 1e-280L) return Skip;                           // documented only as "near zero"
  LD v = df / ar;
  return thresh(v, tol, 4 * kEps * (1 + v));
}
static Tri oracleN(double const *t, double const *r, int n, double tol) {
  LD sr = 0, sd = 0;
  bool same = true;
  for (int i = 0; i < n; ++i) {
    if (!okNum(t[i]) || !okNum(r[i])) return No;
    sr += (LD)r[i] * r[i];
    LD df = (LD)t[i] - r[i];
    sd += df * df;
    same = same && t[i] == r[i];
  }
  LD mr = std::sqrt(sr), md = std::sqrt(sd);
  if (mr == 0) { // absolute, each component
    Tri a = Yes;
    for (int i = 0; i < n; ++i) a = andT(a, thresh(std::fabs((LD)t[i] - r[i]), tol, 4 * kEps * std::fabs((LD)t[i])));
    return a;
  }
  if (same) return tol > 0 ? Yes : No;
  if (mr < 1e-140L || mr > 1e140L || md > 1e140L || md < 1e-140L) return Skip; // squares leave the range
  LD v = md / mr;
  return thresh(v, tol, 8 * kEps * v);
}
template <class T> static Tri oracleT(T const &t, T const &r, double tol) {
  if constexpr (std::is_same_v<T, double>) return oracle1(t, r, tol);
  D8 a = d8(t), b = d8(r);
  Tri out = Yes;
  static int const lo[4] = {0, 1, 4, 7}, cnt[4] = {1, 3, 3, 1};
  for (int k = 0; k < 4; ++k)
    if (Has<T>::g[k]) {
      Tri x = oracleN(&a[lo[k]], &b[lo[k]], cnt[k], tol);
      out = andT(out, x);
    }
  return out;
}
static double pickTol(Gen &g, bool &dflt) {
  dflt = false;
  switch (g.pick(8)) {
  case 0: dflt = true; return kEps;
  case 1: return 0.;
  case 2: return -g.mag(-10, 1);
  case 3: return kEps * (1 + g.pick(256));
  case 4: return 1e-6;
  default: {
    double t = g.pick(12) ? g.mag(-15, 2) : g.mag(2, 12);
    g.c.note(t);
    return t;
  }
  }
}
template <class T> static void one(Ctx &c, Gen &g) {
  bool dflt;
  double tol = pickTol(g, dflt);
  T r = g.item<T>();
  D8 d = d8(r), e = d;
  std::vector<int> idx;
  for (int i = 0; i < 8; ++i)
    if (Has<T>::g[ref::kGrade[i]]) idx.push_back(i);
  size_t mode = g.pick(8);
  LD rss[4];
  for (int k = 0; k < 4; ++k) {
    LD s = 0;
    for (int i = 0; i < 8; ++i)
      if (ref::kGrade[i] == k) s += (LD)d[i] * d[i];
    rss[k] = std::sqrt(s);
  }
  double f = 0;
  switch (mode) {
  case 0: break; // identical
  case 1: // a single component moved by f*tol relative to its grade
  case 2:
  case 3: {
    int i = idx[g.pick(idx.size())];
    f = g.pick(3) ? g.mag(-2, 2) : 0.9 + 0.2 * g.unit();
    double sgn = g.pick(2) ? 1 : -1;
    LD base = rss[ref::kGrade[i]];
    e[i] = (double)((LD)d[i] + sgn * f * std::fabs(tol) * (base > 0 ? base : 1));
    break;
  }
  case 4: // every component
    f = g.mag(-2, 2);
    for (int i : idx) e[i] = (double)((LD)d[i] * (1 + f * tol * (g.pick(2) ? 1 : -1)));
    break;
  case 5: // an invalid component on one side
  {
    int i = idx[g.pick(idx.size())];
    double bad = g.pick(3) == 0 ? INFINITY : g.pick(2) ? NAN : 4e-320;
    (g.pick(2) ? e : d)[i] = bad;
    break;
  }
  case 6: // zero reference in one grade
  {
    int k = ref::kGrade[idx[g.pick(idx.size())]];
    for (int i : idx)
      if (ref::kGrade[i] == k) d[i] = 0, e[i] = g.pick(2) ? 0 : std::fabs(tol) * g.mag(-2, 2) * (g.pick(2) ? 1 : -1);
    break;
  }
  default: { // unrelated or sign-flipped
    e = d8(g.related<T>(d));
  }
  }
  for (int i : idx) c.note(d[i]), c.note(e[i]);
  T const R = fromD8<T>(d), t = fromD8<T>(e);
  c.show("test", [&] { return str(t); });
  c.show("ref", [&] { return str(R); });
  c.show("tol", [&] { return num17(tol); });
  Tri want = oracleT(t, R, tol);
  c.nontriv = mode != 7 && want != Skip;
  c.label(want == Yes ? "expected true" : want == No ? "expected false" : "threshold band (skipped)");
  c.label(Nm<T>::s);
  bool got = dflt ? g3::nearlyEquals(t, R) : g3::nearlyEquals(t, R, tol);
  if (want != Skip)
    c.checkf(got == (want == Yes), [&] {
      return std::string("nearlyEquals(") + str(t) + "," + str(R) + ", tol=" + num17(tol) + ") is " +
             (got ? "true" : "false");
    });
  // always: a valid item is nearly equal to itself at any positive tolerance, an invalid one never
  bool valid = true;
  for (int i : idx) valid = valid && okNum(d[i]);
  bool selfT = g3::nearlyEquals(R, R, tol), self = g3::nearlyEquals(R, R);
  c.check(self == valid, "nearlyEquals(x,x) is not isValid(x)");
  c.check(selfT == (valid && tol > 0), "nearlyEquals(x,x,tol)");
}
// the array form, of any dimension
template <size_t N> static void arrays(Ctx &c, Gen &g) {
  bool dflt;
  double tol = pickTol(g, dflt);
  std::array<double, N> r, t;
  size_t mode = g.pick(5);
  for (size_t i = 0; i < N; ++i) t[i] = r[i] = mode == 4 ? 0. : g.num();
  LD rs = 0;
  for (double x : r) rs += (LD)x * x;
  double size = rs > 0 ? (double)std::sqrt(rs) : 1;
  size_t k = g.pick(N);
  if (mode == 1 || mode == 4) t[k] += size * tol * g.mag(-2, 2);
  if (mode == 2) (g.pick(2) ? t : r)[k] = g.pick(3) == 0 ? INFINITY : g.pick(2) ? NAN : 4e-320;
  if (mode == 3) t[k] = g.num();
  c.label("array of " + std::to_string(N));
  c.show("array size, index, mode, tol", [&] {
    return std::to_string(N) + "," + std::to_string(k) + "," + std::to_string(mode) + "," + num17(tol) + " t[k]=" +
           num17(t[k]) + " r[k]=" + num17(r[k]);
  });
  for (size_t i = 0; i < N; ++i) c.note(t[i]), c.note(r[i]);
  Tri w = oracleN(t.data(), r.data(), (int)N, tol);
  c.nontriv = w != Skip && mode != 3;
  if (w == Skip) return;
  c.check((dflt ? g3::nearlyEquals(t, r) : g3::nearlyEquals(t, r, tol)) == (w == Yes), "nearlyEquals(array)");
}
static void doubles(Ctx &c, Gen &g) {
  bool dflt;
  double tol = pickTol(g, dflt);
  double r = g.pick(4) ? g.num() : g.mag(-307, 300) * (g.pick(2) ? 1 : -1), t;
  switch (g.pick(6)) {
  case 0: r = 0; t = std::fabs(tol) * g.mag(-2, 2) * (g.pick(2) ? 1 : -1); break;
  case 1: t = r; break;
  case 2: t = Gen::ulps(r, (int)g.pick(17) - 8); break;
  case 3: t = (g.pick(2) ? NAN : INFINITY); if (g.pick(2)) std::swap(t, r); break;
  case 4: t = g.num(); break;
  default: t = (double)((LD)r * (1 + (LD)tol * g.mag(-2, 2) * (g.pick(2) ? 1 : -1)));
  }
  c.note(r), c.note(t);
  c.show("t,r,tol", [&] { return num17(t) + "," + num17(r) + "," + num17(tol); });
  Tri w = oracle1(t, r, tol);
  c.nontriv = w != Skip;
  c.label(w == Yes ? "double true" : w == No ? "double false" : "double threshold band (skipped)");
  if (w != Skip) {
    c.check(g3::nearlyEqualsRel(t, r, tol) == (w == Yes), "nearlyEqualsRel");
    c.check(g3::nearlyEquals(t, r, tol) == (w == Yes), "nearlyEquals(double)");
    if (dflt) c.check(g3::nearlyEquals(t, r) == (w == Yes), "nearlyEquals(double) default tolerance");
    if (dflt) c.check(g3::nearlyEqualsRel(t, r) == (w == Yes), "nearlyEqualsRel default tolerance");
  }
  // absolute comparison
  double aa = r, bb = t;
  Tri wa = No;
  if (okNum(aa) && okNum(bb)) {
    LD df = std::fabs((LD)bb - aa);
    wa = thresh(df, tol, 4 * kEps * df);
  }
  if (wa != Skip) {
    c.check(g3::nearlyEqualsAbs(bb, aa, tol) == (wa == Yes), "nearlyEqualsAbs");
    if (dflt) c.check(g3::nearlyEqualsAbs(bb, aa) == (wa == Yes), "nearlyEqualsAbs default tolerance");
  }
  c.check(g3::nearlyEquals(true, t == r) == (t == r), "nearlyEquals(bool)");
}
void property(Ctx &c) {
  static Rng const rgs[4] = {{-6, 6, -60, 60, true}, {-6, 6, -60, 60, true}, {-138, 138, -138, 138, true}, {-300, 300, -300, 300, true}};
  Gen g(c, rgs[c.draw(4)]);
  size_t k = g.pick(20);
  if (k < 4)
    doubles(c, g);
  else if (k == 4)
    switch (g.pick(5)) {
    case 0: arrays<1>(c, g); break;
    case 1: arrays<2>(c, g); break;
    case 2: arrays<3>(c, g); break;
    case 3: arrays<4>(c, g); break;
    default: arrays<8>(c, g);
    }
  else {
    size_t i = g.pick(9);
    withType(i, All9{}, [&](auto t) { one<typename decltype(t)::type>(c, g); });
  }
}
