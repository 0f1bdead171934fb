// A uniform table of calls into the public API: each call takes the same plain
// inputs (three component octets and a double) and yields numbers and text.
#pragma once
#include "addsub.hpp"
#include <sstream>
namespace vt {
struct In {
  D8 a, b, c;
  double s;
  uint64_t skip; // bit k: leave out step k of a call with several steps
};
// the steps of a call: any of them may be left out, so that each is also made without the others around it
struct Steps {
  uint64_t m;
  explicit Steps(In const &i) : m(i.skip) {}
  bool operator()() {
    bool const r = !(m & 1);
    m >>= 1;
    return r;
  }
};
struct Out {
  std::vector<double> n;
  std::string t;
  bool operator==(Out const &o) const {
    if (t != o.t || n.size() != o.n.size()) return false;
    for (size_t i = 0; i < n.size(); ++i)
      if (bitsOf(n[i]) != bitsOf(o.n[i]) && !(n[i] != n[i] && o.n[i] != o.n[i])) return false;
    return true;
  }
};
inline void put(Out &o, D8 const &d) { o.n.insert(o.n.end(), d.begin(), d.end()); }
inline void put(Out &o, double d) { o.n.push_back(d); }
inline void put(Out &o, bool b) { o.n.push_back(b); }
struct Call {
  std::string name;
  Out (*run)(In const &);
};
template <class A, class B> Out runMul(In const &i) {
  Out o;
  put(o, d8(fromD8<A>(i.a) * fromD8<B>(i.b)));
  return o;
}
template <class A, class B> Out runAdd(In const &i) {
  Out o;
  Steps st(i);
  if (st()) put(o, d8(g3::MultiVector(fromD8<A>(i.a)) + g3::MultiVector(fromD8<B>(i.b))));
  if (st()) put(o, d8(g3::MultiVector(fromD8<A>(i.a)) - g3::MultiVector(fromD8<B>(i.b))));
  if constexpr (addable<A, B>()) {
    if (st()) put(o, d8(fromD8<A>(i.a) + fromD8<B>(i.b)));
    if (st()) put(o, d8(fromD8<A>(i.a) - fromD8<B>(i.b)));
  }
  return o;
}
template <class T> Out runUni(In const &i) {
  Out o;
  Steps st(i);
  T x = fromD8<T>(i.a);
  if (st()) put(o, d8(-x));
  if (st()) put(o, d8(reverse(x)));
  if (st()) put(o, d8(oddverse(x)));
  if (st()) put(o, d8(dirverse(x)));
  if (st()) put(o, d8(g3::dual(x)));
  if (st()) put(o, d8(x + fromD8<T>(i.b)));
  if (st()) put(o, d8(x - fromD8<T>(i.b)));
  return o;
}
template <class T> Out runMag(In const &i) {
  Out o;
  Steps st(i);
  T x = fromD8<T>(i.a);
  if (st()) put(o, g3::magSq(x));
  if (st()) put(o, g3::magnitude(x));
  if (st()) {
    auto p = g3::pairMagDirFrom(x);
    put(o, p.first), put(o, d8(p.second));
  }
  if (st()) put(o, d8(g3::direction(x)));
  if (st()) put(o, d8(g3::ampSq(x)));
  if (st()) put(o, d8(g3::amplitude(x)));
  if (st()) put(o, g3::isValid(x));
  return o;
}
template <class T> Out runCmp(In const &i) {
  Out o;
  Steps st(i);
  T x = fromD8<T>(i.a), y = fromD8<T>(i.b);
  if (st()) put(o, g3::nearlyEquals(x, y));
  if (st()) put(o, g3::nearlyEquals(x, y, i.s));
  if (st()) put(o, g3::nearlyEquals(x, x));
  return o;
}
template <class T> Out runText(In const &i) {
  Out o;
  Steps st(i);
  T x = fromD8<T>(i.a), y = fromD8<T>(i.b);
  std::ostringstream s;
  s << x << " ";
  if (st()) s << y;
  o.t = s.str();
  if (st()) {
    std::istringstream is(o.t);
    T r = g3::null<T>();
    is >> r;
    put(o, d8(r)), put(o, is.fail());
  }
  if constexpr (!std::is_same_v<T, g3::ComPlex> && !std::is_same_v<T, g3::DirPlex>)
  {
    if (st()) o.t += g3::io::fixed(x);
    if (st()) o.t += g3::io::enote(x);
    if (st()) o.t += g3::io::fixed(y, 2, 4);
    if (st()) o.t += g3::io::enote(y, 3);
  }
  return o;
}
inline Out runInvBlade(In const &i) {
  Out o;
  Steps st(i);
  if (st()) put(o, d8(g3::inverse(fromD8<g3::Scalar>(i.a))));
  if (st()) put(o, d8(g3::inverse(fromD8<g3::Vector>(i.a))));
  if (st()) put(o, d8(g3::inverse(fromD8<g3::BiVector>(i.a))));
  if (st()) put(o, d8(g3::inverse(fromD8<g3::TriVector>(i.a))));
  return o;
}
inline Out runInv(In const &i) {
  Out o;
  Steps st(i);
  if (st()) put(o, d8(g3::inverse<g3::ComPlex>(fromD8<g3::ComPlex>(i.a))));
  if (st()) put(o, d8(g3::inverse<g3::MultiVector>(fromD8<g3::MultiVector>(i.a))));
  return o;
}
inline Out runExp(In const &i) {
  Out o;
  Steps st(i);
  if (st()) put(o, d8(g3::exp(fromD8<g3::BiVector>(i.a))));
  if (st()) put(o, d8(g3::exp(fromD8<g3::Spinor>(i.a))));
  return o;
}
inline Out runExpMv(In const &i) {
  Out o;
  put(o, d8(g3::exp(fromD8<g3::MultiVector>(i.a))));
  return o;
}
inline Out runLog(In const &i) {
  Out o;
  Steps st(i);
  g3::Spinor x = fromD8<g3::Spinor>(i.a);
  if (st()) put(o, d8(g3::logG2(x)));
  if (st()) put(o, d8(g3::logG2(x, fromD8<g3::BiVector>(i.b))));
  return o;
}
inline Out runSqrt(In const &i) {
  Out o;
  Steps st(i);
  g3::Spinor x = fromD8<g3::Spinor>(i.a);
  if (st()) put(o, d8(g3::sqrtG2(x)));
  if (st()) put(o, d8(g3::sqrtG2(x, fromD8<g3::BiVector>(i.b))));
  return o;
}
inline Out runSq(In const &i) {
  Out o;
  Steps st(i);
  if (st()) put(o, g3::sq(i.s));
  if (st()) put(o, g3::cube(i.s));
  if (st()) put(o, d8(g3::sq(fromD8<g3::Spinor>(i.a))));
  if (st()) put(o, d8(g3::cube(fromD8<g3::MultiVector>(i.b))));
  if (st()) put(o, d8(g3::sq(fromD8<g3::ComPlex>(i.a))));
  return o;
}
inline Out runEq(In const &i) {
  Out o;
  Steps st(i);
  if (st()) put(o, fromD8<g3::Spinor>(i.a) == fromD8<g3::Spinor>(i.b));
  if (st()) put(o, fromD8<g3::Vector>(i.a) == fromD8<g3::Vector>(i.b));
  if (st()) put(o, fromD8<g3::MultiVector>(i.a) == fromD8<g3::MultiVector>(i.a));
  if (st()) put(o, fromD8<g3::ImSpin>(i.a) == fromD8<g3::ImSpin>(i.c));
  if (st()) put(o, g3::nearlyEquals(i.a[0], i.b[0], i.s));
  if (st()) put(o, g3::nearlyEqualsAbs(i.a[0], i.b[0], i.s));
  return o;
}
inline Out runConst(In const &i) {
  Out o;
  Steps st(i);
  if (st()) put(o, d8(g3::e0));
  if (st()) put(o, d8(g3::e1));
  if (st()) put(o, d8(g3::e2));
  if (st()) put(o, d8(g3::e3));
  if (st()) put(o, d8(g3::e23));
  if (st()) put(o, d8(g3::e31));
  if (st()) put(o, d8(g3::e12));
  if (st()) put(o, d8(g3::e123));
  if (st()) put(o, d8(g3::zero<g3::MultiVector>()));
  if (st()) put(o, d8(g3::one<g3::Spinor>()));
  if (st()) put(o, d8(g3::null<g3::DirPlex>()));
  if (st()) put(o, fromD8<g3::Vector>(i.a)[5]);
  if (st()) put(o, fromD8<g3::Spinor>(i.a)[2]);
  if (st()) put(o, d8(g3::ComPlex::from(std::complex<double>(i.a[0], i.a[7]))));
  return o;
}
// digits to ask for: mostly common, sometimes many
inline size_t digits(double d, size_t top) {
  uint64_t h = bitsOf(d);
  h ^= h >> 33, h *= 0xff51afd7ed558ccdULL, h ^= h >> 33;
  return h % 3 ? h / 3 % 9 : h / 3 % top;
}
template <class T> Out runFormat(In const &i) {
  Out o;
  Steps st(i);
  T x = fromD8<T>(i.a);
  size_t m = digits(i.s, 12), n = digits(i.b[0], 40);
  if constexpr (!std::is_same_v<T, g3::ComPlex> && !std::is_same_v<T, g3::DirPlex>) {
    if (st()) o.t += g3::io::fixed(x, m, n);
    if (st()) o.t += g3::io::enote(x, n);
  }
  if constexpr (std::is_same_v<T, double>) {
    if (st()) o.t += g3::io::fixed(x);
    if (st()) o.t += g3::io::enote(x);
  }
  return o;
}
// read from text which holds too little, or something else
template <class T> Out runRead(In const &i) {
  Out o;
  std::ostringstream s;
  s.precision(17);
  size_t n = digits(i.s, 12);
  for (size_t k = 0; k < n; ++k) s << i.b[k % 8] << ' ';
  if (digits(i.b[1], 5) == 0) s << "x 1 2 3";
  std::istringstream is(s.str());
  T r = fromD8<T>(i.a);
  is >> r;
  put(o, d8(r)), put(o, is.fail()), put(o, is.eof());
  return o;
}
template <class T> Out runItem(In const &i) {
  Out o;
  Steps st(i);
  T const x = fromD8<T>(i.a), y = fromD8<T>(i.b);
  if constexpr (!std::is_same_v<T, g3::ComPlex> && !std::is_same_v<T, g3::DirPlex>) {
    if (st()) put(o, x == y);
    if (st()) put(o, x == x);
  }
  if (st()) put(o, g3::isValid(x));
  for (size_t k = 0; k < 9; ++k) if (st()) put(o, x[k]);
  if (st()) put(o, d8(g3::zero<T>()));
  if (st()) put(o, d8(g3::null<T>()));
  if constexpr (std::is_same_v<T, g3::Scalar> || std::is_same_v<T, g3::Spinor> || std::is_same_v<T, g3::ComPlex> ||
                std::is_same_v<T, g3::MultiVector>) {
    if (st()) put(o, d8(g3::sq(x)));
    if (st()) put(o, d8(g3::cube(x)));
  }
  return o;
}
inline Out runDouble(In const &i) {
  Out o;
  Steps st(i);
  double const x = i.a[0], y = i.b[0];
  if (st()) put(o, g3::isValid(x));
  if (st()) put(o, g3::isValid(i.s));
  if (st()) put(o, g3::reverse(x));
  if (st()) put(o, d8(g3::dual(x)));
  if (st()) put(o, g3::magSq(x));
  if (st()) put(o, g3::nearlyEquals(x, y));
  if (st()) put(o, g3::nearlyEqualsAbs(x, y));
  if (st()) put(o, g3::nearlyEqualsRel(x, y));
  if (st()) put(o, g3::nearlyEqualsRel(x, y, i.s));
  if (st()) put(o, g3::zero<double>());
  if (st()) put(o, g3::null<double>());
  return o;
}
inline Out runChain(In const &i) { // an everyday expression: rotate, reflect, compare
  Out o;
  Steps st(i);
  g3::Spinor const R = g3::exp(.5 * fromD8<g3::BiVector>(i.a));
  g3::Vector const x = fromD8<g3::Vector>(i.b), n = g3::direction(fromD8<g3::Vector>(i.c));
  if (st()) put(o, d8(R * x * g3::reverse(R)));
  if (st()) put(o, d8(n * x * n));
  if (st()) put(o, d8(g3::sqrtG2(n * x)));
  if (st()) put(o, d8(g3::exp(g3::logG2(R))));
  return o;
}
#ifdef VT_LIB
inline Out runVersion(In const &i) {
  Out o;
  Steps st(i);
  if (st()) o.t += engabra::projectVersion() + "|";
  if (st()) o.t += engabra::sourceIdentity();
  return o;
}
#endif
inline std::vector<Call> const &calls() {
  static std::vector<Call> const v = [] {
    std::vector<Call> r;
    for (size_t i = 0; i < 10; ++i)
      for (size_t j = 0; j < 10; ++j)
        withType(i, All10{}, [&](auto ta) {
          typedef typename decltype(ta)::type A;
          withType(j, All10{}, [&](auto tb) {
            typedef typename decltype(tb)::type B;
            if constexpr (!(std::is_same_v<A, double> && std::is_same_v<B, double>))
              r.push_back({std::string(Nm<A>::s) + "*" + Nm<B>::s, runMul<A, B>});
            r.push_back({std::string(Nm<A>::s) + "+-" + Nm<B>::s, runAdd<A, B>});
          });
        });
    for (int rep = 0; rep < 3; ++rep)
      for (size_t i = 0; i < 9; ++i)
        withType(i, All9{}, [&](auto t) {
          typedef typename decltype(t)::type T;
          std::string n = Nm<T>::s;
          r.push_back({"unary ops " + n, runUni<T>});
          r.push_back({"magnitudes " + n, runMag<T>});
          r.push_back({"comparisons " + n, runCmp<T>});
          r.push_back({"text " + n, runText<T>});
          r.push_back({"format " + n, runFormat<T>});
          r.push_back({"read " + n, runRead<T>});
          r.push_back({"item " + n, runItem<T>});
        });
    for (int rep = 0; rep < 8; ++rep) {
      r.push_back({"inverse(blades)", runInvBlade});
      r.push_back({"inverse", runInv});
      r.push_back({"exp", runExp});
      r.push_back({"exp(MultiVector)", runExpMv});
      r.push_back({"logG2", runLog});
      r.push_back({"sqrtG2", runSqrt});
      r.push_back({"sq/cube", runSq});
      r.push_back({"==", runEq});
      r.push_back({"constants", runConst});
      r.push_back({"rotate/reflect", runChain});
      r.push_back({"format double", runFormat<double>});
      r.push_back({"double", runDouble});
#ifdef VT_LIB
      if (rep < 4) r.push_back({"version", runVersion});
#endif
    }
    return r;
  }();
  return v;
}
// inputs on which the library's functions take their special branches
inline void special(Gen &g, In &i) {
  D8 &d = g.pick(4) ? i.a : i.b;
  switch (g.pick(10)) {
  case 0:   // half turn, exact
  case 1: { // half turn, within rounding
    double const m = g.positive();
    d = {-m, 0, 0, 0, 0, 0, 0, 0};
    if (g.pick(2)) d[4 + g.pick(3)] = m * g.mag(-17, -7);
    if (g.pick(3) == 0) {
      D8 &plane = &d == &i.a ? i.b : i.a;
      double const v = g.pick(2) ? 0. : g3::nan;
      plane[4] = v;
      if (g.pick(4)) plane[5] = plane[6] = v;
    }
    break;
  }
  case 2: { // no rotation
    double const m = g.positive();
    d = {m, 0, 0, 0, 0, 0, 0, 0};
    if (g.pick(2)) d[4 + g.pick(3)] = m * g.mag(-17, -7);
    break;
  }
  case 3: // zero in some or all grades
    for (size_t k = 0, m = g.pick(16) | 1; k < 8; ++k)
      if (m >> (k == 0 ? 0 : k < 4 ? 1 : k < 7 ? 2 : 3) & 1) d[k] = 0.;
    if (g.pick(2)) d = D8{};
    break;
  case 4: d[g.pick(8)] = NAN; break;
  case 5: d.fill(NAN); break;
  case 6: { // zero amplitude
    double const m = g.num();
    d = {m, m, 0, 0, 0, 0, 0, 0};
    if (g.pick(2)) d = {0, m, 0, 0, 0, 0, m, 0};
    break;
  }
  case 7: d[g.pick(8)] = g.pick(2) ? INFINITY : -INFINITY; break;
  case 8: // small directed part
    for (size_t k = 1; k < 7; ++k) d[k] *= 1e-5;
    break;
  default: // too small to be normal, or tiny
    for (double &x : d) x *= g.pick(2) ? 1e-312 : 1e-160;
  }
}
inline In genIn(Gen &g) {
  In i;
  i.a = g.octet();
  i.b = g.pick(4) == 0 ? i.a : g.octet();
  i.c = g.pick(3) == 0 ? i.b : g.octet();
  i.s = g.num();
  switch (g.pick(4)) {
  case 2: i.skip = g.pick(1u << 12); break;
  case 3: {
    uint64_t const p = 2 + g.pick(5), k = g.pick(p);
    i.skip = ~0ull;
    for (uint64_t b = k; b < 64; b += p) i.skip &= ~(1ull << b);
    break;
  }
  default: i.skip = 0;
  }
  if (g.pick(6) == 0) special(g, i);
  return i;
}
// size of the call table without the repeats used for weighting
} // namespace vt
