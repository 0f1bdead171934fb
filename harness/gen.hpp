// Adversarial generators over choice tapes, and adapters between the library's
// public types and the reference algebra.  Only the public API is used.
#pragma once
#include "engabra.hpp"

#include "engine.hpp"
#include "ref.hpp"

#include <limits>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>

namespace g3 = engabra::g3;
using ref::LD;
using ref::M;

namespace vt {

#define VT_NOINLINE __attribute__((noinline))
constexpr double kEps = std::numeric_limits<double>::epsilon();

// ---------------------------------------------------------------- adapters
template <class T> struct Nm;
#define VT_NAME(T)                                                                                \
  template <> struct Nm<g3::T> {                                                                  \
    static constexpr char const *s = #T;                                                          \
  };
VT_NAME(Scalar)
VT_NAME(Vector)
VT_NAME(BiVector)
VT_NAME(TriVector)
VT_NAME(Spinor)
VT_NAME(ImSpin)
VT_NAME(ComPlex)
VT_NAME(DirPlex)
VT_NAME(MultiVector)
#undef VT_NAME
template <> struct Nm<double> {
  static constexpr char const *s = "double";
};

// which of the 8 documented components a type stores
template <class T> struct Has;
#define VT_HAS(T, a, b, c, d)                                                                     \
  template <> struct Has<T> {                                                                     \
    static constexpr bool g[4] = {a, b, c, d};                                                    \
  };
VT_HAS(double, true, false, false, false)
VT_HAS(g3::Scalar, true, false, false, false)
VT_HAS(g3::Vector, false, true, false, false)
VT_HAS(g3::BiVector, false, false, true, false)
VT_HAS(g3::TriVector, false, false, false, true)
VT_HAS(g3::Spinor, true, false, true, false)
VT_HAS(g3::ImSpin, false, true, false, true)
VT_HAS(g3::ComPlex, true, false, false, true)
VT_HAS(g3::DirPlex, false, true, true, false)
VT_HAS(g3::MultiVector, true, true, true, true)
#undef VT_HAS

typedef std::array<double, 8> D8;

inline D8 d8(double const &x) { return {x, 0, 0, 0, 0, 0, 0, 0}; }
inline D8 d8(g3::Scalar const &x) { return {x.theData[0], 0, 0, 0, 0, 0, 0, 0}; }
inline D8 d8(g3::Vector const &x) {
  return {0, x.theData[0], x.theData[1], x.theData[2], 0, 0, 0, 0};
}
inline D8 d8(g3::BiVector const &x) {
  return {0, 0, 0, 0, x.theData[0], x.theData[1], x.theData[2], 0};
}
inline D8 d8(g3::TriVector const &x) { return {0, 0, 0, 0, 0, 0, 0, x.theData[0]}; }
inline D8 d8(g3::Spinor const &x) {
  auto const &b = x.theBiv.theData;
  return {x.theSca.theData[0], 0, 0, 0, b[0], b[1], b[2], 0};
}
inline D8 d8(g3::ImSpin const &x) {
  auto const &v = x.theVec.theData;
  return {0, v[0], v[1], v[2], 0, 0, 0, x.theTri.theData[0]};
}
inline D8 d8(g3::ComPlex const &x) {
  return {x.theSca.theData[0], 0, 0, 0, 0, 0, 0, x.theTri.theData[0]};
}
inline D8 d8(g3::DirPlex const &x) {
  auto const &v = x.theVec.theData;
  auto const &b = x.theBiv.theData;
  return {0, v[0], v[1], v[2], b[0], b[1], b[2], 0};
}
inline D8 d8(g3::MultiVector const &x) {
  auto const &v = x.theVec.theData;
  auto const &b = x.theBiv.theData;
  return {x.theSca.theData[0], v[0], v[1], v[2], b[0], b[1], b[2], x.theTri.theData[0]};
}

inline M toM(D8 const &d) {
  M m;
  for (int i = 0; i < 8; ++i) m[i] = d[i];
  return m;
}
template <class T> inline M toM(T const &x) { return toM(d8(x)); }

// build a T from the documented component order (absent grades ignored)
template <class T> inline T fromD8(D8 const &d);
template <> inline double fromD8<double>(D8 const &d) { return d[0]; }
template <> inline g3::Scalar fromD8<g3::Scalar>(D8 const &d) {
  g3::Scalar x;
  x.theData = {d[0]};
  return x;
}
template <> inline g3::Vector fromD8<g3::Vector>(D8 const &d) {
  g3::Vector x;
  x.theData = {d[1], d[2], d[3]};
  return x;
}
template <> inline g3::BiVector fromD8<g3::BiVector>(D8 const &d) {
  g3::BiVector x;
  x.theData = {d[4], d[5], d[6]};
  return x;
}
template <> inline g3::TriVector fromD8<g3::TriVector>(D8 const &d) {
  g3::TriVector x;
  x.theData = {d[7]};
  return x;
}
template <> inline g3::Spinor fromD8<g3::Spinor>(D8 const &d) {
  return g3::Spinor{fromD8<g3::Scalar>(d), fromD8<g3::BiVector>(d)};
}
template <> inline g3::ImSpin fromD8<g3::ImSpin>(D8 const &d) {
  return g3::ImSpin{fromD8<g3::Vector>(d), fromD8<g3::TriVector>(d)};
}
template <> inline g3::ComPlex fromD8<g3::ComPlex>(D8 const &d) {
  return g3::ComPlex{fromD8<g3::Scalar>(d), fromD8<g3::TriVector>(d)};
}
template <> inline g3::DirPlex fromD8<g3::DirPlex>(D8 const &d) {
  return g3::DirPlex{fromD8<g3::Vector>(d), fromD8<g3::BiVector>(d)};
}
template <> inline g3::MultiVector fromD8<g3::MultiVector>(D8 const &d) {
  return g3::MultiVector{fromD8<g3::Scalar>(d), fromD8<g3::Vector>(d), fromD8<g3::BiVector>(d),
                         fromD8<g3::TriVector>(d)};
}

VT_NOINLINE inline std::string str(D8 const &d) {
  std::string s = "[";
  for (int i = 0; i < 8; ++i) s += (i ? "," : "") + num17(d[i]);
  return s + "]";
}
VT_NOINLINE inline std::string str(M const &m) {
  std::string s = "[";
  char b[64];
  for (int i = 0; i < 8; ++i) {
    std::snprintf(b, sizeof b, "%.20Lg", m[i]);
    s += (i ? "," : "") + std::string(b);
  }
  return s + "]";
}
template <class T> VT_NOINLINE inline std::string str(T const &x) {
  D8 d = d8(x);
  std::string s = std::string(Nm<T>::s) + "{";
  bool first = true;
  for (int i = 0; i < 8; ++i)
    if (Has<T>::g[ref::kGrade[i]]) {
      s += (first ? "" : ",") + num17(d[i]);
      first = false;
    }
  return s + "}";
}

// ---------------------------------------------------------------- numbers
// Range of decimal exponents for generated magnitudes.
struct Rng {
  double lo = -6, hi = 6;     // everyday magnitudes
  double wlo = -30, whi = 30; // occasional wide magnitudes
  bool zeros = true;
};

struct Gen {
  Ctx &c;
  Rng r;
  std::vector<double> hist; // values already used in this case
  explicit Gen(Ctx &cc, Rng rr = {}) : c(cc), r(rr) {}

  uint64_t pick(uint64_t n) {
    uint64_t v = c.draw(n);
    c.note(v);
    return v;
  }
  bool chance(uint64_t num, uint64_t den) { return pick(den) >= den - num; }
  double unit() { return (double)c.draw(1ull << 53) * 0x1p-53; }

  // positive magnitude 10^[a,b], fully random mantissa
  double mag(double a, double b) { return std::pow(10., a + (b - a) * unit()); }

  VT_NOINLINE double clampRange(double x) {
    double ax = std::fabs(x);
    if (x == 0) return r.zeros ? x : 1.;
    double lo = std::pow(10., r.wlo), hi = std::pow(10., r.whi);
    if (!(ax >= lo) || !(ax <= hi)) return std::copysign(1., x);
    return x;
  }
  static double ulps(double x, int k) {
    for (; k > 0; --k) x = std::nextafter(x, INFINITY);
    for (; k < 0; ++k) x = std::nextafter(x, -INFINITY);
    return x;
  }
  // 1, or close to 1 at a log-uniform distance
  VT_NOINLINE double tiltUp() {
    double t = c.draw(8) ? mag(-17, -1) : 0.;
    return c.draw(2) ? 1. - t : 1. + t;
  }
  VT_NOINLINE double raw() {
    switch (c.draw(14)) {
    case 0: return (double)((int)c.draw(7) - 3);                 // -3..3
    case 1: return ((int)c.draw(129) - 64) / 8.;                 // eighths
    case 2:
    case 3: return 2. * unit() - 1.;                             // [-1,1)
    case 4:
    case 5: return 20. * unit() - 10.;                           // [-10,10)
    case 6:
    case 7: {                                                    // everyday log-uniform
      double m = mag(r.lo, r.hi);
      return c.draw(2) ? -m : m;
    }
    case 8: {                                                    // wide log-uniform
      double m = mag(r.wlo, r.whi);
      return c.draw(2) ? -m : m;
    }
    case 9: {                                                    // powers of two
      double m = std::ldexp(1., (int)c.draw(81) - 40);
      return c.draw(2) ? -m : m;
    }
    case 10: {                                                   // +-1 and neighbours
      double m = ulps(1., (int)c.draw(9) - 4);
      return c.draw(2) ? -m : m;
    }
    case 11: {                                                   // multiples of pi/12, neighbours
      double m = ((int)c.draw(49) - 24) * (3.14159265358979323846 / 12.);
      return ulps(m, (int)c.draw(5) - 2);
    }
    case 12: {                                                   // literals in the code under test
      if (c.pool.empty()) return 1.;
      double m = c.pool[c.draw(c.pool.size())];
      switch (c.draw(4)) {
      case 0: break;
      case 1: m = ulps(m, (int)c.draw(5) - 2); break;
      case 2: m *= 1. + (2. * unit() - 1.); break;
      case 3: m = -m; break;
      }
      return m;
    }
    default: {                                                   // reuse
      if (hist.empty()) return c.draw(2) ? 1. : 0.;
      double m = hist[c.draw(hist.size())];
      switch (c.draw(6)) {
      case 0: return m;
      case 1: return -m;
      case 2: return ulps(m, (int)c.draw(3) - 1);
      case 3: return m * tiltUp();                             // close to it, at any distance
      case 4: return m * (c.draw(2) || c.pool.empty() ? mag(-18, 0) : c.pool[c.draw(c.pool.size())]);
      default: return m * ((int)c.draw(5) - 2);
      }
    }
    }
  }
  VT_NOINLINE double num() {
    double x = clampRange(raw());
    c.note(x);
    if (hist.size() < 64) hist.push_back(x);
    return x;
  }
  // any double: subnormal, infinite, not a number, signed zero, extremes, arbitrary bits
  VT_NOINLINE double special() {
    double x;
    switch (c.draw(10)) {
    case 0: x = 0.; break;
    case 1: x = -0.; break;
    case 2: x = INFINITY; break;
    case 3: x = -INFINITY; break;
    case 4: x = std::numeric_limits<double>::quiet_NaN(); break;
    case 5: x = std::numeric_limits<double>::denorm_min(); break;
    case 6: x = ulps(std::numeric_limits<double>::min(), (int)c.draw(5) - 2); break;
    case 7: x = std::numeric_limits<double>::max(); break;
    default: {
      uint64_t b = c.draw(1ull << 32) << 32 | c.draw(1ull << 32);
      std::memcpy(&x, &b, sizeof x);
      if (std::isnan(x)) x = std::numeric_limits<double>::quiet_NaN();
    }
    }
    if (c.draw(2)) x = -x;
    c.note(x);
    return x;
  }
  double nonzero() {
    double x = num();
    return x == 0 ? 1. : x;
  }
  double positive() { return std::fabs(nonzero()); }

  // a direction triple with structure
  VT_NOINLINE std::array<double, 3> triple() {
    std::array<double, 3> v;
    switch (pick(8)) {
    case 0: { // axis
      v = {0, 0, 0};
      v[c.draw(3)] = num();
      break;
    }
    case 1: { // equal components, or nearly
      double x = num();
      v = {x, x, x};
      if (c.draw(2)) v[c.draw(3)] = -x;
      if (c.draw(3) == 0) v[c.draw(3)] *= tiltUp();
      break;
    }
    case 2: { // one zero
      v = {num(), num(), num()};
      v[c.draw(3)] = c.draw(2) ? -0. : 0.;
      break;
    }
    case 3: { // unit length, generic
      v = unitTriple();
      break;
    }
    case 4: { // common scale
      double s = std::fabs(num());
      v = {s * (2 * unit() - 1), s * (2 * unit() - 1), s * (2 * unit() - 1)};
      for (double &x : v) x = clampRange(x);
      break;
    }
    case 5: { // one dominant component
      v = {2 * unit() - 1, 2 * unit() - 1, 2 * unit() - 1};
      v[c.draw(3)] *= mag(0, 8);
      for (double &x : v) x = clampRange(x);
      break;
    }
    default: v = {num(), num(), num()};
    }
    for (double x : v) c.note(x);
    return v;
  }
  VT_NOINLINE std::array<double, 3> unitTriple() {
    // rational-free, no rejection: spherical coordinates
    double z = 2 * unit() - 1, p = 2 * 3.14159265358979323846 * unit();
    double s = std::sqrt(std::max(0., 1 - z * z));
    std::array<double, 3> v{s * std::cos(p), s * std::sin(p), z};
    switch (c.draw(6)) {
    case 0: v = {1, 0, 0}; break;
    case 1: v = {0, 1, 0}; break;
    case 2: v = {0, 0, 1}; break;
    default: break;
    }
    for (double &x : v) x = clampRange(x);
    for (double x : v) c.note(x);
    return v;
  }
  // all eight components, with structure across grades
  VT_NOINLINE D8 octet() {
    D8 d;
    auto v = triple(), b = triple();
    d[0] = num();
    d[7] = num();
    switch (pick(8)) {
    case 0: b = v; break;                                  // parallel vector and plane
    case 1: b = {-v[0], -v[1], -v[2]}; break;
    case 2: {                                              // orthogonal
      auto w = triple();
      b = {v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]};
      for (double &x : b) x = clampRange(x);
      break;
    }
    case 3: b = {0, 0, 0}; break;
    case 4: v = {0, 0, 0}; break;
    case 5: {                                              // nearly parallel
      double t = mag(-17, -1);
      for (int i = 0; i < 3; ++i) b[i] = clampRange(v[i] * (1 + t * (2 * unit() - 1)));
      break;
    }
    default: break;
    }
    for (int i = 0; i < 3; ++i) d[1 + i] = v[i], d[4 + i] = b[i];
    switch (pick(10)) {
    case 0: d[0] = 0; break;
    case 1: d[7] = 0; break;
    case 2: d[7] = d[0]; break;
    case 3: d[0] = clampRange(std::hypot(v[0], v[1], v[2]) * tiltUp()); break;        // nearly null
    case 4: {                                                                         // equal sizes
      double vn = std::hypot(v[0], v[1], v[2]), bn = std::hypot(b[0], b[1], b[2]), k = vn / bn * tiltUp();
      if (bn > 0 && std::isfinite(k))
        for (int i = 4; i < 7; ++i) d[i] = clampRange(d[i] * k);
      break;
    }
    default: break;
    }
    for (double x : d) c.note(x);
    return d;
  }
  // any item, now and then scaled to a magnitude at or close to one
  template <class T> VT_NOINLINE T item() {
    if constexpr (std::is_same_v<T, double>)
      return plainItem<T>();
    else {
      T x = plainItem<T>();
      if (pick(12) == 0) {
        D8 d = d8(x);
        double n = 0;
        for (double v : d) n = std::hypot(n, v);
        if (n > 0 && std::isfinite(n) && std::isfinite(1 / n)) {
          double s = tiltUp();
          for (double &v : d) v = clampRange(v / n * s);
          for (double v : d) c.note(v);
          return fromD8<T>(d);
        }
      }
      return x;
    }
  }
  template <class T> VT_NOINLINE T plainItem() {
    if constexpr (std::is_same_v<T, double> || std::is_same_v<T, g3::Scalar> ||
                  std::is_same_v<T, g3::TriVector>) {
      D8 d{};
      d[0] = d[7] = num();
      return fromD8<T>(d);
    } else if constexpr (std::is_same_v<T, g3::Vector> || std::is_same_v<T, g3::BiVector>) {
      auto t = triple();
      D8 d{};
      for (int i = 0; i < 3; ++i) d[1 + i] = d[4 + i] = t[i];
      return fromD8<T>(d);
    } else if constexpr (std::is_same_v<T, g3::ComPlex>) {
      D8 d{};
      d[0] = num();
      d[7] = num();
      return fromD8<T>(d);
    } else if constexpr (std::is_same_v<T, g3::Spinor> || std::is_same_v<T, g3::ImSpin>) {
      D8 d{};
      auto t = triple();
      d[0] = d[7] = num();
      for (int i = 0; i < 3; ++i) d[1 + i] = d[4 + i] = t[i];
      return fromD8<T>(d);
    } else
      return fromD8<T>(octet());
  }
  // an item related to a previous one of (possibly) another type
  template <class T> VT_NOINLINE T related(D8 const &o) {
    D8 d = o;
    switch (pick(9)) {
    case 7:                                                      // close to it, or its negation
    case 8: {
      double t = mag(-17, -1) * (c.draw(2) ? 1 : -1);
      for (double &x : d) x = clampRange(x * (1 + t * (2 * unit() - 1)));
      if (c.draw(4) == 0)
        for (double &x : d) x = -x;
      break;
    }
    case 0: break;                                               // same components
    case 1: for (double &x : d) x = -x; break;                   // negated
    case 2: for (int i = 4; i < 8; ++i) d[i] = -d[i]; break;     // reversed
    case 3: for (int i = 1; i < 7; ++i) d[i] = -d[i]; break;     // dir-reversed
    case 4: {                                                    // dual-ish swap
      D8 e = d;
      for (int i = 0; i < 8; ++i) d[i] = e[7 - i];
      std::swap(d[1], d[3]), std::swap(d[4], d[6]);
      break;
    }
    case 5: {                                                    // scaled
      double s = nonzero();
      for (double &x : d) x = clampRange(x * s);
      break;
    }
    default: {                                                   // one component changed
      d[c.draw(8)] = num();
    }
    }
    // grades that the other type did not have may be zero: mirror them
    double any = 0;
    for (int i = 0; i < 8; ++i)
      if (Has<T>::g[ref::kGrade[i]]) any += std::fabs(d[i]);
    if (any == 0) return item<T>();
    for (double x : d) c.note(x);
    return fromD8<T>(d);
  }
};

// ---------------------------------------------------------------- oracles
// component-wise |got - want| <= k*eps*scale[i] (+ exact when scale is 0)
VT_NOINLINE inline void near8(Ctx &c, char const *what, D8 const &got, M const &want, M const &scale, LD k) {
  for (int i = 0; i < 8; ++i) {
    LD d = std::fabs((LD)got[i] - want[i]);
    LD lim = k * (LD)kEps * scale[i];
    bool ok = d <= lim; // false for NaN
    ++c.comparisons;
    if (!ok) {
      char b[512];
      std::snprintf(b, sizeof b,
                    "%s: component %d is %.17g, expected %.20Lg (difference %.3Lg, allowed %.3Lg)",
                    what, i, got[i], want[i], d, lim);
      c.fail(std::string(b) + " got=" + str(got) + " want=" + str(want));
    }
  }
}
VT_NOINLINE inline void nearS(Ctx &c, char const *what, double got, LD want, LD lim) {
  LD d = std::fabs((LD)got - want);
  ++c.comparisons;
  if (!(d <= lim)) {
    char b[400];
    std::snprintf(b, sizeof b, "%s: got %.17g expected %.20Lg (difference %.3Lg, allowed %.3Lg)",
                  what, got, want, d, lim);
    c.fail(b);
  }
}
VT_NOINLINE inline void exact8(Ctx &c, char const *what, D8 const &got, D8 const &want) {
  for (int i = 0; i < 8; ++i) {
    ++c.comparisons;
    if (!(got[i] == want[i])) {
      c.fail(std::string(what) + ": component " + std::to_string(i) + " is " + num17(got[i]) +
             ", expected exactly " + num17(want[i]) + " got=" + str(got) + " want=" + str(want));
    }
  }
}
VT_NOINLINE inline bool anyNonzero(D8 const &d) {
  for (double x : d)
    if (x != 0) return true;
  return false;
}
VT_NOINLINE inline int countNonzero(D8 const &d) {
  int n = 0;
  for (double x : d) n += x != 0;
  return n;
}

// run f with a type tag for index i of a type list
template <class... Ts> struct Types {
  static constexpr size_t n = sizeof...(Ts);
};
template <class T> struct Tag {
  typedef T type;
};
template <class F, class... Ts> inline void withType(size_t i, Types<Ts...>, F const &f) {
  size_t k = 0;
  ((k++ == i ? (void)f(Tag<Ts>{}) : (void)0), ...);
}
typedef Types<double, g3::Scalar, g3::Vector, g3::BiVector, g3::TriVector, g3::Spinor, g3::ImSpin,
              g3::ComPlex, g3::DirPlex, g3::MultiVector>
    All10;
typedef Types<g3::Scalar, g3::Vector, g3::BiVector, g3::TriVector, g3::Spinor, g3::ImSpin,
              g3::ComPlex, g3::DirPlex, g3::MultiVector>
    All9;
typedef Types<g3::Scalar, g3::Vector, g3::BiVector, g3::TriVector> Blades;

} // namespace vt
