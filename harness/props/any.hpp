// Values of any of the ten operand types, with each operator compiled once per
// type combination.
#pragma once
#include "../gen.hpp"
#include <variant>
namespace vt {
typedef std::variant<g3::Scalar, g3::Vector, g3::BiVector, g3::TriVector, g3::Spinor, g3::ImSpin,
                     g3::ComPlex, g3::DirPlex, g3::MultiVector, double>
    Any;
// one compiled product per ordered type pair, result in its native type
inline Any mul(Any const &x, Any const &y) {
  return std::visit([](auto const &p, auto const &q) -> Any { return p * q; }, x, y);
}
inline Any promote(Any const &x) {
  return std::visit([](auto const &p) -> Any { return g3::MultiVector(p); }, x);
}
template <class F> inline Any sameType(Any const &x, Any const &y, F const &f) {
  Any out = 0.;
  std::visit(
      [&](auto const &p) { out = f(p, std::get<std::decay_t<decltype(p)>>(y)); }, x);
  return out;
}
inline Any sum(Any const &x, Any const &y, bool minus) {
  if (x.index() != y.index()) return sum(promote(x), promote(y), minus);
  return sameType(x, y, [&](auto const &p, auto const &q) -> Any {
    if (minus) return p - q;
    return p + q;
  });
}
inline std::string sAny(Any const &v) {
  return std::visit([](auto const &x) { return str(x); }, v);
}
inline D8 dAny(Any const &v) {
  return std::visit([](auto const &x) { return d8(x); }, v);
}
inline char const *nAny(Any const &v) {
  return std::visit([](auto const &x) { return Nm<std::decay_t<decltype(x)>>::s; }, v);
}
inline Any anyItem(Gen &g, size_t i) {
  Any out = 0.;
  withType(i, All10{}, [&](auto t) { out = g.template item<typename decltype(t)::type>(); });
  return out;
}
} // namespace vt
