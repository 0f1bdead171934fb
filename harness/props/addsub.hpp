// documented sum/difference pairs (beyond the nine same-type ones): lower index first
#pragma once
#include "../gen.hpp"
namespace vt {
template <class A, class B> constexpr bool pairHalf() {
  using namespace engabra::g3;
#define P(X, Y) (std::is_same_v<A, X> && std::is_same_v<B, Y>)
  return P(Scalar, BiVector) || P(Scalar, TriVector) || P(Scalar, Spinor) || P(Scalar, ComPlex) ||
         P(Scalar, MultiVector) || P(Vector, BiVector) || P(Vector, TriVector) || P(Vector, ImSpin) ||
         P(Vector, DirPlex) || P(Vector, MultiVector) || P(BiVector, Spinor) || P(BiVector, DirPlex) ||
         P(BiVector, MultiVector) || P(TriVector, ImSpin) || P(TriVector, ComPlex) ||
         P(TriVector, MultiVector) || P(Spinor, ImSpin) || P(Spinor, MultiVector) ||
         P(ImSpin, MultiVector) || P(ComPlex, DirPlex) || P(ComPlex, MultiVector) ||
         P(DirPlex, MultiVector);
#undef P
}
template <class A, class B> constexpr bool addable() {
  return std::is_same_v<A, B> || pairHalf<A, B>() || pairHalf<B, A>();
}
// 9 + 2*22 = 53 ordered pairs
template <class F> inline void withAddPair(size_t ia, size_t ib, F const &f) {
  withType(ia, All9{}, [&](auto ta) {
    typedef typename decltype(ta)::type A;
    withType(ib, All9{}, [&](auto tb) {
      typedef typename decltype(tb)::type B;
      if constexpr (addable<A, B>()) f(Tag<A>{}, Tag<B>{});
    });
  });
}
struct PairIx {
  size_t a, b;
};
inline std::vector<PairIx> const &addPairs() {
  static std::vector<PairIx> const v = [] {
    std::vector<PairIx> r;
    for (size_t i = 0; i < 9; ++i)
      for (size_t j = 0; j < 9; ++j) withAddPair(i, j, [&](auto, auto) { r.push_back({i, j}); });
    return r;
  }();
  return v;
}
} // namespace vt
