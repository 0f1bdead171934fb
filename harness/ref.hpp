// Independent reference: Clifford algebra Cl(3,0) from the axioms alone.
// A blade is a bit mask over {e1,e2,e3}; the product of two blades is the xor of
// the masks with the sign of the permutation (every basis vector squares to +1).
// Coefficients are long double (64 bit mantissa), so the reference's own
// rounding is ~2000 times smaller than the tolerance granted to the library.
#pragma once
#include <array>
#include <cmath>
#include <complex>
#include <cstddef>
#include <string>

namespace ref {

typedef long double LD;

// index in documented component order {1,e1,e2,e3,e23,e31,e12,e123}
struct Basis {
  int mask;
  int sign; // sign relative to the ascending-order blade of that mask
};
inline constexpr Basis kBasis[8] = {{0, 1}, {1, 1}, {2, 1}, {4, 1},
                                    {6, 1}, {5, -1}, {3, 1}, {7, 1}};
inline constexpr int kGrade[8] = {0, 1, 1, 1, 2, 2, 2, 3};

inline int permSign(int a, int b) {
  // number of transpositions to sort the concatenation of blades a and b
  int n = 0;
  for (int i = 0; i < 3; ++i)
    if (b & (1 << i))
      for (int j = i + 1; j < 3; ++j)
        if (a & (1 << j)) ++n;
  return (n & 1) ? -1 : 1;
}

struct Table {
  int idx[8][8];
  int sgn[8][8];
  Table() {
    int pos[8];
    for (int i = 0; i < 8; ++i) pos[kBasis[i].mask] = i;
    for (int i = 0; i < 8; ++i)
      for (int j = 0; j < 8; ++j) {
        int m = kBasis[i].mask ^ kBasis[j].mask;
        int k = pos[m];
        idx[i][j] = k;
        sgn[i][j] = kBasis[i].sign * kBasis[j].sign *
                    permSign(kBasis[i].mask, kBasis[j].mask) * kBasis[k].sign;
      }
  }
};
inline Table const &table() {
  static Table const t;
  return t;
}

struct M {
  std::array<LD, 8> c{};
  LD &operator[](int i) { return c[i]; }
  LD operator[](int i) const { return c[i]; }
};
__attribute__((noinline)) inline M scalar(LD s) {
  M m;
  m[0] = s;
  return m;
}
__attribute__((noinline)) inline M operator+(M const &a, M const &b) {
  M r;
  for (int i = 0; i < 8; ++i) r[i] = a[i] + b[i];
  return r;
}
__attribute__((noinline)) inline M operator-(M const &a, M const &b) {
  M r;
  for (int i = 0; i < 8; ++i) r[i] = a[i] - b[i];
  return r;
}
__attribute__((noinline)) inline M operator*(LD s, M const &b) {
  M r;
  for (int i = 0; i < 8; ++i) r[i] = s * b[i];
  return r;
}
__attribute__((noinline)) inline M operator*(M const &a, M const &b) {
  M r;
  Table const &t = table();
  for (int i = 0; i < 8; ++i)
    for (int j = 0; j < 8; ++j) r[t.idx[i][j]] += t.sgn[i][j] * a[i] * b[j];
  return r;
}
// sum of absolute values of the terms that make up each component of a*b
__attribute__((noinline)) inline M absProd(M const &a, M const &b) {
  M r;
  Table const &t = table();
  for (int i = 0; i < 8; ++i)
    for (int j = 0; j < 8; ++j) r[t.idx[i][j]] += std::fabs(a[i] * b[j]);
  return r;
}
__attribute__((noinline)) inline M absM(M const &a) {
  M r;
  for (int i = 0; i < 8; ++i) r[i] = std::fabs(a[i]);
  return r;
}
__attribute__((noinline)) inline M gradeSign(M const &a, int s0, int s1, int s2, int s3) {
  int s[4] = {s0, s1, s2, s3};
  M r;
  for (int i = 0; i < 8; ++i) r[i] = s[kGrade[i]] * a[i];
  return r;
}
__attribute__((noinline)) inline M neg(M const &a) { return gradeSign(a, -1, -1, -1, -1); }
__attribute__((noinline)) inline M reverse(M const &a) { return gradeSign(a, 1, 1, -1, -1); }
__attribute__((noinline)) inline M oddverse(M const &a) { return gradeSign(a, 1, -1, 1, -1); }
__attribute__((noinline)) inline M dirverse(M const &a) { return gradeSign(a, 1, -1, -1, 1); }
__attribute__((noinline)) inline M unitTri() {
  M m;
  m[7] = 1;
  return m;
}
__attribute__((noinline)) inline M dual(M const &a) { return unitTri() * a; }
__attribute__((noinline)) inline LD magSq(M const &a) {
  LD s = 0;
  for (int i = 0; i < 8; ++i) s += a[i] * a[i];
  return s;
}
__attribute__((noinline)) inline LD mag(M const &a) { return std::sqrt(magSq(a)); }
__attribute__((noinline)) inline LD maxAbs(M const &a) {
  LD s = 0;
  for (int i = 0; i < 8; ++i) s = std::max(s, std::fabs(a[i]));
  return s;
}
// exp by scaling and squaring of the Taylor series, in long double
__attribute__((noinline)) inline M expM(M const &a) {
  LD n = mag(a);
  int k = 0;
  while (n > 0.5L) n /= 2, ++k;
  M x = std::ldexp(1.0L, -k) * a;
  M term = scalar(1), sum = scalar(1);
  for (int i = 1; i < 30; ++i) {
    term = (1.0L / i) * (term * x);
    sum = sum + term;
  }
  for (int i = 0; i < k; ++i) sum = sum * sum;
  return sum;
}

} // namespace ref
