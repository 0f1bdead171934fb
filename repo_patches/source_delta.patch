From 412c0ecac39d816fe5b858425899afcc60f03a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 1/9] fix: exp(BiVector) returned unity if a unit direction
 component underflows

The presence of a rotation was decided by isValid() of the unitary plane
direction. That direction has a subnormal (i.e. not 'valid') component when
components differ by more than ~300 orders of magnitude: e.g. result of
exp(BiVector{1.e-305, 1.e5, 0.}) was 1. Test the magnitude instead.
---
 include/g3func.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/g3func.hpp b/include/g3func.hpp
index 773a99d..3fc10ed 100644
--- a/include/g3func.hpp
+++ b/include/g3func.hpp
@@ -546,7 +546,7 @@ namespace g3
 				{ pairMagDirFrom(spinAngle) };
 			double const & mag = magdir.first;
 			BiVector const & dir = magdir.second;
-			if (isValid(dir))
+			if (0. < mag) // plane direction is defined
 			{
 				spin = Spinor{ std::cos(mag), std::sin(mag)*dir };
 			}
-- 
2.43.0


From f4bbf73bc8f38fb94aaaa737b99470640e2350f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 2/9] fix: isValid() of a blade ignored all components after
 the first

E.g. isValid(Vector{1., nan, nan}) returned true (and so did any composite
containing such blade), although g3validity.hpp documents that all component
values in an entity are tested.
---
 include/g3validity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/g3validity.hpp b/include/g3validity.hpp
index 99c3ef8..e6b25c3 100644
--- a/include/g3validity.hpp
+++ b/include/g3validity.hpp
@@ -121,7 +121,7 @@ namespace g3
 		( Blade const & blade
 		)
 	{
-		return isValid(blade.theData[0]); // test only first element for nan
+		return isValid(blade.theData); // test all elements
 	}
 
 	//! True if instance is not null - specialization for Spinor
-- 
2.43.0


From d1431f1052a6ba654a1bcb4384f7226dcffa7d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 3/9] fix: null<MultiVector>() was null only in its scalar
 grade

The generic template constructs MultiVector from a (nan) double and this sets
vector, bivector and trivector grades to zero, such that for example
isValid(null<MultiVector>().theVec) was true. Set all grades to null as is
done for every other type.
---
 include/g3const.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/g3const.hpp b/include/g3const.hpp
index d035c36..d810931 100644
--- a/include/g3const.hpp
+++ b/include/g3const.hpp
@@ -222,6 +222,20 @@ namespace g3
 		return DirPlex{ null<Vector>(), null<BiVector>() };
 	}
 
+	//! Null value - specialization for MultiVector
+	template <>
+	inline  // NOTE: can't be constexpr since MultiVector has ctors
+	MultiVector
+	null<MultiVector>()
+	{
+		return MultiVector
+			{ null<Scalar>()
+			, null<Vector>()
+			, null<BiVector>()
+			, null<TriVector>()
+			};
+	}
+
 	//
 	// Zero values
 	//
-- 
2.43.0


From 19154fe49210b25750f1df7c54740e3d234dadfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 4/9] fix: one<ImSpin>() and one<DirPlex>() returned the basis
 vector e1

The generic template aggregate-initialized the first vector component with
the value 1. These types have no scalar grade so their unit value is all zeros
as it is for one<Vector>() and one<BiVector>().
---
 include/g3const.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/g3const.hpp b/include/g3const.hpp
index d810931..91589c6 100644
--- a/include/g3const.hpp
+++ b/include/g3const.hpp
@@ -384,6 +384,26 @@ namespace g3
 		return BiVector{ zero<BiVector>() };
 	}
 
+	//! Unit value for imaginary spinor is all zeros (has no scalar grade)
+	template<>
+	inline
+	constexpr
+	ImSpin
+	one<ImSpin>()
+	{
+		return ImSpin{ zero<ImSpin>() };
+	}
+
+	//! Unit value for directed type is all zeros (has no scalar grade)
+	template<>
+	inline
+	constexpr
+	DirPlex
+	one<DirPlex>()
+	{
+		return DirPlex{ zero<DirPlex>() };
+	}
+
 	//! Unit value (identity multiplier)
 	template<>
 	inline
-- 
2.43.0


From 5aed63ee5f69605116ba7aefb81f8b5a9491acbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 5/9] fix: exp(MultiVector) wrote diagnostic text to std::cout

Remove left over development output: evaluating a function of the (header
only) library must not print into the standard output of the application.
---
 include/g3func.hpp | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/include/g3func.hpp b/include/g3func.hpp
index 3fc10ed..98ec346 100644
--- a/include/g3func.hpp
+++ b/include/g3func.hpp
@@ -644,9 +644,6 @@ namespace priv
 			double const apos{ sqrt(sq(a3m12) + sq(a2p13) + sq(a1m23)) };
 			double const aneg{ sqrt(sq(a3p12) + sq(a2m13) + sq(a1p23)) };
 
-std::cout << "apos: " << apos << std::endl;
-std::cout << "aneg: " << aneg << std::endl;
-
 			// evaluate result coefficients ([Dargys, Arturas] eqn 3.1)
 
 			// cosine function is well behaved including near zero
@@ -656,22 +653,11 @@ std::cout << "aneg: " << aneg << std::endl;
 			double const syncpos{ priv::sync(apos) };
 			double const syncneg{ priv::sync(aneg) };
 
-std::cout << "cospos: " << cospos << std::endl;
-std::cout << "cosneg: " << cosneg << std::endl;
-
-std::cout << "syncpos: " << syncpos << std::endl;
-std::cout << "syncneg: " << syncneg << std::endl;
-
 			// leading coefficients
 			double const hea0{ .5 * std::exp(a0) }; // half * e(a0)
 			double const epa123{ std::exp( a123) }; // e(+a123)
 			double const ena123{ std::exp(-a123) }; // e(-a123)
 
-std::cout << "hea0  : " << hea0 << std::endl;
-std::cout << "epa123: " << epa123 << std::endl;
-std::cout << "ena123: " << ena123 << std::endl;
-std::cout << " sum  : " << epa123 + ena123 << std::endl;
-
 			// evaluate the output components
 
 			// Note the special case evaluations could be slightly more
-- 
2.43.0


From 7c18b2a6135c9ed8b8c56f4c281614612ceced82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 6/9] fix: exp(MultiVector) values were wrong for all but
 special arguments

The formula used did not reproduce the exponential (e.g. exp(e123*pi) was not
-1, as already noted in its comments). Evaluate exp(C+D) = exp(C)*exp(D) with
commuting part, C, and directed part, D, where exp(D) follows from D*D being a
complex (Scalar+TriVector) value.
---
 include/g3func.hpp | 141 +++++++++++++--------------------------------
 1 file changed, 39 insertions(+), 102 deletions(-)

diff --git a/include/g3func.hpp b/include/g3func.hpp
index 98ec346..8c367b0 100644
--- a/include/g3func.hpp
+++ b/include/g3func.hpp
@@ -565,49 +565,18 @@ namespace g3
 		return { std::exp(someItem.theSca.theData[0]) * exp(someItem.theBiv) };
 	}
 
-namespace priv
-{
-
-	//! Evaluation of "sync(x)=sin(x)/x" - including limit case near zero
-	inline
-	double
-	sync
-		( double const & angle
-		)
-	{
-		double result{ g3::nan };
-
-		// use series expansion for sync function ((x-x^2/6+x^5/120)/x)
-		// residual (for alternating series) less than O(x^6),
-		// so to ~18 digits is about (1.e-3)^6.  Use 1.e-4 for safety
-		if (angle < 1.e-4)
-		{
-			// small angle: add from small to large
-			result = (sq(sq(angle))/120.  - sq(angle)/6.  + 1.);
-		}
-		else
-		{
-			// large angle: evaluate sync with std:: library functions
-			result = std::sin(angle) / angle;
-		}
-
-		return result;
-	}
-
-} // [priv]
-
-
 	/*! Exponential of general MultiVector element.
 	 *
-	 * Formula used is from:
-	 * \arg Dargys, Adolfas, Acus Arturas,
-	 * "Exponentials of general multivector (MV) in 3D Clifford algebras"
-	 * ArXiv:2104.01905v1, 18 Feb 2021
-	 * https://arxiv.org/pdf/2104.01905.pdf
+	 * The argument is split into the part which commutes with everything
+	 * and the directed part, A = C + D, with C=(A_0 + A_3), D=(A_1 + A_2),
+	 * such that exp(A) = exp(C) * exp(D).
 	 *
-* NOTE - ERROR - this paper seems to be wrong
-* For example; obvious in that b0, b123, do not reproduce (-1 == exp(I*pi))
+	 * The square of the directed part, D*D, is a ComPlex (Scalar+TriVector)
+	 * value that also commutes with everything. Designating its (complex)
+	 * square root as 'z', the exponential power series provides
+	 * \arg exp(D) = cosh(z) + (sinh(z)/z) * D
 	 *
+	 * Both factors are even functions of z (i.e. either root may be used).
 	 */
 	inline
 	MultiVector
@@ -619,69 +588,37 @@ namespace priv
 
 		if (isValid(someItem))
 		{
-			// NOTE: the algorithm [Dargys, Arturas] uses bivector
-			// decomposition with basis: E12, E23, E13
-			// This library uses: e23, e31, e12
-
-			// pull out components from input MV
-			double const a0  {  someItem[0] };
-			double const a1  {  someItem[1] };
-			double const a2  {  someItem[2] };
-			double const a3  {  someItem[3] };
-			double const a12 {  someItem[6] }; // e12
-			double const a13 { -someItem[5] }; // e31
-			double const a23 {  someItem[4] }; // e23
-			double const a123{  someItem[7] };
-
-			// evaluate scalar angles ([Dargys, Arturas] eqn 3.2)
-			double const a3m12{ a3 - a12 };
-			double const a3p12{ a3 + a12 };
-			double const a2m13{ a2 - a13 };
-			double const a2p13{ a2 + a13 };
-			double const a1m23{ a1 - a23 };
-			double const a1p23{ a1 + a23 };
-
-			double const apos{ sqrt(sq(a3m12) + sq(a2p13) + sq(a1m23)) };
-			double const aneg{ sqrt(sq(a3p12) + sq(a2m13) + sq(a1p23)) };
-
-			// evaluate result coefficients ([Dargys, Arturas] eqn 3.1)
-
-			// cosine function is well behaved including near zero
-			double const cospos{ std::cos(apos) }; // okay for 0==apos
-			double const cosneg{ std::cos(aneg) }; // okay for 0==aneg
-			// sync function (sin(x)/x) needs limiting case evaluation
-			double const syncpos{ priv::sync(apos) };
-			double const syncneg{ priv::sync(aneg) };
-
-			// leading coefficients
-			double const hea0{ .5 * std::exp(a0) }; // half * e(a0)
-			double const epa123{ std::exp( a123) }; // e(+a123)
-			double const ena123{ std::exp(-a123) }; // e(-a123)
-
-			// evaluate the output components
-
-			// Note the special case evaluations could be slightly more
-			// optimized, but simple code evaluation is preferred here.
-
-			double const b0  { epa123*cospos + ena123*cosneg };
-
-			double const b1{ epa123*(a1m23)*syncpos + ena123*(a1p23)*syncneg };
-			double const b2{ epa123*(a2p13)*syncpos + ena123*(a2m13)*syncneg };
-			double const b3{ epa123*(a3m12)*syncpos + ena123*(a3p12)*syncneg };
-
-			double const b12{-epa123*(a3m12)*syncpos + ena123*(a3p12)*syncneg};
-			double const b13{ epa123*(a2p13)*syncpos - ena123*(a2m13)*syncneg};
-			double const b23{-epa123*(a1m23)*syncpos + ena123*(a1p23)*syncneg};
-
-			double const b123{ epa123*cospos - ena123*cosneg };
-
-			// NOTE restore conventions on basis bivectors
-			// e23 :  b23
-			// e31 : -b13
-			// e12 :  b12
-			result = MultiVector{ b0, b1, b2, b3, b23, -b13, b12, b123 };
-			// apply overall scale factor
-			result = hea0 * result;
+			std::complex<double> const cPart
+				{ someItem.theSca.theData[0], someItem.theTri.theData[0] };
+			DirPlex const dPart{ someItem.theVec, someItem.theBiv };
+
+			// square of directed part (since dirverse(D) == -D)
+			ComPlex const dAmpSq{ ampSq(dPart) };
+			std::complex<double> const zSq
+				{ -dAmpSq.theSca.theData[0], -dAmpSq.theTri.theData[0] };
+
+			// evaluate cosh(z) and sinh(z)/z
+			std::complex<double> coshZ{ g3::nan };
+			std::complex<double> sincZ{ g3::nan };
+			if (std::abs(zSq) < 1.e-6)
+			{
+				// small value: use series (add from small to large)
+				// next terms are less than O(z^8/8!) (i.e. below 1.e-28)
+				coshZ = zSq*zSq*zSq/720. + zSq*zSq/24. + .5*zSq + 1.;
+				sincZ = zSq*zSq*zSq/5040. + zSq*zSq/120. + zSq/6. + 1.;
+			}
+			else
+			{
+				std::complex<double> const zVal{ std::sqrt(zSq) };
+				coshZ = std::cosh(zVal);
+				sincZ = std::sinh(zVal) / zVal;
+			}
+
+			std::complex<double> const expC{ std::exp(cPart) };
+			result = MultiVector
+				{ ComPlex::from(expC * coshZ)
+				, ComPlex::from(expC * sincZ) * dPart
+				};
 		}
 
 		return result;
-- 
2.43.0


From 38fc891289497b1cff1629d03ae6f332bcd6abf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 7/9] fix: logG2() of small nonzero spinors is not null

The magnitude of the argument was compared with machine epsilon, such that
logarithms of (valid) spinors smaller than that were returned as null.
---
 include/g3func.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/g3func.hpp b/include/g3func.hpp
index 8c367b0..86a96a0 100644
--- a/include/g3func.hpp
+++ b/include/g3func.hpp
@@ -645,7 +645,7 @@ namespace g3
 			double const spinMag{ magnitude(genSpin) };
 
 			// check for positive magnitude (no logarithm for zero magnitude)
-			if (std::numeric_limits<double>::epsilon() < spinMag)
+			if (0. < spinMag)
 			{
 				double const logSpinMag{ std::log(spinMag) };
 
-- 
2.43.0


From 2b6b1aad0d57b9aba30682f8d222ee4de38e36b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 8/9] fix: sqrtG2() of small nonzero spinors is not zero

The magnitude of the argument was compared with (4 times) machine epsilon,
such that e.g. the root of 5.e-16 was 0 instead of 2.2e-8.
---
 include/g3func.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/g3func.hpp b/include/g3func.hpp
index 86a96a0..e246cf5 100644
--- a/include/g3func.hpp
+++ b/include/g3func.hpp
@@ -702,8 +702,7 @@ namespace g3
 		if (isValid(genSpin))
 		{
 			double const spinMag{ magnitude(genSpin) };
-			constexpr double tol{ 4. * std::numeric_limits<double>::epsilon() };
-			if (spinMag < tol)
+			if (! (0. < spinMag))
 			{
 				root = zero<G2Item>();
 			}
-- 
2.43.0


From 61f34e7150180e9334ab1846bbd71b3649d19427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:18 +0000
Subject: [PATCH 9/9] fix: headers which are used on their own include what
 they use

---
 include/g3_private.hpp    | 6 ++++++
 include/g3opsAdd_same.hpp | 1 +
 include/g3opsSub_same.hpp | 1 +
 3 files changed, 8 insertions(+)

diff --git a/include/g3_private.hpp b/include/g3_private.hpp
index b8018dc..658c0e4 100644
--- a/include/g3_private.hpp
+++ b/include/g3_private.hpp
@@ -35,6 +35,12 @@ Example:
 */
 
 
+#include <algorithm>
+#include <array>
+#include <iterator>
+#include <numeric>
+
+
 namespace engabra
 {
 
diff --git a/include/g3opsAdd_same.hpp b/include/g3opsAdd_same.hpp
index 914c440..7a68270 100644
--- a/include/g3opsAdd_same.hpp
+++ b/include/g3opsAdd_same.hpp
@@ -40,6 +40,7 @@
 
 #include "g3type.hpp"
 #include "g3_private.hpp"
+#include "g3traits.hpp"
 
 #include <algorithm>
 #include <numeric>
diff --git a/include/g3opsSub_same.hpp b/include/g3opsSub_same.hpp
index 49cfe88..8e54218 100644
--- a/include/g3opsSub_same.hpp
+++ b/include/g3opsSub_same.hpp
@@ -40,6 +40,7 @@ Example:
 
 #include "g3type.hpp"
 #include "g3_private.hpp"
+#include "g3traits.hpp"
 
 #include <algorithm>
 #include <numeric>
-- 
2.43.0

