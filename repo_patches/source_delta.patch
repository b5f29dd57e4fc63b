From 16da81b6f80541446fed9147c75f492955de1707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 01/30] fix: Mat::at on const matrices and with two or three
 columns

---
 nytl/mat.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nytl/mat.hpp b/nytl/mat.hpp
index 3b525b8..96e6bcf 100644
--- a/nytl/mat.hpp
+++ b/nytl/mat.hpp
@@ -39,8 +39,8 @@ public:
 
 	/// Returns the value at position (r, c).
 	/// If this position exceeds the size of the matrix, throws std::out_of_range.
-	constexpr auto& at(size_t r, size_t c) { return at(r).at(c); }
-	constexpr const auto& at(size_t r, size_t c) const { return at(r).at(c); }
+	constexpr auto& at(size_t r, size_t c) { checkCol(c); return at(r)[c]; }
+	constexpr const auto& at(size_t r, size_t c) const { checkCol(c); return at(r)[c]; }
 
 	/// Explicitly casts the Mat to another Mat that may have
 	/// a different precision or dimensions. Will default construct
@@ -52,11 +52,18 @@ public:
 
 	/// Utility function that throws std::out_of_range if the matrix does not have
 	/// the given row.
-	constexpr void checkRow(size_t r) {
+	constexpr void checkRow(size_t r) const {
 		if(r >= rows())
 			throw std::out_of_range("nytl::Mat::at");
 	}
 
+	/// Utility function that throws std::out_of_range if the matrix does not have
+	/// the given column.
+	constexpr void checkCol(size_t c) const {
+		if(c >= cols())
+			throw std::out_of_range("nytl::Mat::at");
+	}
+
 public:
 	std::array<Vec<C, T>, R> rows_;
 };
-- 
2.43.0


From ee83ec251a11da1d681ae09652a536ea6b1d92c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 02/30] fix: sign of an odd permutation in LUDecomposition

---
 nytl/matOps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 5a0b76c..fd8be98 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -30,7 +30,7 @@ struct LUDecomposition {
 	nytl::Mat<D, D, T> lower;
 	nytl::Mat<D, D, T> upper;
 	nytl::Mat<D, D, bool> perm; // permutation
-	unsigned int sign = 1;
+	int sign = 1;
 };
 
 /// \brief Prints the given matrix with numerical values to the given ostream.
-- 
2.43.0


From c369857b4b02755d9bb80990eada298aa87d6055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 03/30] fix: reducedRowEcholon read past the end of a zero row

---
 nytl/matOps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index fd8be98..60a0ba9 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -280,7 +280,7 @@ constexpr void reducedRowEcholon(nytl::Mat<R, C, T>& mat) {
 		}
 
 		// if the pivot is zero continue to the next (above) row
-		if(!mat[r][c]) {
+		if(c == mat.cols()) {
 			continue;
 		}
 
-- 
2.43.0


From e973ed3fe20572fd38d8bc02f384159668f617d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 04/30] fix: luEvaluate applied the inverse permutation to the
 right-hand side

---
 nytl/matOps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 60a0ba9..43cbc50 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -410,7 +410,7 @@ constexpr auto luEvaluate(const Mat<D, D, T1>& l,
 /// The sign of the decomposition will not be used.
 template<size_t D, typename T1, typename T2>
 constexpr auto luEvaluate(const LUDecomposition<D, T1>& lu, const Vec<D, T2>& b) {
-	return luEvaluate(lu.lower, lu.upper, transpose(lu.perm) * b);
+	return luEvaluate(lu.lower, lu.upper, lu.perm * b);
 }
 
 /// \brief Returns the determinant of the given square matrix.
-- 
2.43.0


From cca47adb2373462147b0b7090fbb70f9b0118ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 05/30] fix: integer overflow in mapUnsigned and unmapUnsigned

---
 nytl/math.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nytl/math.hpp b/nytl/math.hpp
index 0ff46c2..5152ce5 100644
--- a/nytl/math.hpp
+++ b/nytl/math.hpp
@@ -57,15 +57,15 @@ constexpr unsigned long factorial(unsigned int n) {
 /// Maps the given signed number onto a unique unsigned one.
 /// Maps 0 to 0, 1 to 2, 2 to 4, -1 to 1, -2 to 3 and so on.
 constexpr unsigned int mapUnsigned(int x) {
-	return (x < 0) ? -x * 2 - 1 : x * 2;
+	return (x < 0) ? ~static_cast<unsigned int>(x) * 2u + 1u : static_cast<unsigned int>(x) * 2u;
 }
 
 /// Reverses the mapUnsigned function.
 /// Returns the signed number that would be mapped onto the given unique
 /// unsigned number.
 constexpr int unmapUnsigned(unsigned int x) {
-	auto ix = static_cast<int>(x);
-	return (ix % 2) ? -(ix + 1) / 2 : ix / 2;
+	auto half = static_cast<int>(x / 2u);
+	return (x % 2u) ? -half - 1 : half;
 }
 
 /// Combines the two given unsigned numbers into a single unique one
-- 
2.43.0


From 04948422b297b6e252567a7a4e4836c3d33ba69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 06/30] fix: overflow of the intermediate product in pair

---
 nytl/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nytl/math.hpp b/nytl/math.hpp
index 5152ce5..3239ce5 100644
--- a/nytl/math.hpp
+++ b/nytl/math.hpp
@@ -72,7 +72,9 @@ constexpr int unmapUnsigned(unsigned int x) {
 /// using the cantorsche pairing function. Combine it with calls
 /// to mapUnsigned to enable it for signed x,y inputs.
 constexpr unsigned int pair(unsigned int x, unsigned int y) {
-	return (x + y) * (x + y + 1) / 2 + y;
+	// divide the even factor first since the product may overflow
+	auto sum = x + y;
+	return ((sum % 2u) ? (sum / 2u + 1u) * sum : (sum / 2u) * (sum + 1u)) + y;
 }
 
 /// Returns clamp(value, min, max), i.e. value or min/max if value exceeds those bounds.
-- 
2.43.0


From 91d2f6a3f2fdc17c6516ccc7865dc79b76000047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 07/30] fix: rect intersection tests missed rects that overlap
 without containing a corner

---
 nytl/rectOps.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/nytl/rectOps.hpp b/nytl/rectOps.hpp
index 19c445f..03215f9 100644
--- a/nytl/rectOps.hpp
+++ b/nytl/rectOps.hpp
@@ -103,8 +103,12 @@ constexpr bool containsReal(const Rect<D, T1>& rect, const Vec<D, T2>& point) {
 /// \module rectOps
 template<std::size_t D, typename T1, typename T2>
 constexpr bool intersects(const Rect<D, T1>& a, const Rect<D, T2>& b) {
-	return contains(a, b.position) || contains(a, b.position + b.size) ||
-		contains(b, a.position) || contains(b, a.position + a.size);
+	for(auto i = 0u; i < a.position.size(); ++i) {
+		if(a.position[i] + a.size[i] < b.position[i]) return false;
+		if(b.position[i] + b.size[i] < a.position[i]) return false;
+	}
+
+	return true;
 }
 
 /// \brief Returns whether the the two given Rects intersect.
@@ -113,8 +117,12 @@ constexpr bool intersects(const Rect<D, T1>& a, const Rect<D, T2>& b) {
 /// \module rectOps
 template<std::size_t D, typename T1, typename T2>
 constexpr bool intersectsReal(const Rect<D, T1>& a, const Rect<D, T2>& b) {
-	return containsReal(a, b.position) || containsReal(a, b.position + b.size) ||
-		containsReal(b, a.position) || containsReal(b, a.position + a.size);
+	for(auto i = 0u; i < a.position.size(); ++i) {
+		if(a.position[i] + a.size[i] <= b.position[i]) return false;
+		if(b.position[i] + b.size[i] <= a.position[i]) return false;
+	}
+
+	return true;
 }
 
 /// \brief Returns the intersection between the given Rects.
-- 
2.43.0


From 27b5380092a4cd99ef6c1eb6a3646ad370fa2ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 08/30] fix: rect difference for disjoint and for partially
 covering rects

---
 nytl/rectOps.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nytl/rectOps.hpp b/nytl/rectOps.hpp
index 03215f9..a2cfbc8 100644
--- a/nytl/rectOps.hpp
+++ b/nytl/rectOps.hpp
@@ -159,6 +159,11 @@ std::vector<Rect<D, T>> difference(const Rect<D, T>& a, const Rect<D, T>& b) {
 	};
 
 	std::vector<Rect<D, T>> ret;
+	if(!intersectsReal(a, b)) {
+		ret.push_back(a);
+		return ret;
+	}
+
 	ret.reserve(2 * D);
 
 	for(std::size_t i(0); i < D; ++i) {
@@ -167,9 +172,11 @@ std::vector<Rect<D, T>> difference(const Rect<D, T>& a, const Rect<D, T>& b) {
 		if(inRange(a.position[i], a.size[i], b.position[i])) {
 			auto pos = a.position;
 			for(std::size_t o(0); o < i; ++o)
-				pos[o] = b.position[o];
+				pos[o] = std::max(b.position[o], a.position[o]);
 
 			auto size = (a.position + a.size) - pos;
+			for(std::size_t o(0); o < i; ++o)
+				size[o] = std::min(b.position[o] + b.size[o], a.position[o] + a.size[o]) - pos[o];
 			size[i] = b.position[i] - pos[i];
 
 			ret.push_back({pos, size});
@@ -185,7 +192,7 @@ std::vector<Rect<D, T>> difference(const Rect<D, T>& a, const Rect<D, T>& b) {
 
 			auto size = (a.position + a.size) - pos;
 			for(std::size_t o(0); o < i; ++o)
-				size[o] = (b.position[o] + b.size[o]) - pos[o];
+				size[o] = std::min(b.position[o] + b.size[o], a.position[o] + a.size[o]) - pos[o];
 
 			ret.push_back({pos, size});
 		}
-- 
2.43.0


From b53ba9f5e700a9e37b388d9e7ae693651335186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 09/30] fix: conversion of Simplex to another dimension or
 precision

---
 nytl/simplex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/simplex.hpp b/nytl/simplex.hpp
index 17a3016..aef7e44 100644
--- a/nytl/simplex.hpp
+++ b/nytl/simplex.hpp
@@ -76,7 +76,7 @@ public:
 	constexpr explicit operator Simplex<OD, OP, A>() const noexcept {
 		Simplex<OD, OP, A> ret {};
 		for(auto i = 0u; i < points_.size(); ++i) {
-			ret[i] = static_cast<Vec<OD, OP>>(points_[i]);
+			ret.points_[i] = static_cast<Vec<OD, OP>>(points_[i]);
 		}
 		return ret;
 	}
-- 
2.43.0


From 8dfce139fac89c28e655af555d193064c88700c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 10/30] fix: dot product of quaternions

---
 nytl/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index 721e25e..d0eef2e 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -271,7 +271,7 @@ template<typename T>
 }
 
 [[nodiscard]] inline double dot(const Quaternion& a, const Quaternion& b) {
-	return a.x * b.x + a.y * b.y + a.z * b.y * a.w * b.y;
+	return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w;
 }
 
 // https://en.wikipedia.org/wiki/Slerp
-- 
2.43.0


From 89e46ce33ab3a47e54a9f53123833bc05830994f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 11/30] fix: slerp did not take the shorter arc

---
 nytl/quaternion.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index d0eef2e..c939e2a 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -285,10 +285,10 @@ template<typename T>
     // the negation is applied to all four components. Fix by
     // reversing one quaternion.
     if (d < 0.0f) {
-        v1.x = v1.x;
-        v1.y = v1.y;
-        v1.z = v1.z;
-        v1.w = v1.w;
+        v1.x = -v1.x;
+        v1.y = -v1.y;
+        v1.z = -v1.z;
+        v1.w = -v1.w;
         d = -d;
     }
 
-- 
2.43.0


From 1a7f161684386ca83601b0285ebe699266985049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 12/30] fix: nth counted characters in 32 bits only

---
 nytl/utf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nytl/utf.hpp b/nytl/utf.hpp
index 6a2994f..b1a3d1c 100644
--- a/nytl/utf.hpp
+++ b/nytl/utf.hpp
@@ -92,7 +92,7 @@ inline std::array<char, 5> nth(std::string_view utf8, std::size_t n) {
 /// \note Indexing starts at zero! `nth(utf8, 1)` returns actually the second char.
 /// \throws std::out_of_range if n > charCount(utf8)
 inline const char& nth(std::string_view utf8, std::size_t n, std::uint8_t& size) {
-	auto count = 0u;
+	std::size_t count = 0u;
 	auto it = utf8.begin();
 
 	while(it != utf8.end()) {
@@ -127,7 +127,7 @@ inline const char& nth(std::string_view utf8, std::size_t n, std::uint8_t& size)
 /// \note Indexing starts at zero! `nth(utf8, 1)` returns actually the second char.
 /// \throws std::out_of_range if n > charCount(utf8)
 inline char& nth(std::string& utf8, std::size_t n, std::uint8_t& size) {
-	auto count = 0u;
+	std::size_t count = 0u;
 	auto it = utf8.begin();
 
 	while(it != utf8.end()) {
-- 
2.43.0


From db243bcd0394cc66285d2144bdbe5344a856f686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 13/30] fix: transforms of other than single precision

---
 nytl/transform.hpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/nytl/transform.hpp b/nytl/transform.hpp
index 30a6054..ae01fbf 100644
--- a/nytl/transform.hpp
+++ b/nytl/transform.hpp
@@ -76,10 +76,10 @@ std::array<Vec3<P>, 2> base(Vec3<P> dir) {
 		}};
 	}
 
-	const float a = P(1.0) / (P(1.0) + dir.z);
-	const float b = -dir.x * dir.y * a;
-	auto b1 = Vec3f{P(1.0) - dir.x * dir.x * a, b, -dir.x};
-	auto b2 = Vec3f{b, P(1.0) - dir.y * dir.y * a, -dir.y};
+	const P a = P(1.0) / (P(1.0) + dir.z);
+	const P b = -dir.x * dir.y * a;
+	auto b1 = Vec3<P>{P(1.0) - dir.x * dir.x * a, b, -dir.x};
+	auto b2 = Vec3<P>{b, P(1.0) - dir.y * dir.y * a, -dir.y};
 	return {b1, b2};
 }
 
@@ -87,7 +87,7 @@ std::array<Vec3<P>, 2> base(Vec3<P> dir) {
 template<size_t D = 4, typename P = float, size_t R> [[nodiscard]]
 SquareMat<D, P> scaleMat(const Vec<R, P>& s) {
 	static_assert(R <= D);
-	auto mat = identity<D, float>();
+	auto mat = identity<D, P>();
 	for(auto i = 0u; i < R; ++i) {
 		mat[i][i] *= s[i];
 	}
@@ -99,7 +99,7 @@ SquareMat<D, P> scaleMat(const Vec<R, P>& s) {
 template<size_t D = 4, typename P = float, size_t R> [[nodiscard]]
 SquareMat<D, P> translateMat(const Vec<R, P>& t) {
 	static_assert(R <= D);
-	auto mat = identity<D, float>();
+	auto mat = identity<D, P>();
 	for(auto i = 0u; i < R; ++i) {
 		mat[i][D - 1] = t[i];
 	}
@@ -268,7 +268,7 @@ SquareMat<D, P> flippedZ(SquareMat<D, P> mat) {
 // (still mapping near to 0, far to 1).
 template<typename P> [[nodiscard]]
 SquareMat<4, P> ortho(P left, P right, P bot, P top, P near, P far) {
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 	ret[0][0] = P(2) / (right - left);
 	ret[1][1] = P(2) / (top - bot);
 	ret[2][2] = P(1) / (far - near);
@@ -314,7 +314,7 @@ Mat4<P> frustum(P left, P right, P bot, P top, P near, P far) {
 	assert((near >= 0) == (far >= 0) && "near, far must have the same sign");
 	assert((left != right) && (bot != top));
 
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 
 	ret[0][0] = P(2) * near / (right - left);
 	ret[1][1] = P(2) * near / (top - bot);
@@ -337,7 +337,7 @@ Mat4<P> frustumRev(P left, P right, P bot, P top, P near, P far) {
 	assert((near >= 0) == (far >= 0) && "near, far must have the same sign");
 	assert((left != right) && (bot != top));
 
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 
 	ret[0][0] = P(2) * near / (right - left);
 	ret[1][1] = P(2) * near / (top - bot);
@@ -362,7 +362,7 @@ Mat4<P> frustumRevInf(P left, P right, P bot, P top, P near) {
 	assert((near != 0) && "near must not be zero");
 	assert((left != right) && (bot != top));
 
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 
 	ret[0][0] = P(2) * near / (right - left);
 	ret[1][1] = P(2) * near / (top - bot);
@@ -457,9 +457,9 @@ template<size_t D = 4, typename P> [[nodiscard]]
 SquareMat<D, P> lookAt(const Quaternion& rot, Vec3<P> pos) {
 	// transpose is same as inverse for rotation matrices
 	auto ret = transpose(toMat<4, P>(rot));
-	ret[0][3] = -dot(pos, Vec3f(ret[0]));
-	ret[1][3] = -dot(pos, Vec3f(ret[1]));
-	ret[2][3] = -dot(pos, Vec3f(ret[2]));
+	ret[0][3] = -dot(pos, Vec3<P>(ret[0]));
+	ret[1][3] = -dot(pos, Vec3<P>(ret[1]));
+	ret[2][3] = -dot(pos, Vec3<P>(ret[2]));
 	return ret;
 
 	// reference implementation, same result but slower
-- 
2.43.0


From 0d7833897308e30e73077ae01aa9050df1bc0fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 14/30] fix: UniqueConnection::release did not compile

---
 nytl/connection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/connection.hpp b/nytl/connection.hpp
index 3e29fdf..4ef0220 100644
--- a/nytl/connection.hpp
+++ b/nytl/connection.hpp
@@ -147,7 +147,7 @@ public:
 	/// Releases ownership of the associated connection and returns a non-owned
 	/// connection object.
 	/// After the call this object will be empty.
-	ID release()
+	ConnectionT<C, ID> release()
 	{
 		ConnectionT<C, ID> ret{connectable_, id_};
 		id_ = {};
-- 
2.43.0


From 90b773e736aebbfc0a264a6398fe476ebdbc887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 15/30] fix: RecursiveCallback::disconnect notified the wrong
 id

---
 nytl/recursiveCallback.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 3bee463..736c810 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -354,7 +354,7 @@ bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 		if(next->id.get() == id.get()) {
 			if(remove) {
 				// set this before id.removed might change stuff
-				if(++next == subs_.end()) {
+				if(std::next(next) == subs_.end()) {
 					last_ = it;
 				}
 				next->id.removed();
-- 
2.43.0


From dc3bdc1eb9970b96561c9b8dd8926c2d2884a67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 16/30] fix: RecursiveCallback::call ran functions added during
 the call

---
 nytl/recursiveCallback.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 736c810..fce1a57 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -272,11 +272,12 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 			// call and therefore we still call it
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
 				it->func(std::forward<Args>(a)...);
-				// we will not call functions that were registered after
-				// this call started (this is why we store last above)
-				if(it == last) {
-					break;
-				}
+			}
+
+			// we will not call functions that were registered after
+			// this call started (this is why we store last above)
+			if(it == last) {
+				break;
 			}
 		}
 
@@ -287,9 +288,10 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 		for(auto it = subs_.begin(); it != subs_.end(); ++it) {
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
 				ret.push_back(it->func(std::forward<Args>(a)...));
-				if(it == last) {
-					break;
-				}
+			}
+
+			if(it == last) {
+				break;
 			}
 		}
 
-- 
2.43.0


From d03fe93deb5802eceb1f4b9e4c3099acc616a2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 17/30] fix: removing a function again from a RecursiveCallback

---
 nytl/recursiveCallback.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index fce1a57..96065a2 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -308,7 +308,7 @@ void RecursiveCallback<Ret(Args...), ID>::clear() noexcept
 	for(auto& sub : subs_) {
 		if(remove) {
 			sub.id.removed();
-		} else {
+		} else if(sub.id.get() > 0) {
 			sub.id.set(-callID_);
 		}
 	}
@@ -325,7 +325,8 @@ void RecursiveCallback<Ret(Args...), ID>::clear() noexcept
 template<typename Ret, typename... Args, typename ID>
 bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 {
-	if(subs_.empty())  {
+	// the id of an already removed function is not positive
+	if(subs_.empty() || id.get() <= 0)  {
 		return false;
 	}
 
-- 
2.43.0


From 0d6b252e011f37bed1bfd38ccee7d9e988825124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 18/30] fix: RecursiveCallback did not notify ids of leading
 functions

---
 nytl/recursiveCallback.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 96065a2..81af1b8 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -165,6 +165,7 @@ protected:
 		// just remove subscriptions with id <= 0 and update last_
 		auto it = subs_.begin();
 		while(it != subs_.end() && it->id.get() <= 0) {
+			it->id.removed();
 			subs_.pop_front();
 			it = subs_.begin();
 		}
-- 
2.43.0


From 710d7170a09199a5b8c13eab740567f1ea4d9bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 19/30] fix: callback arguments passed by value were moved into
 the first function

---
 nytl/callback.hpp          | 10 ++++++++--
 nytl/recursiveCallback.hpp | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/nytl/callback.hpp b/nytl/callback.hpp
index c94847e..e1e8bf7 100644
--- a/nytl/callback.hpp
+++ b/nytl/callback.hpp
@@ -129,6 +129,12 @@ public:
 	}
 
 protected:
+	// How a function receives an argument of a call. All functions get the
+	// same value, so none of them may consume it.
+	template<typename T> using PassArg = std::conditional_t<
+		std::is_reference<T>::value || !std::is_copy_constructible<T>::value,
+		T&&, const T&>;
+
 	std::vector<Subscription> subs_ {}; // all subscriptions, ordered by id
 	std::int64_t subID_ {}; // the highest subscription id given
 };
@@ -175,13 +181,13 @@ auto Callback<Ret(Args...), ID>::call(Args... a)
 	// only by some other callback function
 	if constexpr(std::is_same<Ret, void>::value) {
 		for(auto& func : subs_)
-			func.func(std::forward<Args>(a)...);
+			func.func(static_cast<PassArg<Args>>(a)...);
 	} else {
 		std::vector<Ret> ret;
 		ret.reserve(subs_.size());
 
 		for(auto& func : subs_) {
-			ret.push_back(func.func(std::forward<Args>(a)...));
+			ret.push_back(func.func(static_cast<PassArg<Args>>(a)...));
 		}
 
 		return ret;
diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 81af1b8..413011d 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -118,6 +118,12 @@ public:
 	}
 
 protected:
+	// How a function receives an argument of a call. All functions get the
+	// same value, so none of them may consume it.
+	template<typename T> using PassArg = std::conditional_t<
+		std::is_reference<T>::value || !std::is_copy_constructible<T>::value,
+		T&&, const T&>;
+
 	// Represents one callback subscription entry.
 	// Invalid (formally removed) when id is not valid.
 	// Note that these means that alternative ID classes can
@@ -272,7 +278,7 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 			// the stored callID, it was removed during or after this
 			// call and therefore we still call it
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
-				it->func(std::forward<Args>(a)...);
+				it->func(static_cast<PassArg<Args>>(a)...);
 			}
 
 			// we will not call functions that were registered after
@@ -288,7 +294,7 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 
 		for(auto it = subs_.begin(); it != subs_.end(); ++it) {
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
-				ret.push_back(it->func(std::forward<Args>(a)...));
+				ret.push_back(it->func(static_cast<PassArg<Args>>(a)...));
 			}
 
 			if(it == last) {
-- 
2.43.0


From a1de945ae5e1b3f0249c86e8394eab76a96acbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 20/30] fix: cloning through a base that is not placed first

---
 nytl/clone.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/nytl/clone.hpp b/nytl/clone.hpp
index 8d635f1..42ce373 100644
--- a/nytl/clone.hpp
+++ b/nytl/clone.hpp
@@ -11,6 +11,19 @@
 
 namespace nytl {
 
+namespace detail {
+
+// Returns the subobject of the given complete object that corresponds to
+// 'base', a subobject of a complete object of the same type.
+template<typename T>
+T* subobject(void* complete, const T& base) {
+	auto begin = static_cast<const char*>(dynamic_cast<const void*>(&base));
+	auto offset = reinterpret_cast<const char*>(&base) - begin;
+	return reinterpret_cast<T*>(static_cast<char*>(complete) + offset);
+}
+
+} // namespace detail
+
 /// \brief Can be used to clone a Cloneable object.
 /// Will perform a copy of the actual type the interface reference references.
 /// \requires Type 'T' shall be Cloneable (i.e. derived from a nytl::Cloneable or
@@ -18,7 +31,7 @@ namespace nytl {
 /// \module utility
 template<typename T>
 std::unique_ptr<T> clone(const T& obj) {
-	return std::unique_ptr<T>(static_cast<T*>(obj.doClone()));
+	return std::unique_ptr<T>(detail::subobject<T>(obj.doClone(), obj));
 }
 
 /// \brief Can be used to cloneMove a CloneMovable object.
@@ -29,7 +42,7 @@ std::unique_ptr<T> clone(const T& obj) {
 /// \module utility
 template<typename T>
 std::unique_ptr<T> cloneMove(T& obj) {
-	return std::unique_ptr<T>(static_cast<T*>(obj.doCloneMove()));
+	return std::unique_ptr<T>(detail::subobject<T>(obj.doCloneMove(), obj));
 }
 
 /// \brief Can be derived from to implement the cloneMove member function for 'Derived'.
-- 
2.43.0


From 1594fa416ef0802433df838edb22f0c9f0cdc699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:28 +0000
Subject: [PATCH 21/30] fix: mat: a *= a multiplied with an already zeroed
 matrix

---
 nytl/mat.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nytl/mat.hpp b/nytl/mat.hpp
index 96e6bcf..e13f250 100644
--- a/nytl/mat.hpp
+++ b/nytl/mat.hpp
@@ -102,12 +102,12 @@ constexpr auto operator*(const Mat<R, C, T1>& a, const Vec<C, T2>& b) {
 // mat *= mat (quadratic)
 template<typename T1, typename T2, size_t D>
 constexpr auto& operator*=(Mat<D, D, T1>& a, const Mat<D, D, T2>& b) {
-	auto tmp = a; // needed since we write to a
-	a = {};
+	Mat<D, D, T1> ret {}; // a must not be written before b was read, see a *= a
 	for(auto r = 0u; r < D; ++r) // ret: rows
 		for(auto c = 0u; c < D; ++c) // ret: cols
 			for(auto i = 0u; i < D; ++i) // row + col dot
-				a[r][c] += tmp[r][i] * b[i][c];
+				ret[r][c] += a[r][i] * b[i][c];
+	a = ret;
 	return a;
 }
 
-- 
2.43.0


From 7e66d591781e723945e60f1c7c7a2ee0c2c0c15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:36 +0000
Subject: [PATCH 22/30] fix: swapped angles of the classic euler sequences

---
 nytl/quaternion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index c939e2a..bab2f9a 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -345,9 +345,9 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 	auto classicEuler = [](double a, double b, double c, double d, double e,
 			double indet) {
 		auto res = std::array<double, 3> {
-			std::atan2(d, e),
-			std::acos(c),
 			std::atan2(a, b),
+			std::acos(c),
+			std::atan2(d, e),
 		};
 
 		if(std::abs(res[1]) < 0.001) {
-- 
2.43.0


From 8f99e9ac252360623c1cc870dbb98b6b517dc6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:23 +0000
Subject: [PATCH 23/30] fix: UniqueConnection::release could not be
 instantiated

---
 nytl/connection.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nytl/connection.hpp b/nytl/connection.hpp
index 4ef0220..a75ec24 100644
--- a/nytl/connection.hpp
+++ b/nytl/connection.hpp
@@ -149,7 +149,9 @@ public:
 	/// After the call this object will be empty.
 	ConnectionT<C, ID> release()
 	{
-		ConnectionT<C, ID> ret{connectable_, id_};
+		ConnectionT<C, ID> ret;
+		if(connectable_)
+			ret = {*connectable_, id_};
 		id_ = {};
 		connectable_ = {};
 		return ret;
-- 
2.43.0


From 22707833381e85e7819b3645f14e9ec8723815bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:23 +0000
Subject: [PATCH 24/30] fix: cloneMove of a Cloneable did not compile

---
 nytl/clone.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/clone.hpp b/nytl/clone.hpp
index 42ce373..87b0546 100644
--- a/nytl/clone.hpp
+++ b/nytl/clone.hpp
@@ -129,7 +129,7 @@ protected:
 	void* doCloneMove() override { return new T(std::move(static_cast<T&>(*this))); }
 	void* doClone() const override { return new T(static_cast<const T&>(*this)); }
 	template<typename O> friend std::unique_ptr<O> clone(const O&);
-	template<typename O> friend std::unique_ptr<O> cloneMove(const O&);
+	template<typename O> friend std::unique_ptr<O> cloneMove(O&);
 };
 
 // - derive class implementation -
-- 
2.43.0


From 0b380870344b0b786fbf50465d3302654f154f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 25/30] fix: span of an empty std::array

---
 nytl/span.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nytl/span.hpp b/nytl/span.hpp
index 18b204a..baa9f40 100644
--- a/nytl/span.hpp
+++ b/nytl/span.hpp
@@ -143,11 +143,11 @@ public:
 
     template <std::size_t N, class ArrayElementType = std::remove_const_t<element_type>>
     constexpr span(std::array<ArrayElementType, N>& arr) noexcept
-        : storage_(&arr[0], details::extent_type<N>()) {}
+        : storage_(arr.data(), details::extent_type<N>()) {}
 
     template <std::size_t N>
     constexpr span(const std::array<std::remove_const_t<element_type>, N>& arr) noexcept
-        : storage_(&arr[0], details::extent_type<N>()) {}
+        : storage_(arr.data(), details::extent_type<N>()) {}
 
 	// Allows direct initialization as in `f({1, 2, 3})`
 	// Otherwise `f({{1, 2, 3}})` is needed (at least with clang?)
-- 
2.43.0


From 0d8e0c6f005186bdd1986d638d6612505d705d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:32 +0000
Subject: [PATCH 26/30] fix: scaling a vec or mat by one of its own components

---
 nytl/mat.hpp | 3 ++-
 nytl/vec.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/nytl/mat.hpp b/nytl/mat.hpp
index e13f250..7c0d26e 100644
--- a/nytl/mat.hpp
+++ b/nytl/mat.hpp
@@ -124,9 +124,10 @@ constexpr auto operator*(const F& f, const Mat<R, C, T>& a) {
 // mat *= fac
 template<typename F, typename T, size_t R, size_t C>
 constexpr auto& operator*=(Mat<R, C, T>& a, const F& f) {
+	const F fac = f; // f might be an entry of a
 	for(auto r = 0u; r < R; ++r)
 		for(auto c = 0u; c < C; ++c)
-			a[r][c] *= f;
+			a[r][c] *= fac;
 	return a;
 }
 
diff --git a/nytl/vec.hpp b/nytl/vec.hpp
index 154b558..59b37bf 100644
--- a/nytl/vec.hpp
+++ b/nytl/vec.hpp
@@ -66,8 +66,9 @@ constexpr Vec<D, T1>& operator-=(Vec<D, T1>& a, const Vec<D, T2>& b) {
 
 template<size_t D, typename T, typename F>
 constexpr Vec<D, T>& operator*=(Vec<D, T>& vec, const F& fac) {
+	const F f = fac; // fac might be a component of vec
 	for(auto i = 0u; i < D; ++i)
-		vec[i] *= fac;
+		vec[i] *= f;
 	return vec;
 }
 
-- 
2.43.0


From 07aaaa043684b918d864214238669aa375ab5473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:42 +0000
Subject: [PATCH 27/30] fix: replacing a column of a mat by one of its rows

col() read entries of the given vec after it wrote them when that vec
is a row of the same matrix.
---
 nytl/matOps.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 43cbc50..ab4a86f 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -99,8 +99,9 @@ constexpr auto col(const nytl::Mat<R, C, T>& mat, size_t n) {
 /// For example: `nytl::mat::col(mat44, 2, vec4);` sets the 3rd column of a matrix.
 template<size_t R, size_t C, typename T>
 constexpr void col(nytl::Mat<R, C, T>& mat, size_t n, const nytl::Vec<R, T>& col) {
+	const auto copy = col; // col might be a row of mat
 	for(auto i = 0u; i < R; ++i) {
-		mat[i][n] = col[i];
+		mat[i][n] = copy[i];
 	}
 }
 
-- 
2.43.0


From d888ec6cbb64dbda1a27cb84649bc1cb0f630e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:42 +0000
Subject: [PATCH 28/30] fix: empty byte ranges were passed to memcpy as null
 pointers

which is undefined, e.g. when writing an empty vector.
---
 nytl/bytes.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nytl/bytes.hpp b/nytl/bytes.hpp
index 6a0fc2a..ca687cc 100644
--- a/nytl/bytes.hpp
+++ b/nytl/bytes.hpp
@@ -124,12 +124,12 @@ inline void skip(WriteBuf& buf, std::size_t bytes) {
 inline void write(DynWriteBuf& dst, ReadBuf src) {
 	dst.resize(dst.size() + src.size());
 	auto dstData = dst.data() + dst.size() - src.size();
-	std::memcpy(dstData, src.data(), src.size());
+	if(!src.empty()) std::memcpy(dstData, src.data(), src.size());
 }
 
 inline void write(WriteBuf& dst, ReadBuf src) {
 	NYTL_BYTES_ASSERT(dst.size() >= src.size());
-	std::memcpy(dst.data(), src.data(), src.size());
+	if(!src.empty()) std::memcpy(dst.data(), src.data(), src.size());
 	dst = dst.last(dst.size() - src.size());
 }
 
@@ -145,7 +145,7 @@ void write(DynWriteBuf& dst, const T& obj) {
 
 inline void read(ReadBuf& src, WriteBuf dst) {
 	NYTL_BYTES_ASSERT(src.size() >= dst.size());
-	std::memcpy(dst.data(), src.data(), dst.size());
+	if(!dst.empty()) std::memcpy(dst.data(), src.data(), dst.size());
 	src = src.last(src.size() - dst.size());
 }
 
@@ -166,7 +166,7 @@ read(ReadBuf& src, T& obj) {
 // Does not advance any of the buffers
 inline void copy(ReadBuf src, WriteBuf dst) {
 	NYTL_BYTES_ASSERT(src.size() == dst.size());
-	std::memcpy(dst.data(), src.data(), dst.size());
+	if(!dst.empty()) std::memcpy(dst.data(), src.data(), dst.size());
 }
 
 template<typename T>
-- 
2.43.0


From fd2c2309cf72877add607041e7b5f964575eddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:42 +0000
Subject: [PATCH 29/30] fix: appending a growing byte buffer to itself read
 freed memory

The source might view (a part of) the buffer, which was reallocated
before the source was copied.
---
 nytl/bytes.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nytl/bytes.hpp b/nytl/bytes.hpp
index ca687cc..1eb0f50 100644
--- a/nytl/bytes.hpp
+++ b/nytl/bytes.hpp
@@ -8,6 +8,7 @@
 #define NYTL_INCLUDE_BYTES
 
 #include <nytl/span.hpp>
+#include <algorithm>
 #include <cstdlib>
 #include <type_traits>
 #include <vector>
@@ -122,6 +123,13 @@ inline void skip(WriteBuf& buf, std::size_t bytes) {
 }
 
 inline void write(DynWriteBuf& dst, ReadBuf src) {
+	DynWriteBuf old; // src might view a part of dst, whose storage must stay then
+	if(dst.capacity() - dst.size() < src.size()) {
+		old.reserve(dst.size() + std::max(dst.size(), src.size()));
+		old.assign(dst.begin(), dst.end());
+		old.swap(dst);
+	}
+
 	dst.resize(dst.size() + src.size());
 	auto dstData = dst.data() + dst.size() - src.size();
 	if(!src.empty()) std::memcpy(dstData, src.data(), src.size());
-- 
2.43.0


From 97c4ad2d923c7f11c2f8239af85d28f584ad53d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:31 +0000
Subject: [PATCH 30/30] fix: recursive callback releases functions while its
 list is inconsistent

The destructor of a registered function may use the callback, e.g. when the
function owns a connection to another one. clear() accessed released entries
then, additions were lost and removals delayed.
---
 nytl/recursiveCallback.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 413011d..f6e7c7a 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -168,11 +168,14 @@ protected:
 	void removeOld() noexcept {
 		++iterationCount_;
 
+		// the functions are destroyed last, they may use this callback again
+		decltype(subs_) removed;
+
 		// just remove subscriptions with id <= 0 and update last_
 		auto it = subs_.begin();
 		while(it != subs_.end() && it->id.get() <= 0) {
 			it->id.removed();
-			subs_.pop_front();
+			removed.splice_after(removed.before_begin(), subs_, subs_.before_begin());
 			it = subs_.begin();
 		}
 
@@ -180,7 +183,7 @@ protected:
 			for(auto next = std::next(it); next != subs_.end(); next = std::next(it)) {
 				if(next->id.get() <= 0) {
 					next->id.removed();
-					subs_.erase_after(it);
+					removed.splice_after(removed.before_begin(), subs_, it);
 				} else {
 					++it;
 				}
@@ -322,8 +325,9 @@ void RecursiveCallback<Ret(Args...), ID>::clear() noexcept
 
 	// clear/remove only if no one is currently iterating
 	// we only reset end_ (not really needed, cleanup for easier debugging)
+	// the functions are destroyed last, they may use this callback again
 	if(remove) {
-		subs_.clear();
+		auto removed = std::move(subs_);
 		last_ = subs_.end();
 	}
 }
@@ -338,12 +342,13 @@ bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 	}
 
 	auto remove = (iterationCount_ == 0);
+	decltype(subs_) removed; // destroyed last, may use this callback again
 
 	// check for first one
 	if(subs_.begin()->id.get() == id.get()) {
 		if(remove) {
 			subs_.begin()->id.removed();
-			subs_.pop_front();
+			removed.splice_after(removed.before_begin(), subs_, subs_.before_begin());
 			if(subs_.empty()) {
 				last_ = subs_.end();
 			}
@@ -368,7 +373,7 @@ bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 					last_ = it;
 				}
 				next->id.removed();
-				subs_.erase_after(it);
+				removed.splice_after(removed.before_begin(), subs_, it);
 			} else {
 				next->id.set(-callID_);
 			}
-- 
2.43.0

