From 43f86ff98a9741197cc600e48f59c78c89edf771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 01/54] fix: powMod(x, 0, 1) must be 0

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index cdf5cc2..0924f45 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1018,7 +1018,7 @@ namespace details {
 	}
 
 	constexpr UInteger powMod(UInteger base, UInteger exp, UInteger mod) {
-		UInteger res = 1;
+		UInteger res = 1 % mod;
 		if (mod <= 0x1'0000'0000) {
 			while (exp > 0) {
 				if (exp & 1) res = (base * res) % mod;
-- 
2.43.0


From 4987c049a2ccd4285aed792464e8868703f121ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 02/54] fix: multInv() of negative numbers

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 0924f45..9de9e7d 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1078,7 +1078,7 @@ constexpr Integer multInv(Integer n, Integer mod) {
 	judgeAssert<std::domain_error>(mod > 0, "multInv(): mod must be positive!");
 	Integer x = 0;
 	Integer y = 0;
-	Integer g = details::extendedEuclid(n, mod, x, y);
+	Integer g = details::extendedEuclid(applyMod(n, mod), mod, x, y);
 	if (g != 1) return -1;
 	else return applyMod(x, mod);
 }
-- 
2.43.0


From 146ebe99e6adaaf2c71c2134058f6490a147af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 03/54] fix: primes() wrote out of bounds for windows larger
 than 2^30

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 9de9e7d..013a45d 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1120,7 +1120,7 @@ std::vector<Integer> primes(Integer lower, Integer upper) {
 	Integer count = std::min<Integer>(0x3FFF'FFFF, upper - lower);
 	Integer cache = (count + 1) / 2;
 
-	std::vector<bool> notPrime(cache), notPrimeSegment(cache);
+	std::vector<bool> notPrime(cache), notPrimeSegment((upper - lower + 1) / 2);
 	for (Integer i = 3; i < count; i += 2) {
 		if (!notPrime[i / 2]) {
 			for (Integer j = i * i; j < count; j += 2 * i) {
-- 
2.43.0


From 593ad725a933943e38b3276cf4b8095dc3222605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 04/54] fix: integer overflow in primes() close to 2^63

---
 src/validate.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 013a45d..49e0ae9 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1126,9 +1126,10 @@ std::vector<Integer> primes(Integer lower, Integer upper) {
 			for (Integer j = i * i; j < count; j += 2 * i) {
 				notPrime[j / 2] = true;
 			}
-			Integer lowest = lower - (lower % (2*i)) + i;
-			if (lowest < lower) lowest += 2*i;
-			for (Integer j = std::max(i * i, lowest); j < upper; j += 2 * i) {
+			// unsigned since these can exceed the Integer range by up to 2*i
+			UInteger lowest = static_cast<UInteger>(lower - (lower % (2*i))) + i;
+			if (lowest < static_cast<UInteger>(lower)) lowest += 2*i;
+			for (UInteger j = std::max<UInteger>(i * i, lowest); j < static_cast<UInteger>(upper); j += 2 * i) {
 				notPrimeSegment[(j - lower) / 2] = true;
 			}
 		}
-- 
2.43.0


From dbde382b8ce40c35844c0f139b31324ea751a8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 05/54] fix: integer overflow in isPerm() for extreme values

---
 src/validate.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 49e0ae9..f384740 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -560,14 +560,15 @@ template<typename RandomIt,
          typename = std::enable_if_t<std::is_integral_v<typename std::iterator_traits<RandomIt>::value_type>>>
 auto isPerm(RandomIt first, RandomIt last, typename std::iterator_traits<RandomIt>::value_type offset = {}) {
 	using T = typename std::iterator_traits<RandomIt>::value_type;
-	auto count = std::distance(first, last);
-	std::vector<bool> seen(count, false);
+	std::vector<bool> seen(std::distance(first, last), false);
 	for (; first != last; first++) {
 		const T& x = *first;
-		if (x < offset or x - offset >= count or seen[x - offset]) {
+		// unsigned since x - offset can overflow
+		const UInteger pos = static_cast<UInteger>(x) - static_cast<UInteger>(offset);
+		if (x < offset or pos >= seen.size() or seen[pos]) {
 			return boolean<T>(false, x);
 		}
-		seen[x - offset] = true;
+		seen[pos] = true;
 	}
 	return boolean<T>(true);
 }
-- 
2.43.0


From 120592cc9be34d8ad3ff36294a94ff53e85c93f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 06/54] fix: range() with the smallest possible step

---
 src/validate.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index f384740..ab04f73 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -796,7 +796,9 @@ std::vector<Integer> range(Integer from, Integer to, Integer step = 1) {
 	if (step < 0 and from <= to) return {};
 	UInteger n = static_cast<UInteger>(to) - static_cast<UInteger>(from);
 	if (step < 0) n = 0 - n;
-	std::vector<Integer> res(1 + (n - 1) / std::abs(step), from);
+	UInteger absStep = static_cast<UInteger>(step);
+	if (step < 0) absStep = 0 - absStep;
+	std::vector<Integer> res(1 + (n - 1) / absStep, from);
 	for (std::size_t i = 1; i < res.size(); i++) {
 		res[i] = res[i - 1] + step;
 	}
-- 
2.43.0


From 91577fa0b847b1ca826cf304480400daa6d60405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 07/54] fix: isLower(std::string_view) did not return the
 documented witness

---
 src/validate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index ab04f73..a53ec4e 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -746,9 +746,9 @@ void toDefaultCase(std::string& s) {
 	return toUpper(s);
 }
 
-constexpr bool isLower(std::string_view s) {
-	for (char c : s) if (!isLower(c)) return false;
-	return true;
+constexpr boolean<char> isLower(std::string_view s) {
+	for (char c : s) if (!isLower(c)) return boolean<char>(false, c);
+	return boolean<char>(true);
 }
 
 constexpr boolean<char> isUpper(std::string_view s) {
-- 
2.43.0


From 89b629e8f9c4b47d3041ddaa78cecf0846d439b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 08/54] fix: allAdjacent() for containers checked that no pair
 satisfies the predicate

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index a53ec4e..7270a8b 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -631,7 +631,7 @@ constexpr boolean<Integer> allAdjacent(RandomIt first, RandomIt last, BinaryPred
 }
 template<typename C, typename BinaryPredicate>
 constexpr boolean<Integer> allAdjacent(const C& c, BinaryPredicate p) {
-	return noneAdjacent(std::begin(c), std::end(c), p);
+	return allAdjacent(std::begin(c), std::end(c), p);
 }
 
 template<typename RandomIt>
-- 
2.43.0


From 72327ddfdff0a4dffa82c78ad237c77d519f5081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:51 +0000
Subject: [PATCH 09/54] fix: assertBounds() accepted the smallest integer

---
 src/validate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 7270a8b..99fbd52 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1200,8 +1200,8 @@ namespace details {
 	constexpr std::size_t assertBounds(RandomIt first, RandomIt last) {
 		std::size_t n = 0;
 		for (auto it = first; it != last; it++, n++) {
-			judgeAssert(std::abs(getX(*it)) <= 0x3FFF'FFFF, "assertBounds(): coordinates too large!");
-			judgeAssert(std::abs(getY(*it)) <= 0x3FFF'FFFF, "assertBounds(): coordinates too large!");
+			judgeAssert(-0x3FFF'FFFF <= getX(*it) and getX(*it) <= 0x3FFF'FFFF, "assertBounds(): coordinates too large!");
+			judgeAssert(-0x3FFF'FFFF <= getY(*it) and getY(*it) <= 0x3FFF'FFFF, "assertBounds(): coordinates too large!");
 		}
 		return n;
 	}
-- 
2.43.0


From a34493749325ffad2874cab9013d930b2bc45316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:51 +0000
Subject: [PATCH 10/54] fix: integer overflow in isCCW()

---
 src/validate.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 99fbd52..e996b23 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1311,9 +1311,10 @@ template<typename RandomIt>
 constexpr bool isCCW(RandomIt first, RandomIt last) {
 	std::size_t n = details::assertBounds(first, last);
 	if (n < 2) return false;
-	Integer area = cross(first[n-1], first[0]); // can't overflow
-	for (std::size_t i = 1; i < n; i++) area += cross(first[i-1], first[i]);
-	return area > 0;
+	UInteger area = static_cast<UInteger>(Integer(cross(first[n-1], first[0])));
+	// the sum of the first values may overflow but the total area can't
+	for (std::size_t i = 1; i < n; i++) area += static_cast<UInteger>(Integer(cross(first[i-1], first[i])));
+	return static_cast<Integer>(area) > 0;
 }
 template<typename C>
 constexpr bool isCCW(const C& c) {
-- 
2.43.0


From 4ec59020574fbf5da392e7e85c6fed6455a609dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:51 +0000
Subject: [PATCH 11/54] fix: isConvex() accepted polygons that wind around more
 than once

---
 src/validate.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index e996b23..6cdf50a 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1212,13 +1212,20 @@ constexpr bool isConvex(RandomIt first, RandomIt last) {
 	std::size_t n = details::assertBounds(first, last);
 	if (n < 3) return false;
 	bool hasArea = false;
+	auto increasing = [&](std::size_t i) {
+		const auto& a = first[i % n];
+		const auto& b = first[(i+1) % n];
+		return getX(a) == getX(b) ? getY(a) < getY(b) : getX(a) < getX(b);
+	};
+	std::size_t turns = 0;
 	for (std::size_t i = 0; i < n; i++) {
 		if (first[i] == first[(i+1) % n]) return false;
 		if (cross(first[0], first[i], first[(i+1) % n]) < 0) return false;
 		if (cross(first[i], first[(i+1) % n], first[(i+2) % n]) < 0) return false;
 		hasArea |= cross(first[i], first[(i+1) % n], first[(i+2) % n]) != 0;
+		turns += increasing(i) != increasing(i+1);
 	}
-	return hasArea;
+	return hasArea and turns == 2; // a convex polygon winds around exactly once
 }
 template<typename C>
 constexpr bool isConvex(const C& c) {
-- 
2.43.0


From cdbe85efce3e2456e5bed3e9cb720271c5ad31f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 12/54] fix: integer overflow in Random::prime()

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 6cdf50a..308fa56 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1602,7 +1602,7 @@ namespace Random {
 		Integer sampleL = lower <= 2 ? 0 : (lower / 2);
 		Integer sampleU = upper / 2;
 		if (sampleL < sampleU) {
-			for (Integer i = 0; i < details::PRIME_TRIALS and i < 4 * (upper - lower); i++) {
+			for (Integer i = 0; i < details::PRIME_TRIALS and i / 4 < upper - std::max<Integer>(0, lower); i++) {
 				Integer res = std::max<Integer>(2, 2*integer(sampleL, sampleU) | 1);
 				if (isPrime(res)) return res;
 			}
-- 
2.43.0


From 3c66c31f42c7c5bcdccd15253775e7723d2b730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 13/54] fix: Random::prime() returned 2 if upper is 2

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 308fa56..f4bddac 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1601,7 +1601,7 @@ namespace Random {
 		judgeAssert<std::invalid_argument>(lower < upper, "Random::prime(): Lower must be less than upper!");
 		Integer sampleL = lower <= 2 ? 0 : (lower / 2);
 		Integer sampleU = upper / 2;
-		if (sampleL < sampleU) {
+		if (upper > 2 and sampleL < sampleU) {
 			for (Integer i = 0; i < details::PRIME_TRIALS and i / 4 < upper - std::max<Integer>(0, lower); i++) {
 				Integer res = std::max<Integer>(2, 2*integer(sampleL, sampleU) | 1);
 				if (isPrime(res)) return res;
-- 
2.43.0


From c4b5e552524b4f113cb7ddd2e82303f8fd949fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 14/54] fix: Random::convex() could return collinear points

---
 src/validate.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/validate.h b/src/validate.h
index f4bddac..79a04eb 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1867,6 +1867,9 @@ namespace Random {
 				dirs[i] = {x[i], y[i]};
 			}
 			::details::cyclicSort(dirs);
+			bool collinear = true;
+			for (auto dir : dirs) collinear &= cross(dirs[0], dir) == 0;
+			if (collinear) continue;
 
 			std::vector<Point> res = {{0, 0}};
 			Integer maxX = 0;
-- 
2.43.0


From dbcc1fedaa66ce8961030fca9ada9ea458d337f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 15/54] fix: Random::nonCollinearPoints() failed for some
 primes

With p >= 2*dim the range of the offset is empty, and for dim = 1 there is
no suitable prime (and no point is needed).
---
 src/validate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 79a04eb..79d04b1 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1896,7 +1896,8 @@ namespace Random {
 		judgeAssert<std::invalid_argument>(dim <= 0x1FFF'FFFF, "Random::nonCollinearPoints(): dim too large!");
 		judgeAssert<std::invalid_argument>(n >= 0, "Random::nonCollinearPoints(): dim must be non negative!");
 		judgeAssert<std::invalid_argument>(dim > n, "Random::nonCollinearPoints(): dim too small!");
-		Integer p = prime(dim - 1, 2*dim + 2);
+		if (n == 0) return {};
+		Integer p = prime(dim - 1, 2*dim);
 		Integer rotA = 0;
 		Integer rotB = 0;
 		while (rotA == 0 and rotB == 0) {
-- 
2.43.0


From 902507b8317eafe721c42b995e1dd88c58ccc16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 16/54] fix: Random::nonCollinearPoints() could use a singular
 rotation

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 79d04b1..4295bfc 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1900,7 +1900,7 @@ namespace Random {
 		Integer p = prime(dim - 1, 2*dim);
 		Integer rotA = 0;
 		Integer rotB = 0;
-		while (rotA == 0 and rotB == 0) {
+		while ((rotA * rotA + rotB * rotB) % p == 0) {
 			rotA = integer(0, p);
 			rotB = integer(0, p);
 		}
-- 
2.43.0


From 88af4143a4b6c66709bf01085cefcb64dcdafaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 17/54] fix: offset range in Random::nonCollinearPoints() was
 off by one

---
 src/validate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 4295bfc..c98bd78 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1909,8 +1909,8 @@ namespace Random {
 			integer(0, p),
 			integer(0, p),
 		};
-		Integer dx = integer(-dim + 1, dim - p);
-		Integer dy = integer(-dim + 1, dim - p);
+		Integer dx = integer(-dim + 1, dim - p + 1);
+		Integer dy = integer(-dim + 1, dim - p + 1);
 
 		auto xs = distinct(n, p);
 		std::vector<Point> res;
-- 
2.43.0


From a60aef34080ced65e0cd4d0fc150de3ce5c01c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 18/54] fix: expectReal() rejected equal values and accepted
 different ones

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index c98bd78..29c4abb 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2667,7 +2667,7 @@ public:
 
 	void expectReal(Real expected) {
 		Real seen = real();
-		if (details::floatEqual(seen, expected, floatAbsTol, floatRelTol)) {
+		if (!details::floatEqual(seen, expected, floatAbsTol, floatRelTol)) {
 			*out << "Expected " << expected << " but got " << seen << "!";
 			if (std::isfinite(seen) and std::isfinite(expected)) {
 				Real absDiff = std::abs(seen-expected);
-- 
2.43.0


From 905be6bbae7328b33bb8506fda535f403d04ed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 19/54] fix: realStrict() accepted superfluous leading zeros

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 29c4abb..7dcaa7b 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -140,7 +140,7 @@ constexpr std::string_view TEXT_ELLIPSIS                = "[...]";
 constexpr auto REGEX_OPTIONS                            = std::regex::nosubs | std::regex::optimize;
 inline const std::regex INTEGER_REGEX("0|-?[1-9][0-9]*", REGEX_OPTIONS);
 inline const std::regex REAL_REGEX("[+-]?(([0-9]*\\.[0-9]+)|([0-9]+\\.)|([0-9]+))([eE][+-]?[0-9]+)?", REGEX_OPTIONS);
-inline const std::regex STRICT_REAL_REGEX("-?(0|([1-9][0-9]*))\\.?[0-9]*", REGEX_OPTIONS);
+inline const std::regex STRICT_REAL_REGEX("-?(0|([1-9][0-9]*))(\\.[0-9]*)?", REGEX_OPTIONS);
 
 static_assert(2'000'000'000'000'000'000_int < LARGE / 2, "LARGE too small");
 static_assert(LARGE <= std::numeric_limits<Integer>::max() / 2, "LARGE too big");
-- 
2.43.0


From 61ad5348f7112ffce2b7918fd8559ffcb9971cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 20/54] fix: long numeric tokens crashed the program (stack
 overflow in std::regex)

---
 src/validate.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 7dcaa7b..eff6404 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -137,7 +137,11 @@ constexpr std::string_view COMMAND_PREFIX               = "--";
 constexpr std::string_view CONSTRAINT_COMMAND           = "--constraints_file";
 constexpr std::string_view SEED_COMMAND                 = "--seed";
 constexpr std::string_view TEXT_ELLIPSIS                = "[...]";
-constexpr auto REGEX_OPTIONS                            = std::regex::nosubs | std::regex::optimize;
+constexpr auto REGEX_OPTIONS                            = std::regex::nosubs | std::regex::optimize
+#ifdef __GLIBCXX__
+                                                        | std::regex_constants::__polynomial // the default matcher recurses once per character
+#endif
+                                                        ;
 inline const std::regex INTEGER_REGEX("0|-?[1-9][0-9]*", REGEX_OPTIONS);
 inline const std::regex REAL_REGEX("[+-]?(([0-9]*\\.[0-9]+)|([0-9]+\\.)|([0-9]+))([eE][+-]?[0-9]+)?", REGEX_OPTIONS);
 inline const std::regex STRICT_REAL_REGEX("-?(0|([1-9][0-9]*))(\\.[0-9]*)?", REGEX_OPTIONS);
-- 
2.43.0


From a58e2268fd0447fd6524136f5607b51bbfe8c0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:13 +0000
Subject: [PATCH 21/54] fix: float tolerances were ignored by ans, teamAns and
 fromTeam

---
 src/validate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index eff6404..831e983 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2925,7 +2925,7 @@ namespace AnswerValidator {
 		juryOut = OutputStream(std::cout);
 
 		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		ans = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		ans = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 		initConstraints();
 	}
 
@@ -2949,7 +2949,7 @@ namespace OutputValidator {
 
 		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
 		juryAns = InputStream(std::filesystem::path(arguments[2]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		teamAns = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		teamAns = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 		initConstraints();
 	}
 
@@ -2972,7 +2972,7 @@ namespace Interactor {
 		toTeam = OutputStream(std::cout);
 
 		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		fromTeam = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		fromTeam = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 	}
 
 } // namespace Interactor
-- 
2.43.0


From 8b0d2d99295149f5b81ed2018a8d5bff3bd5e105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:39 +0000
Subject: [PATCH 22/54] fix: do not parse "+-5" as a negative number

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 831e983..f7fed08 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -960,7 +960,7 @@ namespace details {
 	bool parse(std::string_view s, T& res) {
 		const char* begin = s.data();
 		const char* end = s.data() + s.size();
-		if (!s.empty() && s[0] == '+') begin++;
+		if (s.size() > 1 && s[0] == '+' && s[1] != '-') begin++;
 		auto [ptr, ec] = std::from_chars(begin, end, res);
 		return ptr == end and ec == std::errc();
 	}
-- 
2.43.0


From 8b1c85e378f3274f778528f7072ffb213b8e6f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 23/54] fix: allow to use AES_RNG and Xoshiro256ss as
 RandomEngine

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index f7fed08..b2dd542 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1359,7 +1359,7 @@ namespace Random {
 	}
 
 	void seed(UInteger seed) {
-		details::randomNumberGenerator.seed(seed);
+		details::randomNumberGenerator = RandomEngine(seed);
 	}
 
 	//========================================================================//
-- 
2.43.0


From 8ed219533d32c70cd6367af3f86bddbff13ad478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:34 +0000
Subject: [PATCH 24/54] fix: overflow in Random::minimum() for wide ranges

---
 src/validate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index b2dd542..8e9df99 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1583,7 +1583,8 @@ namespace Random {
 	}
 
 	Integer minimum(Integer lower, Integer upper, Integer n) {// in [lower, upper)
-		return upper - 1 - maximum(0, upper - lower, n);
+		UInteger res = static_cast<UInteger>(maximum(lower, upper, n));
+		return static_cast<Integer>(static_cast<UInteger>(lower) + static_cast<UInteger>(upper) - 1 - res);
 	}
 	Integer minimum(Integer upper, Integer n) {
 		return minimum(0, upper, n);
-- 
2.43.0


From ad3d4444426f9c69c2381b83efc2e442724adfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:34 +0000
Subject: [PATCH 25/54] fix: overflow in the argument check of
 Random::distinct()

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 8e9df99..128bc35 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1703,7 +1703,7 @@ namespace Random {
 	//========================================================================//
 	std::vector<Integer> distinct(Integer count, Integer lower, Integer upper) {
 		judgeAssert<std::invalid_argument>(count >= 0, "Random::distinct(): count must be non negative!");
-		judgeAssert<std::invalid_argument>(lower + count <= upper, "Random::distinct(): upper - lower must be at least count!");
+		judgeAssert<std::invalid_argument>(lower <= upper and static_cast<UInteger>(upper) - static_cast<UInteger>(lower) >= static_cast<UInteger>(count), "Random::distinct(): upper - lower must be at least count!");
 		std::map<Integer, Integer> used;
 		std::vector<Integer> res;
 		for (Integer i = 0; i < count; i++) {
-- 
2.43.0


From b14b8b387a7f9d7b95d2a84709a980a7cdb3863b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:00 +0000
Subject: [PATCH 26/54] fix: Random::normal() used the square root of the
 standard deviation

---
 src/validate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 128bc35..a82bddc 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1448,7 +1448,7 @@ namespace Random {
 		Real u1 = real();
 		Real u2 = real();
 		Real res = std::sqrt(-2.0_real * std::log(u1)) * std::cos(2.0_real * details::PI * u2);
-		return std::sqrt(stddev) * res + mean;
+		return stddev * res + mean;
 	}
 	Real normal(Real lower, Real upper, Real mean, Real stddev) {// in [lower, upper)
 		judgeAssert<std::domain_error>(!std::isnan(lower), "Random::normal(): Lower must not be NaN!");
@@ -1462,10 +1462,10 @@ namespace Random {
 			// Box-Muller-Methode
 			// https://en.wikipedia.org/wiki/Box%E2%80%93Muller_transform
 			res = std::sqrt(-2.0_real * std::log(u1)) * std::cos(2.0_real * details::PI * u2);
-			res = std::sqrt(stddev) * res + mean;
+			res = stddev * res + mean;
 			if (lower <= res and res < upper) return res;
 			res = std::sqrt(-2.0_real * std::log(u1)) * std::sin(2.0_real * details::PI * u2);
-			res = std::sqrt(stddev) * res + mean;
+			res = stddev * res + mean;
 			if (lower <= res and res < upper) return res;
 		}
 	}
-- 
2.43.0


From be7fb217bdb8211455d5b8feb41782f94861d8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:00 +0000
Subject: [PATCH 27/54] fix: Random::real() could round up to 1

---
 src/validate.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/validate.h b/src/validate.h
index a82bddc..3a9b663 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1407,7 +1407,9 @@ namespace Random {
 	}
 
 	Real real() {// in [0, 1)
+		// clamp values which would be rounded up to 1
 		UInteger mantissa = details::randomNumberGenerator() | (1ull << 63);
+		mantissa = std::min<UInteger>(mantissa, 0xFFFF'FFFF'FFFF'F800_uint);
 		int exponent = -64;
 		UInteger x;
 		do {
-- 
2.43.0


From e3633c3a35e14278d47917ce3d0c91c97cca6acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 28/54] fix: Random::geometric() left the range for small p

---
 src/validate.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 3a9b663..f1f105d 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1487,20 +1487,21 @@ namespace Random {
 		}
 	}
 
-	Integer geometric(Real p) {// theoretically in [0, inf)
-		judgeAssert<std::domain_error>(0.0_real <= p and p < 1.0_real, "Random::geometric(): p must be in [0,1)!");
-		return std::llround(std::floor(std::log(real()) / std::log1p(-p)));
-	}
 	Integer geometric(Integer lower, Integer upper, Real p) {// in [lower, upper)
 		judgeAssert<std::invalid_argument>(lower < upper, "Random::geometric(): Lower must be less than upper!");
-		judgeAssert<std::domain_error>(0.0_real <= p and p < 1.0_real, "Random::geometric(): p must be in [0,1)!");
+		judgeAssert<std::domain_error>(0.0_real < p and p < 1.0_real, "Random::geometric(): p must be in (0,1)!");
+		UInteger ul = static_cast<UInteger>(lower);
+		UInteger uu = static_cast<UInteger>(upper);
 		while (true) {
 			// https://en.wikipedia.org/wiki/Geometric_distribution
 			// "The exponential distribution is the continuous analogue of the geometric distribution[...]"
-			Integer res = lower + std::llround(std::floor(std::log(real()) / std::log1p(-p)));
-			if (res < upper) return res;
+			Real res = std::floor(std::log(real()) / std::log1p(-p));
+			if (res < static_cast<Real>(uu - ul)) return static_cast<Integer>(ul + static_cast<UInteger>(res));
 		}
 	}
+	Integer geometric(Real p) {// theoretically in [0, inf)
+		return geometric(0, std::numeric_limits<Integer>::max(), p);
+	}
 
 	Integer binomial(Integer n, Real p) {// in [0, n]
 		judgeAssert<std::domain_error>(n >= 0, "Random::binomial(): n must be non negative!");
-- 
2.43.0


From 4f7e5dba1b08ad7d2e328ea870d2ec84aa6c8a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 29/54] fix: Random::binomial() returned values greater than n
 for small p

---
 src/validate.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index f1f105d..1982ddc 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1516,8 +1516,9 @@ namespace Random {
 			Real lg = std::log1p(-p);
 			if (lg >= 0) return swap ? n : 0;
 			do {
-				y += std::llround(std::floor(std::log(real()) / lg)) + 1;
-				if (y > n) return swap ? n - res : res;
+				Real skip = std::floor(std::log(real()) / lg);
+				if (skip >= n - y) return swap ? n - res : res;
+				y += std::llround(skip) + 1;
 				res++;
 			} while (true);
 		} else {
-- 
2.43.0


From edcd0e4d335cc246ab1e43898c173ac43799bd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 30/54] fix: integer overflow in Random::binomial() for large n

---
 src/validate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 1982ddc..6510f13 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1549,12 +1549,12 @@ namespace Random {
 				if (!initialized) {
 					alpha = (2.83_real + 5.1_real / b) * spq;
 					lpq = std::log(p / q);
-					m = std::round(std::floor((n + 1) * p));
+					m = std::round(std::floor((n + 1.0_real) * p));
 					h = std::lgamma(m + 1) + std::lgamma(n - m + 1);
 					initialized = true;
 				}
 				v *= alpha / (a / (us * us) + b);
-				if (std::log(v) <= h - std::lgamma(res + 1) - std::lgamma(n - res + 1) + (res - m) * lpq) {
+				if (std::log(v) <= h - std::lgamma(res + 1.0_real) - std::lgamma(n - res + 1.0_real) + (res - m) * lpq) {
 					return swap ? n - res : res;
 				}
 			} while (true);
-- 
2.43.0


From 0e448ed7d62a5d1f6ad42ec7a6eb0bb589fa2d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 31/54] fix: check the cycle lengths in Random::perm() before
 they are used

---
 src/validate.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 6510f13..c259095 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1733,11 +1733,13 @@ namespace Random {
 	}
 
 	std::vector<Integer> perm(const std::vector<Integer>& cycles, Integer offset = 0) {
+		for (Integer x : cycles) {
+			judgeAssert<std::invalid_argument>(x > 0, "Random::perm(): Cycle lengths must be positive!");
+		}
 		auto p = perm(std::accumulate(cycles.begin(), cycles.end(), 0_int));
 		std::vector<Integer> res(p.size());
 		Integer tmp = 0;
 		for (std::size_t i = 0; i < cycles.size(); tmp += cycles[i], i++) {
-			judgeAssert<std::invalid_argument>(cycles[i] > 0, "Random::perm(): Cycle lengths must be positive!");
 			for (Integer j = tmp; j + 1 < tmp + cycles[i]; j++) {
 				res[p[j]] = p[j + 1] + offset;
 			}
-- 
2.43.0


From 22046fb6ebdaff6ef3a61185fedb59a7fbf1b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 32/54] fix: repeated fix points in Random::perm()

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index c259095..0054d67 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1754,7 +1754,7 @@ namespace Random {
 		std::vector<Integer> res(count, -1);
 		for (Integer x : fix) {
 			judgeAssert<std::invalid_argument>(offset <= x and x < offset + count, "Random::perm(): fix point outside of permutation!");
-			std::swap(tmp[x - offset], res[x - offset]);
+			if (res[x - offset] < 0) std::swap(tmp[x - offset], res[x - offset]);
 		}
 		shuffle(tmp);
 		std::size_t i = 0;
-- 
2.43.0


From 32e71ad9f5ce9ed7f0247f2166a6f3b1eaee7253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:16 +0000
Subject: [PATCH 33/54] fix: directed random graphs contained each edge only
 with probability p/2

---
 src/graph_gen.h | 1972 ++++++++++++++++++++++++-----------------------
 1 file changed, 988 insertions(+), 984 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index e9d0259..ea74887 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -1,984 +1,988 @@
-//============================================================================//
-// graph_gen.h                                                                //
-//============================================================================//
-// This header can be used to Generate graphs. We support:                    //
-// - directed, undirected and weighted graphs                                 //
-// - uniform tree sampling                                                    //
-// - erdös renyi random graphs                                                //
-// - random graphs with a given degree sequence                               //
-// - random graphs with a power low distribution                              //
-// - various operations to construct graphs                                   //
-// This header requires validate.h zo to generate random graphs in a          //
-// deterministic and reproducable fashion.                                    //
-//============================================================================//
-//version 1.0.11                                                              //
-//https://github.com/mzuenni/icpc-header                                      //
-//============================================================================//
-
-#ifndef GRAPH_GENERATOR_H
-#define GRAPH_GENERATOR_H
-
-#include <cassert>
-#include <cstddef>
-#include <deque>
-#include <iostream>
-#include <ostream>
-#include <optional>
-#include <ostream>
-#include <queue>
-#include <random>
-#include <set>
-#include <utility>
-#include <ranges>
-#include <vector>
-#include "validate.h"
-
-namespace GraphDetail {
-	struct NoData final {};
-	constexpr NoData NOTHING;
-
-	// EdgeWrapper may be returned by some function
-	template<typename E, typename = void>
-	struct EdgeWrapper final {
-		const Integer from, to;
-		E& data;
-		EdgeWrapper(Integer from_, Integer to_, E& data_) : from(from_), to(to_), data(data_) {}
-
-		E& operator*() {
-			return data;
-		}
-		const E& operator*() const {
-			return data;
-		}
-
-		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			os << " " << *e;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			os << " " << *e;
-			return os;
-		}
-	};
-	template<typename E>
-	struct EdgeWrapper<E, typename std::enable_if_t<std::is_same_v<std::remove_cv_t<E>, NoData>>> final {
-		const Integer from, to;
-		EdgeWrapper(Integer from_, Integer to_) : from(from_), to(to_) {}
-		EdgeWrapper(Integer from_, Integer to_, E& /**/) : EdgeWrapper(from_, to_) {}
-
-		E& operator*() const {return NOTHING;}
-
-		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			return os;
-		}
-	};
-
-	// EdgeType is the internel representation of an edge that should never get exposed!
-	template<typename E>
-	struct EdgeType final {
-		// we use key(from, to) = from^to for efficiency
-		// the key function must have the following properties:
-		// key(a, b) == key(b, a)
-		// to1 != to2 <=> key(from, to1) != key(from, to2)
-		// from1 != from2 <=> key(from1, to) != key(from2, to)
-		Integer fromXorTo, to;
-		E data;
-		EdgeType(Integer fromXorTo_, Integer to_, const E& data_) : fromXorTo(fromXorTo_), to(to_), data(data_) {}
-		EdgeType(Integer fromXorTo_, Integer to_, E&& data_) : fromXorTo(fromXorTo_), to(to_), data(std::forward<E>(data_)) {}
-	};
-
-	template<typename E>
-	struct EdgePointerCompair final {
-		using is_transparent = std::true_type;
-		constexpr bool operator()(const EdgeType<E>* t, const EdgeType<E>* u) const {
-			return t->fromXorTo < u->fromXorTo;
-		}
-		constexpr bool operator()(const EdgeType<E>* t, Integer u) const {
-			return t->fromXorTo < u;
-		}
-		constexpr bool operator()(Integer t, const EdgeType<E>* u) const {
-			return t < u->fromXorTo;
-		}
-	};
-
-	template<typename E, bool DIR>
-	class GraphType final {
-		// do not change!
-		static constexpr Integer DEFAULT_MIN_ID = 0;
-
-		template<typename, bool> friend class GraphType;
-		using EdgeTypeValue = E;
-		using Edge = EdgeWrapper<E>;
-		using ConstEdge = EdgeWrapper<const E>;
-		using InternalEdge = EdgeType<E>;
-		using Graph = GraphType<E, DIR>;
-
-		std::deque<std::set<InternalEdge*, EdgePointerCompair<E>>> adj;
-		std::deque<InternalEdge> edges;
-		Integer minId;
-
-		inline void assertNode(Integer id) const {
-			if (id < minId or id >= minId + nodeCount()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [" + std::to_string(minId) + ", " + std::to_string(minId + nodeCount()) + ") !");
-			}
-		}
-
-		auto addEdge(InternalEdge* e) {
-			Integer from = e->fromXorTo ^ e->to;
-			Integer to = e->to;
-			if constexpr (!DIR) if (from != to) adj[to - minId].emplace(e);
-			return adj[from - minId].emplace(e).first;
-		}
-
-		void emplaceEdge(Integer from, Integer to, const E& data = {}) {
-			edges.emplace_back(from ^ to, to, data);
-		}
-
-		void buildAdj() {
-			for (auto& e : edges) addEdge(&e);
-		}
-	public:
-		// construct empty graph with vertices in [from, to)
-		explicit GraphType(Integer from, Integer to) :
-			adj(to - from),
-			minId(from) {
-			judgeAssert<std::invalid_argument>(from <= to, "Graph::from must not be greater than to!");
-		}
-		// construct empty graph with vertices in [0, n)
-		explicit GraphType(Integer n = 0) :
-			GraphType(DEFAULT_MIN_ID, n) {}
-
-		// copy graphs without breaking pointers
-		GraphType(const Graph& o) :
-			adj(o.size()),
-			edges(o.edges),
-			minId(o.minId) {
-			buildAdj();
-		}
-		Graph& operator=(const Graph& o) {
-			if (&o != this) {
-				adj.clear();
-				adj.resize(o.size());
-				edges = o.edges;
-				minId = o.minId;
-				buildAdj();
-			}
-			return *this;
-		}
-		Graph copy() const {
-			return *this;
-		}
-
-		//basic graph parameters
-		std::size_t size() const {
-			return adj.size();
-		}
-
-		Integer nodeCount() const {
-			return static_cast<Integer>(adj.size());
-		}
-
-		Integer edgeCount() const {
-			return static_cast<Integer>(edges.size());
-		}
-
-		Integer degree(Integer id) const {
-			assertNode(id);
-			return static_cast<Integer>(adj[id - minId].size());
-		}
-
-		Integer getMinId() const {
-			return minId;
-		}
-
-		Graph& setMinId(Integer newminId) {
-			for (auto& n : adj) n.clear();
-			for (auto& e : edges) {
-				Integer from = e.fromXorTo ^ e.to;
-				Integer to = e.to;
-				from = from - minId + newminId;
-				to = to - minId + newminId;
-				e.fromXorTo = from ^ to;
-				e.to = to;
-			}
-			minId = newminId;
-			buildAdj();
-			return *this;
-		}
-
-		Integer getNextId() const {
-			return minId + nodeCount();
-		}
-
-		Graph& normalize() {
-			return setMinId(DEFAULT_MIN_ID);
-		}
-
-		Graph range(Integer from, Integer to) const {
-			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
-			Graph res(from, to);
-			from = std::max(static_cast<Integer>(0), from - minId);
-			to = std::min(nodeCount(), to - minId);
-			for (const auto& e : getEdges()) {
-				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
-					res.addEdge(e.from, e.to, e.data);
-				}
-			}
-			return res;
-		}
-
-		// basic graph operations
-		std::optional<Edge> findEdge(Integer from, Integer to) & {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				return Edge(from, to, (*it)->data);
-			} else {
-				return {};
-			}
-		}
-
-		std::optional<ConstEdge> findEdge(Integer from, Integer to) const & {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				return ConstEdge(from, to, (*it)->data);
-			} else {
-				return {};
-			}
-		}
-
-		// ids may change!
-		Edge getEdgeById(std::size_t id) & {
-			if (id >= edges.size()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
-			}
-			return Edge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
-		}
-
-		ConstEdge getEdgeById(std::size_t id) const & {
-			if (id >= edges.size()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
-			}
-			return ConstEdge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
-		}
-
-		bool hasEdge(Integer from, Integer to) const {
-			assertNode(from);
-			assertNode(to);
-			return adj[from - minId].find(from ^ to) != adj[from - minId].end();
-		}
-
-		Edge addEdge(Integer from, Integer to, const E& data = {}) & {
-			assertNode(from);
-			assertNode(to);
-			judgeAssert(from != to, "Graph: invalid selfloop!");
-			auto it = adj[from - minId].find(from ^ to);
-			if (it == adj[from - minId].end()) {
-				emplaceEdge(from, to, data);
-				it = addEdge(&(edges.back()));
-			} else {
-				(*it)->data = data;
-			}
-			return Edge(from, to, (*it)->data);
-		}
-
-		bool eraseEdge(Integer from, Integer to) {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				InternalEdge* a = *it;
-				InternalEdge* b = &(edges.back());
-				adj[from - minId].erase(a);
-				if constexpr (!DIR) adj[to - minId].erase(a);
-				from = b->fromXorTo ^ b->to;
-				to = b->to;
-				adj[from - minId].erase(b);
-				if constexpr (!DIR) adj[to - minId].erase(b);
-				std::swap(*a, *b);
-				edges.pop_back();
-				if (a != b) addEdge(a);
-				return true;
-			} else {
-				return false;
-			}
-		}
-
-		bool eraseEdge(const Edge& edge) {
-			return eraseEdge(edge.from, edge.to);
-		}
-
-		std::ranges::view auto getEdges() const & {
-			return std::views::all(edges)
-				 | std::views::transform([](const InternalEdge& edge){
-				return ConstEdge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
-			});
-		}
-
-		std::ranges::view auto getEdges() & {
-			return std::views::all(edges)
-				 | std::views::transform([](InternalEdge& edge){
-				return Edge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
-			});
-		}
-
-		std::ranges::view auto operator[](Integer id) const & {
-			assertNode(id);
-			return std::views::all(adj[id-minId])
-				 | std::views::transform([id](InternalEdge* edge){
-				return ConstEdge(id, edge->fromXorTo ^ id, edge->data);
-			});
-		}
-
-		std::ranges::view auto operator[](Integer id) & {
-			assertNode(id);
-			return std::views::all(adj[id-minId])
-				 | std::views::transform([id](InternalEdge* edge){
-				return Edge(id, edge->fromXorTo ^ id, edge->data);
-			});
-		}
-
-		std::ranges::view auto getDegrees() const & {
-			return std::views::all(adj)
-				 | std::views::transform([](auto& n){
-				return n.size();
-			});
-		}
-
-		// more basic graph operations
-		Graph& combine(const Graph& o) {
-			if (&o != this) {
-				while (minId > o.minId) {
-					minId--;
-					adj.emplace_front();
-				}
-				while (minId + nodeCount() < o.minId + o.nodeCount()) {
-					adj.emplace_back();
-				}
-				for (const auto& e : o.edges) {
-					addEdge(e.fromXorTo ^ e.to, e.to, e.data);
-				}
-			}
-			return *this;
-		}
-
-		Graph& append(const Graph& o) {
-			//assert(&o != this); // should work
-			Integer diff = nodeCount() + minId - o.minId;
-			adj.resize(nodeCount() + o.nodeCount());
-			for (std::size_t i = 0, j = o.edges.size(); i < j; i++) {
-				Integer to = o.edges[i].to;
-				Integer from = o.edges[i].fromXorTo ^ to;
-				addEdge(from + diff, to + diff, o.edges[i].data);
-			}
-			return *this;
-		}
-
-		Graph& permutateEdges() {
-			for (auto& n : adj) n.clear();
-			Random::shuffle(edges.begin(), edges.end());
-			if constexpr(!DIR) {
-				for (auto& e : edges) {
-					if (Random::bit()) {
-						e.to ^= e.fromXorTo;
-					}
-				}
-			}
-			buildAdj();
-			return *this;
-		}
-
-		Graph& permutate(const std::vector<Integer>& perm) {
-			judgeAssert<std::invalid_argument>(isPerm(perm, minId), "Graph: not a permutation");
-			for (auto& n : adj) n.clear();
-			Random::shuffle(edges.begin(), edges.end());
-			for (auto& e : edges) {
-				if constexpr (!DIR) {
-					if (Random::bit()) {
-						e.to ^= e.fromXorTo;
-					}
-				}
-				e.fromXorTo ^= e.to;
-				e.fromXorTo = perm[e.fromXorTo - minId];
-				e.to = perm[e.to - minId];
-				e.fromXorTo ^= e.to;
-			}
-			buildAdj();
-			return *this;
-		}
-
-		Graph& permutate() {
-			std::vector<Integer> perm(size());
-			std::iota(perm.begin(), perm.end(), minId);
-			Random::shuffle(perm.begin(), perm.end());
-			return permutate(perm);
-		}
-
-		Graph subgraph(Integer m) const {
-			if (m >= edgeCount()) return *this;
-			Graph res(minId, minId + nodeCount());
-			auto todo = Random::distinct(m, 0, edgeCount());
-			for (auto id : todo) res.edges.emplace_back(edges[id]);
-			res.buildAdj();
-			return res;
-		}
-
-		GraphType<E, true>& reverse() {
-			static_assert(DIR, "Graph: reverse() is only available on directed graphs!");
-			for (auto& n : adj) n.clear();
-			for (auto& e : edges) {
-				e.to ^= e.fromXorTo;
-			}
-			buildAdj();
-			return *this;
-		}
-
-		GraphType<E, false> undirected() const {
-			static_assert(DIR, "Graph: undirected() is only available on directed graphs!");
-			GraphType<E, false> res(minId, minId + nodeCount());
-			for (const auto e : getEdges()) {
-				res.addEdge(e.from, e.to, *e);
-			}
-			return res;
-		}
-
-		template<typename PRED>
-		GraphType<E, true> directed(const PRED&& p) const {
-			static_assert(!DIR, "Graph: directed() is only available on undirected graphs!");
-			GraphType<E, true> res(minId, minId + nodeCount());
-			for (const auto& e : getEdges()) {
-				if constexpr (std::is_invocable_r_v<bool, PRED, Integer, Integer, const E&>) {
-					if (p(e.from, e.to, *e)) res.emplaceEdge(e.from, e.to, *e);
-					if (p(e.to, e.from, *e)) res.emplaceEdge(e.to, e.from, *e);
-				} else {
-					static_assert(std::is_invocable_r_v<bool, PRED, Integer, Integer>, "Graph: pred has wrong signature!");
-					if (p(e.from, e.to)) res.emplaceEdge(e.from, e.to, *e);
-					if (p(e.to, e.from)) res.emplaceEdge(e.to, e.from, *e);
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		GraphType<E, true> directed() const {
-			return directed([](Integer /**/, Integer /**/){
-				return true;
-			});
-		}
-
-		Graph complement() const {
-			Graph res(minId, minId + nodeCount());
-			for (Integer i = 0; i < nodeCount(); i++) {
-				for (Integer j = 0; j < i; j++) {
-					if (!hasEdge(i + minId, j + minId)) {
-						res.emplaceEdge(i + minId, j + minId);
-					}
-					if constexpr (DIR) {
-						if (!hasEdge(j + minId, i + minId)) {
-							res.emplaceEdge(j + minId, i + minId);
-						}
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		// advanced graph operations
-		Graph power(Integer k) const {
-			Graph res(minId, minId + nodeCount());
-			std::vector<bool> seen(nodeCount());
-			for (Integer i = 0; i < nodeCount(); i++) {
-				std::vector<std::pair<Integer, Integer>> queue = {{i, 0}};
-				for (std::size_t j = 0; j < queue.size(); j++) {
-					auto [c, d] = queue[j];
-					if (d < k) {
-						for (const auto& e : (*this)[c + minId]) {
-							if (!seen[e.to - minId]) {
-								seen[e.to - minId] = true;
-								queue.emplace_back(e.to - minId, d + 1);
-							}
-						}
-					}
-				}
-				for (auto [c, d] : queue) {
-					seen[c] = false;
-					if (i != c) {
-						res.emplaceEdge(i + minId, c + minId);
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph& transitiveClosure() const {
-			return power(nodeCount());
-		}
-
-		Graph product(const Graph& o) const {
-			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
-			Graph res(nodeCount() * o.nodeCount());
-			auto newId = [&](Integer a, Integer b){
-				return (b - o.minId) * nodeCount() + (a - minId);
-			};
-			for (const auto& e1 : getEdges()) {
-				for (const auto& e2 : o.getEdges()) {
-					res.emplaceEdge(newId(e1.from, e2.from), newId(e1.to, e2.to));
-					res.emplaceEdge(newId(e1.from, e2.to), newId(e1.to, e2.from));
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph cartesian(const Graph& o) const {
-			Graph res(nodeCount() * o.nodeCount());
-			auto newId = [&](Integer a, Integer b){
-				return (b-o.minId) * nodeCount() + (a-minId);
-			};
-			for (const auto& e : o.getEdges()) {
-				for (Integer i = 0; i < nodeCount(); i++) {
-					Integer from = newId(i + minId, e.from);
-					Integer to = newId(i + minId, e.to);
-					res.emplaceEdge(from, to);
-				}
-			}
-			for (const auto& e : getEdges()) {
-				for (Integer i = 0; i < o.nodeCount(); i++) {
-					Integer from = newId(e.from, i + o.minId);
-					Integer to = newId(e.to, i + o.minId);
-					res.emplaceEdge(from, to);
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph strongProduct(const Graph& o) const {
-			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
-			return o.cartesian(*this).combine(o.product(*this));
-		}
-
-		Graph lineGraph() const {
-			Graph tmp(minId, minId + nodeCount());
-			Integer nextEdge = 0;
-			for (const auto& e : getEdges()) {
-				tmp.emplaceEdge(e.from, e.to, nextEdge);
-				nextEdge++;
-			}
-			tmp.buildAdj();
-			Graph res(nextEdge);
-			for (const auto& e1 : tmp.getEdges()) {
-				if constexpr (DIR) {
-					for (const auto& e2 : tmp[e1.to]) {
-						res.emplaceEdge(*e1, *e2);
-					}
-				} else {
-					for (const auto& e2 : tmp[e1.to]) {
-						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
-					}
-					for (const auto& e2 : tmp[e1.from]) {
-						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		friend std::ostream& operator<<(std::ostream& os, const Graph& g) {
-			os << g.nodeCount() << " " << g.edgeCount();
-			for (const auto& e : g.getEdges()) os << '\n' << e;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const Graph& g) {
-			os << g.nodeCount() << " " << g.edgeCount();
-			for (const auto& e : g.getEdges()) os << '\n' << e;
-			return os;
-		}
-
-	};
-} // GraphDetail
-
-using NoData = GraphDetail::NoData;
-
-template<typename E = GraphDetail::NoData>
-using Edge = GraphDetail::EdgeWrapper<E>;
-
-template<typename E = GraphDetail::NoData>
-using Graph = GraphDetail::GraphType<E, false>;
-
-template<typename E = GraphDetail::NoData>
-using DiGraph = GraphDetail::GraphType<E, true>;
-
-// n independed vertices in range [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> independent(Integer n) {
-	return GraphDetail::GraphType<E, DIR>(n);
-}
-
-// n connected vertices in range [0, n)
-// if directed all edges go from i to j with i < j
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> clique(Integer n) {
-	// could be implemented as linegraph of a star.
-	GraphDetail::GraphType<E, DIR> res(n);
-	for (Integer j = 0; j < n; j++) {
-		for (Integer i = 0; i < j; i++) {
-			res.addEdge(i, j);
-		}
-	}
-	return res;
-}
-
-// complete bipartite graph with partition [0, n) and [n, n+m)
-// if directed all edges go from [0, n) to [n, n+m)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> bipartite(Integer n, Integer m) {
-	GraphDetail::GraphType<E, DIR> res(n+m);
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; j < m; j++) {
-			res.addEdge(i, n + j);
-		}
-	}
-	return res;
-}
-
-// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
-// each edge exists with a given number of edges k
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k) {
-	GraphDetail::GraphType<E, DIR> res(n+m);
-	Integer lim = n * m;
-	if constexpr (DIR) lim *= 2;
-	auto edges = Random::distinct(k, 0, lim);
-	for (Integer x : edges) {
-		Integer i = x % n;
-		Integer j = x / n + n;
-		if constexpr(DIR) {
-			if (x >= n * m) {
-				j -= m;
-				std::swap(i, j);
-			}
-		}
-		res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
-// each edge exists with probability p
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
-	return randomBipartite<E, DIR>(n, m, Random::binomial(n * m, p));
-}
-
-// star with root = 0 and chilrden [1, leaves]
-// if directed all edges go the root to [1, leaves)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> star(Integer leaves) {
-	return bipartite<E, DIR>(1, leaves);
-}
-
-// path 0-1-2-...-edges with vertices [0, edges]
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> path(Integer edges) {
-	GraphDetail::GraphType<E, DIR> res(edges+1);
-	for (Integer i = 0; i < edges; i++) {
-		res.addEdge(i, i + 1);
-	}
-	return res;
-}
-
-// path 0-1-2-...-n-1-0 with vertices [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> cycle(Integer n) {
-	auto p = path<E>(n-1);
-	p.addEdge(n - 1, 0);
-	return p;
-}
-
-// wheel with root = 1 and outer vertices 1-2-...-outer-1 with vertices [0, outer]
-template<typename E = NoData>
-Graph<E> wheel(Integer outer) {
-	return star<E>(outer).combine(path<E>(outer).setMinId(1));
-}
-
-// lolly graph with a path with p edges [0, p] and a clique [p, p+c) and
-// p is the vertex where clique and path are connected
-template<typename E = NoData>
-Graph<E> lolly(Integer p, Integer c) {
-	return path<E>(p).combine(clique<E>(c).setMinId(p));
-}
-
-// broom graph with a path with p edges [0, p] and a star [p, p+l]
-// p is the vertex where star and path are connected
-template<typename E = NoData>
-Graph<E> broom(Integer p, Integer l) {
-	return path<E>(p).combine(star<E>(l).setMinId(p));
-}
-
-// n times m grid
-// 0-1-...-n-1
-// | |      |
-// n- ... -2*n-1
-// |        |
-// .        .
-//          |
-//        -n*m-1
-template<typename E = NoData>
-Graph<E> grid(Integer n, Integer m) {
-	return path<E>(n-1).cartesian(path<E>(m-1));
-}
-template<typename E = NoData>
-Graph<E> grid(Integer n) {
-	return grid<E>(n, n);
-}
-
-// n dimensional hyper cube with vertices [0, 2^dimension)
-// a-b <=> |a^b|=1
-template<typename E = NoData>
-Graph<E> hypercube(Integer dimension) {
-	if (dimension < 2) return clique<E>(dimension+1);
-	return hypercube<E>(dimension-1).cartesian(clique<E>(2));
-}
-
-// complete tree with root at 0 and all subtrees are consecutive
-// vertices in [0, (children^{level+1}-1)/(children-1))
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> completeTree(Integer level, Integer children = 2) {
-	if (level <= 2) return star<E, DIR>(children);
-	GraphDetail::GraphType<E, DIR> res(1);
-	GraphDetail::GraphType<E, DIR> sub = completeTree<E, DIR>(level - 1, children);
-	for (Integer i = 0; i < children; i++) {
-		Integer next = res.nodeCount();
-		res.append(sub);
-		res.addEdge(0, next);
-	}
-	return res;
-}
-
-
-// complete boolean lattice i->j <=> i|j==j
-// vertices in [0, 2^level)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> booleanLattice(Integer level) {
-	GraphDetail::GraphType<E, DIR> res(1 << level);
-	for (Integer i = 0; i < res.nodeCount(); i++) {
-		for (Integer j = 1; j < res.nodeCount(); j*=2) {
-			if ((i | j) == i) {
-				res.addEdge(i, i^j);
-			}
-		}
-	}
-	return res;
-}
-
-// prefix of the rado graph i->j <=> i<j and j[i] == true;
-// vertices in [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> rado(Integer n) {
-	GraphDetail::GraphType<E, DIR> res(n);
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; (1 << j) < i; j++) {
-			if ((i | (1 << j)) == i) {
-				res.addEdge(i, j);
-			}
-		}
-	}
-	return res;
-}
-
-// generate a tree from a pruefer code
-// values should be in [0, sz(code)+2)
-template<typename E = NoData>
-Graph<E> pruefer(const std::vector<Integer>& code) {
-	Graph<E> res(code.size() + 2);
-	std::vector<Integer> count(res.nodeCount());
-	for (Integer x : code) count[x]++;
-	Integer current = -1;
-	Integer skip = -1;
-	auto getNext = [&](){
-		Integer oldSkip = skip;
-		skip = -1;
-		if (0 <= oldSkip and oldSkip <= current) return oldSkip;
-		for (current++; count[current] > 0; current++) {}
-		return current;
-	};
-	for (Integer x : code) {
-		Integer y = getNext();
-		res.addEdge(x, y);
-		count[x]--;
-		if (count[x] == 0) skip = x;
-	}
-	Integer x = getNext();
-	Integer y = getNext();
-	res.addEdge(x, y);
-	return res;
-}
-
-// generate a random tree with vertices [0, n)
-// if directed 0 is the root
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomTree(Integer n) {
-	if constexpr (!DIR) {
-		if (n <= 2) return clique<E>(n);
-		std::vector<Integer> code(n - 2);
-		for (Integer& x : code) x = Random::integer(n);
-		return pruefer<E>(code);
-	} else {
-		Graph<NoData> tmp = randomTree<NoData, false>(n);
-		DiGraph<E> res(n);
-		auto dfs = [&tmp, &res](auto&& self, Integer cur, Integer pref) -> void {
-			for (auto edge : tmp[cur]) {
-				if (edge.to == pref) continue;
-				res.addEdge(cur, edge.to);
-				self(self, edge.to, cur);
-			}
-		};
-		dfs(dfs, tmp.getMinId(), tmp.getMinId() - 1);
-		return res;
-	}
-}
-
-// generate a random graph (Erdös-Renyi)
-// each edge exists with a given number of edges m
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
-	GraphDetail::GraphType<E, DIR> res(n);
-	Integer lim = n * (n-1);
-	if constexpr (!DIR) lim /= 2;
-	auto edges = Random::distinct(m, 0, lim);
-	for (Integer x : edges) {
-		Integer i = x / n;
-		Integer j = x % n;
-		if constexpr(DIR) {
-			if (i == j) i = n - 1;
-		} else {
-			if (j <= i) {
-				i = n - 2 - i;
-				j = n - 1 - j;
-			}
-		}
-		res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random graph (Erdös-Renyi)
-// each edge exists with probability p
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
-	return randomGraph<E, DIR>(n, Random::binomial(n * (n - 1) / 2, p));
-}
-
-// generate a random graph with linear growing degrees
-template<typename E = NoData>
-Graph<E> randomGrowingGraph(Integer n, Real p) {
-	judgeAssert<std::domain_error>(0.0_real <= p and p <= 1.0_real, "randomGrowingGraph(): p must be in [0,1]!");
-	Graph<E> res(n);
-	for (Integer i = 0; i < n; i++) {
-		Integer deg = p * Random::real(0, i+1);
-		auto neighbours = Random::distinct(deg, 0, i);
-		for (Integer j : neighbours) res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random graph with a given degree sequence
-// (not uniform...)
-template<typename E = NoData>
-Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips = 10) {
-	Graph<E> res(std::ssize(degree));
-	// havel hakimi in O(m*log(n))
-	std::priority_queue<std::pair<Integer, Integer>> pq;
-	for (Integer i = 0; i < std::ssize(degree); i++) {
-		if (degree[i] > 0) {
-			pq.emplace(degree[i], i);
-		}
-	}
-	while (!pq.empty()) {
-		auto [d, c] = pq.top();
-		pq.pop();
-		if (std::ssize(pq) < d or d < 0) {
-			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
-		}
-		std::vector<std::pair<Integer, Integer>> todo;
-		for (Integer i = 0; i < d; i++) {
-			auto [dd, cc] = pq.top();
-			pq.pop();
-			res.addEdge(c, cc);
-			dd--;
-			if (dd > 0) todo.emplace_back(dd, cc);
-		}
-		for (const auto& e : todo) pq.push(e);
-	}
-	// randomly flip edges O(m*log(n))
-	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
-		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
-		auto b = res.getEdgeById(Random::integer(res.edgeCount()));
-		if (a.from == b.to or res.hasEdge(a.from, b.to)) continue;
-		if (b.from == a.to or res.hasEdge(b.from, a.to)) continue;
-		res.eraseEdge(a.from, a.to);
-		res.eraseEdge(b.from, b.to);
-		res.addEdge(a.from, b.to);
-		res.addEdge(b.from, a.to);
-	}
-	return res;
-}
-
-// generates a worstcase instance for Ford Fulkerson with dfs.
-// The graph contains 2*n vertices and has 2^n flow from 0 to 2*n-1.
-// Figure 2: https://people.computing.clemson.edu/~bcdean/iterm.pdf
-// Note that the specific order of edghes is required
-DiGraph<Integer> ffWorstcase(Integer n) {
-	judgeAssert(0 < n && n <= 63, "ffWorstcase(): n out of bounds");
-	DiGraph<Integer> res(2 * n);
-	res.addEdge(n-1, n, 1);
-	for (Integer i = n - 2, j = n+1, c = 1; j < 2 * n; i--, j++, c *= 2) {
-		res.addEdge(i, i+1, c);
-		res.addEdge(i, j-1, c);
-		res.addEdge(i+1, j, c);
-		res.addEdge(j-1, j, c);
-	}
-	return res;
-}
-
-// generates a worstcase instance for various min cost max flow algorithms.
-// The graph contains 2*n+2 vertices and has flow from 0 to 2*n+1.
-// Figure 4: https://link.springer.com/article/10.1007/BF01580132
-DiGraph<std::pair<Integer, Integer>> mcmfWorstcase(Integer n) {
-	judgeAssert(0 < n && n <= 60, "mcmfWorstcase(): n out of bounds");
-	DiGraph<std::pair<Integer, Integer>> res(2 * n + 2);
-	Integer inf = 5 * (1ll << n) / 4;
-	for (Integer i = 0; i < n; i++) {
-		res.addEdge(0, i + 1, {i < 2 ? 2 * i + 1 : 5ll << (i - 2), 0});
-	}
-	res.addEdge(1, n + 1, {inf, 0});
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; j < n; j++) {
-			if (i == j) continue;
-			res.addEdge(i + 1, j + 1 + n, {inf, (1ll << std::max(i, j)) - 1});
-		}
-	}
-	for (Integer i = 0; i < n; i++) {
-		res.addEdge(i + 1 + n, 2 * n + 1, {i < 2 ? 2: 5ll << (i - 2), 0});
-	}
-	return res;
-}
-
-#endif
+//============================================================================//
+// graph_gen.h                                                                //
+//============================================================================//
+// This header can be used to Generate graphs. We support:                    //
+// - directed, undirected and weighted graphs                                 //
+// - uniform tree sampling                                                    //
+// - erdös renyi random graphs                                                //
+// - random graphs with a given degree sequence                               //
+// - random graphs with a power low distribution                              //
+// - various operations to construct graphs                                   //
+// This header requires validate.h zo to generate random graphs in a          //
+// deterministic and reproducable fashion.                                    //
+//============================================================================//
+//version 1.0.11                                                              //
+//https://github.com/mzuenni/icpc-header                                      //
+//============================================================================//
+
+#ifndef GRAPH_GENERATOR_H
+#define GRAPH_GENERATOR_H
+
+#include <cassert>
+#include <cstddef>
+#include <deque>
+#include <iostream>
+#include <ostream>
+#include <optional>
+#include <ostream>
+#include <queue>
+#include <random>
+#include <set>
+#include <utility>
+#include <ranges>
+#include <vector>
+#include "validate.h"
+
+namespace GraphDetail {
+	struct NoData final {};
+	constexpr NoData NOTHING;
+
+	// EdgeWrapper may be returned by some function
+	template<typename E, typename = void>
+	struct EdgeWrapper final {
+		const Integer from, to;
+		E& data;
+		EdgeWrapper(Integer from_, Integer to_, E& data_) : from(from_), to(to_), data(data_) {}
+
+		E& operator*() {
+			return data;
+		}
+		const E& operator*() const {
+			return data;
+		}
+
+		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			os << " " << *e;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			os << " " << *e;
+			return os;
+		}
+	};
+	template<typename E>
+	struct EdgeWrapper<E, typename std::enable_if_t<std::is_same_v<std::remove_cv_t<E>, NoData>>> final {
+		const Integer from, to;
+		EdgeWrapper(Integer from_, Integer to_) : from(from_), to(to_) {}
+		EdgeWrapper(Integer from_, Integer to_, E& /**/) : EdgeWrapper(from_, to_) {}
+
+		E& operator*() const {return NOTHING;}
+
+		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			return os;
+		}
+	};
+
+	// EdgeType is the internel representation of an edge that should never get exposed!
+	template<typename E>
+	struct EdgeType final {
+		// we use key(from, to) = from^to for efficiency
+		// the key function must have the following properties:
+		// key(a, b) == key(b, a)
+		// to1 != to2 <=> key(from, to1) != key(from, to2)
+		// from1 != from2 <=> key(from1, to) != key(from2, to)
+		Integer fromXorTo, to;
+		E data;
+		EdgeType(Integer fromXorTo_, Integer to_, const E& data_) : fromXorTo(fromXorTo_), to(to_), data(data_) {}
+		EdgeType(Integer fromXorTo_, Integer to_, E&& data_) : fromXorTo(fromXorTo_), to(to_), data(std::forward<E>(data_)) {}
+	};
+
+	template<typename E>
+	struct EdgePointerCompair final {
+		using is_transparent = std::true_type;
+		constexpr bool operator()(const EdgeType<E>* t, const EdgeType<E>* u) const {
+			return t->fromXorTo < u->fromXorTo;
+		}
+		constexpr bool operator()(const EdgeType<E>* t, Integer u) const {
+			return t->fromXorTo < u;
+		}
+		constexpr bool operator()(Integer t, const EdgeType<E>* u) const {
+			return t < u->fromXorTo;
+		}
+	};
+
+	template<typename E, bool DIR>
+	class GraphType final {
+		// do not change!
+		static constexpr Integer DEFAULT_MIN_ID = 0;
+
+		template<typename, bool> friend class GraphType;
+		using EdgeTypeValue = E;
+		using Edge = EdgeWrapper<E>;
+		using ConstEdge = EdgeWrapper<const E>;
+		using InternalEdge = EdgeType<E>;
+		using Graph = GraphType<E, DIR>;
+
+		std::deque<std::set<InternalEdge*, EdgePointerCompair<E>>> adj;
+		std::deque<InternalEdge> edges;
+		Integer minId;
+
+		inline void assertNode(Integer id) const {
+			if (id < minId or id >= minId + nodeCount()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [" + std::to_string(minId) + ", " + std::to_string(minId + nodeCount()) + ") !");
+			}
+		}
+
+		auto addEdge(InternalEdge* e) {
+			Integer from = e->fromXorTo ^ e->to;
+			Integer to = e->to;
+			if constexpr (!DIR) if (from != to) adj[to - minId].emplace(e);
+			return adj[from - minId].emplace(e).first;
+		}
+
+		void emplaceEdge(Integer from, Integer to, const E& data = {}) {
+			edges.emplace_back(from ^ to, to, data);
+		}
+
+		void buildAdj() {
+			for (auto& e : edges) addEdge(&e);
+		}
+	public:
+		// construct empty graph with vertices in [from, to)
+		explicit GraphType(Integer from, Integer to) :
+			adj(to - from),
+			minId(from) {
+			judgeAssert<std::invalid_argument>(from <= to, "Graph::from must not be greater than to!");
+		}
+		// construct empty graph with vertices in [0, n)
+		explicit GraphType(Integer n = 0) :
+			GraphType(DEFAULT_MIN_ID, n) {}
+
+		// copy graphs without breaking pointers
+		GraphType(const Graph& o) :
+			adj(o.size()),
+			edges(o.edges),
+			minId(o.minId) {
+			buildAdj();
+		}
+		Graph& operator=(const Graph& o) {
+			if (&o != this) {
+				adj.clear();
+				adj.resize(o.size());
+				edges = o.edges;
+				minId = o.minId;
+				buildAdj();
+			}
+			return *this;
+		}
+		Graph copy() const {
+			return *this;
+		}
+
+		//basic graph parameters
+		std::size_t size() const {
+			return adj.size();
+		}
+
+		Integer nodeCount() const {
+			return static_cast<Integer>(adj.size());
+		}
+
+		Integer edgeCount() const {
+			return static_cast<Integer>(edges.size());
+		}
+
+		Integer degree(Integer id) const {
+			assertNode(id);
+			return static_cast<Integer>(adj[id - minId].size());
+		}
+
+		Integer getMinId() const {
+			return minId;
+		}
+
+		Graph& setMinId(Integer newminId) {
+			for (auto& n : adj) n.clear();
+			for (auto& e : edges) {
+				Integer from = e.fromXorTo ^ e.to;
+				Integer to = e.to;
+				from = from - minId + newminId;
+				to = to - minId + newminId;
+				e.fromXorTo = from ^ to;
+				e.to = to;
+			}
+			minId = newminId;
+			buildAdj();
+			return *this;
+		}
+
+		Integer getNextId() const {
+			return minId + nodeCount();
+		}
+
+		Graph& normalize() {
+			return setMinId(DEFAULT_MIN_ID);
+		}
+
+		Graph range(Integer from, Integer to) const {
+			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
+			Graph res(from, to);
+			from = std::max(static_cast<Integer>(0), from - minId);
+			to = std::min(nodeCount(), to - minId);
+			for (const auto& e : getEdges()) {
+				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
+					res.addEdge(e.from, e.to, e.data);
+				}
+			}
+			return res;
+		}
+
+		// basic graph operations
+		std::optional<Edge> findEdge(Integer from, Integer to) & {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				return Edge(from, to, (*it)->data);
+			} else {
+				return {};
+			}
+		}
+
+		std::optional<ConstEdge> findEdge(Integer from, Integer to) const & {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				return ConstEdge(from, to, (*it)->data);
+			} else {
+				return {};
+			}
+		}
+
+		// ids may change!
+		Edge getEdgeById(std::size_t id) & {
+			if (id >= edges.size()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
+			}
+			return Edge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
+		}
+
+		ConstEdge getEdgeById(std::size_t id) const & {
+			if (id >= edges.size()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
+			}
+			return ConstEdge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
+		}
+
+		bool hasEdge(Integer from, Integer to) const {
+			assertNode(from);
+			assertNode(to);
+			return adj[from - minId].find(from ^ to) != adj[from - minId].end();
+		}
+
+		Edge addEdge(Integer from, Integer to, const E& data = {}) & {
+			assertNode(from);
+			assertNode(to);
+			judgeAssert(from != to, "Graph: invalid selfloop!");
+			auto it = adj[from - minId].find(from ^ to);
+			if (it == adj[from - minId].end()) {
+				emplaceEdge(from, to, data);
+				it = addEdge(&(edges.back()));
+			} else {
+				(*it)->data = data;
+			}
+			return Edge(from, to, (*it)->data);
+		}
+
+		bool eraseEdge(Integer from, Integer to) {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				InternalEdge* a = *it;
+				InternalEdge* b = &(edges.back());
+				adj[from - minId].erase(a);
+				if constexpr (!DIR) adj[to - minId].erase(a);
+				from = b->fromXorTo ^ b->to;
+				to = b->to;
+				adj[from - minId].erase(b);
+				if constexpr (!DIR) adj[to - minId].erase(b);
+				std::swap(*a, *b);
+				edges.pop_back();
+				if (a != b) addEdge(a);
+				return true;
+			} else {
+				return false;
+			}
+		}
+
+		bool eraseEdge(const Edge& edge) {
+			return eraseEdge(edge.from, edge.to);
+		}
+
+		std::ranges::view auto getEdges() const & {
+			return std::views::all(edges)
+				 | std::views::transform([](const InternalEdge& edge){
+				return ConstEdge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
+			});
+		}
+
+		std::ranges::view auto getEdges() & {
+			return std::views::all(edges)
+				 | std::views::transform([](InternalEdge& edge){
+				return Edge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
+			});
+		}
+
+		std::ranges::view auto operator[](Integer id) const & {
+			assertNode(id);
+			return std::views::all(adj[id-minId])
+				 | std::views::transform([id](InternalEdge* edge){
+				return ConstEdge(id, edge->fromXorTo ^ id, edge->data);
+			});
+		}
+
+		std::ranges::view auto operator[](Integer id) & {
+			assertNode(id);
+			return std::views::all(adj[id-minId])
+				 | std::views::transform([id](InternalEdge* edge){
+				return Edge(id, edge->fromXorTo ^ id, edge->data);
+			});
+		}
+
+		std::ranges::view auto getDegrees() const & {
+			return std::views::all(adj)
+				 | std::views::transform([](auto& n){
+				return n.size();
+			});
+		}
+
+		// more basic graph operations
+		Graph& combine(const Graph& o) {
+			if (&o != this) {
+				while (minId > o.minId) {
+					minId--;
+					adj.emplace_front();
+				}
+				while (minId + nodeCount() < o.minId + o.nodeCount()) {
+					adj.emplace_back();
+				}
+				for (const auto& e : o.edges) {
+					addEdge(e.fromXorTo ^ e.to, e.to, e.data);
+				}
+			}
+			return *this;
+		}
+
+		Graph& append(const Graph& o) {
+			//assert(&o != this); // should work
+			Integer diff = nodeCount() + minId - o.minId;
+			adj.resize(nodeCount() + o.nodeCount());
+			for (std::size_t i = 0, j = o.edges.size(); i < j; i++) {
+				Integer to = o.edges[i].to;
+				Integer from = o.edges[i].fromXorTo ^ to;
+				addEdge(from + diff, to + diff, o.edges[i].data);
+			}
+			return *this;
+		}
+
+		Graph& permutateEdges() {
+			for (auto& n : adj) n.clear();
+			Random::shuffle(edges.begin(), edges.end());
+			if constexpr(!DIR) {
+				for (auto& e : edges) {
+					if (Random::bit()) {
+						e.to ^= e.fromXorTo;
+					}
+				}
+			}
+			buildAdj();
+			return *this;
+		}
+
+		Graph& permutate(const std::vector<Integer>& perm) {
+			judgeAssert<std::invalid_argument>(isPerm(perm, minId), "Graph: not a permutation");
+			for (auto& n : adj) n.clear();
+			Random::shuffle(edges.begin(), edges.end());
+			for (auto& e : edges) {
+				if constexpr (!DIR) {
+					if (Random::bit()) {
+						e.to ^= e.fromXorTo;
+					}
+				}
+				e.fromXorTo ^= e.to;
+				e.fromXorTo = perm[e.fromXorTo - minId];
+				e.to = perm[e.to - minId];
+				e.fromXorTo ^= e.to;
+			}
+			buildAdj();
+			return *this;
+		}
+
+		Graph& permutate() {
+			std::vector<Integer> perm(size());
+			std::iota(perm.begin(), perm.end(), minId);
+			Random::shuffle(perm.begin(), perm.end());
+			return permutate(perm);
+		}
+
+		Graph subgraph(Integer m) const {
+			if (m >= edgeCount()) return *this;
+			Graph res(minId, minId + nodeCount());
+			auto todo = Random::distinct(m, 0, edgeCount());
+			for (auto id : todo) res.edges.emplace_back(edges[id]);
+			res.buildAdj();
+			return res;
+		}
+
+		GraphType<E, true>& reverse() {
+			static_assert(DIR, "Graph: reverse() is only available on directed graphs!");
+			for (auto& n : adj) n.clear();
+			for (auto& e : edges) {
+				e.to ^= e.fromXorTo;
+			}
+			buildAdj();
+			return *this;
+		}
+
+		GraphType<E, false> undirected() const {
+			static_assert(DIR, "Graph: undirected() is only available on directed graphs!");
+			GraphType<E, false> res(minId, minId + nodeCount());
+			for (const auto e : getEdges()) {
+				res.addEdge(e.from, e.to, *e);
+			}
+			return res;
+		}
+
+		template<typename PRED>
+		GraphType<E, true> directed(const PRED&& p) const {
+			static_assert(!DIR, "Graph: directed() is only available on undirected graphs!");
+			GraphType<E, true> res(minId, minId + nodeCount());
+			for (const auto& e : getEdges()) {
+				if constexpr (std::is_invocable_r_v<bool, PRED, Integer, Integer, const E&>) {
+					if (p(e.from, e.to, *e)) res.emplaceEdge(e.from, e.to, *e);
+					if (p(e.to, e.from, *e)) res.emplaceEdge(e.to, e.from, *e);
+				} else {
+					static_assert(std::is_invocable_r_v<bool, PRED, Integer, Integer>, "Graph: pred has wrong signature!");
+					if (p(e.from, e.to)) res.emplaceEdge(e.from, e.to, *e);
+					if (p(e.to, e.from)) res.emplaceEdge(e.to, e.from, *e);
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		GraphType<E, true> directed() const {
+			return directed([](Integer /**/, Integer /**/){
+				return true;
+			});
+		}
+
+		Graph complement() const {
+			Graph res(minId, minId + nodeCount());
+			for (Integer i = 0; i < nodeCount(); i++) {
+				for (Integer j = 0; j < i; j++) {
+					if (!hasEdge(i + minId, j + minId)) {
+						res.emplaceEdge(i + minId, j + minId);
+					}
+					if constexpr (DIR) {
+						if (!hasEdge(j + minId, i + minId)) {
+							res.emplaceEdge(j + minId, i + minId);
+						}
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		// advanced graph operations
+		Graph power(Integer k) const {
+			Graph res(minId, minId + nodeCount());
+			std::vector<bool> seen(nodeCount());
+			for (Integer i = 0; i < nodeCount(); i++) {
+				std::vector<std::pair<Integer, Integer>> queue = {{i, 0}};
+				for (std::size_t j = 0; j < queue.size(); j++) {
+					auto [c, d] = queue[j];
+					if (d < k) {
+						for (const auto& e : (*this)[c + minId]) {
+							if (!seen[e.to - minId]) {
+								seen[e.to - minId] = true;
+								queue.emplace_back(e.to - minId, d + 1);
+							}
+						}
+					}
+				}
+				for (auto [c, d] : queue) {
+					seen[c] = false;
+					if (i != c) {
+						res.emplaceEdge(i + minId, c + minId);
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph& transitiveClosure() const {
+			return power(nodeCount());
+		}
+
+		Graph product(const Graph& o) const {
+			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
+			Graph res(nodeCount() * o.nodeCount());
+			auto newId = [&](Integer a, Integer b){
+				return (b - o.minId) * nodeCount() + (a - minId);
+			};
+			for (const auto& e1 : getEdges()) {
+				for (const auto& e2 : o.getEdges()) {
+					res.emplaceEdge(newId(e1.from, e2.from), newId(e1.to, e2.to));
+					res.emplaceEdge(newId(e1.from, e2.to), newId(e1.to, e2.from));
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph cartesian(const Graph& o) const {
+			Graph res(nodeCount() * o.nodeCount());
+			auto newId = [&](Integer a, Integer b){
+				return (b-o.minId) * nodeCount() + (a-minId);
+			};
+			for (const auto& e : o.getEdges()) {
+				for (Integer i = 0; i < nodeCount(); i++) {
+					Integer from = newId(i + minId, e.from);
+					Integer to = newId(i + minId, e.to);
+					res.emplaceEdge(from, to);
+				}
+			}
+			for (const auto& e : getEdges()) {
+				for (Integer i = 0; i < o.nodeCount(); i++) {
+					Integer from = newId(e.from, i + o.minId);
+					Integer to = newId(e.to, i + o.minId);
+					res.emplaceEdge(from, to);
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph strongProduct(const Graph& o) const {
+			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
+			return o.cartesian(*this).combine(o.product(*this));
+		}
+
+		Graph lineGraph() const {
+			Graph tmp(minId, minId + nodeCount());
+			Integer nextEdge = 0;
+			for (const auto& e : getEdges()) {
+				tmp.emplaceEdge(e.from, e.to, nextEdge);
+				nextEdge++;
+			}
+			tmp.buildAdj();
+			Graph res(nextEdge);
+			for (const auto& e1 : tmp.getEdges()) {
+				if constexpr (DIR) {
+					for (const auto& e2 : tmp[e1.to]) {
+						res.emplaceEdge(*e1, *e2);
+					}
+				} else {
+					for (const auto& e2 : tmp[e1.to]) {
+						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
+					}
+					for (const auto& e2 : tmp[e1.from]) {
+						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		friend std::ostream& operator<<(std::ostream& os, const Graph& g) {
+			os << g.nodeCount() << " " << g.edgeCount();
+			for (const auto& e : g.getEdges()) os << '\n' << e;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const Graph& g) {
+			os << g.nodeCount() << " " << g.edgeCount();
+			for (const auto& e : g.getEdges()) os << '\n' << e;
+			return os;
+		}
+
+	};
+} // GraphDetail
+
+using NoData = GraphDetail::NoData;
+
+template<typename E = GraphDetail::NoData>
+using Edge = GraphDetail::EdgeWrapper<E>;
+
+template<typename E = GraphDetail::NoData>
+using Graph = GraphDetail::GraphType<E, false>;
+
+template<typename E = GraphDetail::NoData>
+using DiGraph = GraphDetail::GraphType<E, true>;
+
+// n independed vertices in range [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> independent(Integer n) {
+	return GraphDetail::GraphType<E, DIR>(n);
+}
+
+// n connected vertices in range [0, n)
+// if directed all edges go from i to j with i < j
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> clique(Integer n) {
+	// could be implemented as linegraph of a star.
+	GraphDetail::GraphType<E, DIR> res(n);
+	for (Integer j = 0; j < n; j++) {
+		for (Integer i = 0; i < j; i++) {
+			res.addEdge(i, j);
+		}
+	}
+	return res;
+}
+
+// complete bipartite graph with partition [0, n) and [n, n+m)
+// if directed all edges go from [0, n) to [n, n+m)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> bipartite(Integer n, Integer m) {
+	GraphDetail::GraphType<E, DIR> res(n+m);
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; j < m; j++) {
+			res.addEdge(i, n + j);
+		}
+	}
+	return res;
+}
+
+// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
+// each edge exists with a given number of edges k
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k) {
+	GraphDetail::GraphType<E, DIR> res(n+m);
+	Integer lim = n * m;
+	if constexpr (DIR) lim *= 2;
+	auto edges = Random::distinct(k, 0, lim);
+	for (Integer x : edges) {
+		Integer i = x % n;
+		Integer j = x / n + n;
+		if constexpr(DIR) {
+			if (x >= n * m) {
+				j -= m;
+				std::swap(i, j);
+			}
+		}
+		res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
+// each edge exists with probability p
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
+	Integer lim = n * m;
+	if constexpr (DIR) lim *= 2;
+	return randomBipartite<E, DIR>(n, m, Random::binomial(lim, p));
+}
+
+// star with root = 0 and chilrden [1, leaves]
+// if directed all edges go the root to [1, leaves)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> star(Integer leaves) {
+	return bipartite<E, DIR>(1, leaves);
+}
+
+// path 0-1-2-...-edges with vertices [0, edges]
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> path(Integer edges) {
+	GraphDetail::GraphType<E, DIR> res(edges+1);
+	for (Integer i = 0; i < edges; i++) {
+		res.addEdge(i, i + 1);
+	}
+	return res;
+}
+
+// path 0-1-2-...-n-1-0 with vertices [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> cycle(Integer n) {
+	auto p = path<E>(n-1);
+	p.addEdge(n - 1, 0);
+	return p;
+}
+
+// wheel with root = 1 and outer vertices 1-2-...-outer-1 with vertices [0, outer]
+template<typename E = NoData>
+Graph<E> wheel(Integer outer) {
+	return star<E>(outer).combine(path<E>(outer).setMinId(1));
+}
+
+// lolly graph with a path with p edges [0, p] and a clique [p, p+c) and
+// p is the vertex where clique and path are connected
+template<typename E = NoData>
+Graph<E> lolly(Integer p, Integer c) {
+	return path<E>(p).combine(clique<E>(c).setMinId(p));
+}
+
+// broom graph with a path with p edges [0, p] and a star [p, p+l]
+// p is the vertex where star and path are connected
+template<typename E = NoData>
+Graph<E> broom(Integer p, Integer l) {
+	return path<E>(p).combine(star<E>(l).setMinId(p));
+}
+
+// n times m grid
+// 0-1-...-n-1
+// | |      |
+// n- ... -2*n-1
+// |        |
+// .        .
+//          |
+//        -n*m-1
+template<typename E = NoData>
+Graph<E> grid(Integer n, Integer m) {
+	return path<E>(n-1).cartesian(path<E>(m-1));
+}
+template<typename E = NoData>
+Graph<E> grid(Integer n) {
+	return grid<E>(n, n);
+}
+
+// n dimensional hyper cube with vertices [0, 2^dimension)
+// a-b <=> |a^b|=1
+template<typename E = NoData>
+Graph<E> hypercube(Integer dimension) {
+	if (dimension < 2) return clique<E>(dimension+1);
+	return hypercube<E>(dimension-1).cartesian(clique<E>(2));
+}
+
+// complete tree with root at 0 and all subtrees are consecutive
+// vertices in [0, (children^{level+1}-1)/(children-1))
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> completeTree(Integer level, Integer children = 2) {
+	if (level <= 2) return star<E, DIR>(children);
+	GraphDetail::GraphType<E, DIR> res(1);
+	GraphDetail::GraphType<E, DIR> sub = completeTree<E, DIR>(level - 1, children);
+	for (Integer i = 0; i < children; i++) {
+		Integer next = res.nodeCount();
+		res.append(sub);
+		res.addEdge(0, next);
+	}
+	return res;
+}
+
+
+// complete boolean lattice i->j <=> i|j==j
+// vertices in [0, 2^level)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> booleanLattice(Integer level) {
+	GraphDetail::GraphType<E, DIR> res(1 << level);
+	for (Integer i = 0; i < res.nodeCount(); i++) {
+		for (Integer j = 1; j < res.nodeCount(); j*=2) {
+			if ((i | j) == i) {
+				res.addEdge(i, i^j);
+			}
+		}
+	}
+	return res;
+}
+
+// prefix of the rado graph i->j <=> i<j and j[i] == true;
+// vertices in [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> rado(Integer n) {
+	GraphDetail::GraphType<E, DIR> res(n);
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; (1 << j) < i; j++) {
+			if ((i | (1 << j)) == i) {
+				res.addEdge(i, j);
+			}
+		}
+	}
+	return res;
+}
+
+// generate a tree from a pruefer code
+// values should be in [0, sz(code)+2)
+template<typename E = NoData>
+Graph<E> pruefer(const std::vector<Integer>& code) {
+	Graph<E> res(code.size() + 2);
+	std::vector<Integer> count(res.nodeCount());
+	for (Integer x : code) count[x]++;
+	Integer current = -1;
+	Integer skip = -1;
+	auto getNext = [&](){
+		Integer oldSkip = skip;
+		skip = -1;
+		if (0 <= oldSkip and oldSkip <= current) return oldSkip;
+		for (current++; count[current] > 0; current++) {}
+		return current;
+	};
+	for (Integer x : code) {
+		Integer y = getNext();
+		res.addEdge(x, y);
+		count[x]--;
+		if (count[x] == 0) skip = x;
+	}
+	Integer x = getNext();
+	Integer y = getNext();
+	res.addEdge(x, y);
+	return res;
+}
+
+// generate a random tree with vertices [0, n)
+// if directed 0 is the root
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomTree(Integer n) {
+	if constexpr (!DIR) {
+		if (n <= 2) return clique<E>(n);
+		std::vector<Integer> code(n - 2);
+		for (Integer& x : code) x = Random::integer(n);
+		return pruefer<E>(code);
+	} else {
+		Graph<NoData> tmp = randomTree<NoData, false>(n);
+		DiGraph<E> res(n);
+		auto dfs = [&tmp, &res](auto&& self, Integer cur, Integer pref) -> void {
+			for (auto edge : tmp[cur]) {
+				if (edge.to == pref) continue;
+				res.addEdge(cur, edge.to);
+				self(self, edge.to, cur);
+			}
+		};
+		dfs(dfs, tmp.getMinId(), tmp.getMinId() - 1);
+		return res;
+	}
+}
+
+// generate a random graph (Erdös-Renyi)
+// each edge exists with a given number of edges m
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
+	GraphDetail::GraphType<E, DIR> res(n);
+	Integer lim = n * (n-1);
+	if constexpr (!DIR) lim /= 2;
+	auto edges = Random::distinct(m, 0, lim);
+	for (Integer x : edges) {
+		Integer i = x / n;
+		Integer j = x % n;
+		if constexpr(DIR) {
+			if (i == j) i = n - 1;
+		} else {
+			if (j <= i) {
+				i = n - 2 - i;
+				j = n - 1 - j;
+			}
+		}
+		res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random graph (Erdös-Renyi)
+// each edge exists with probability p
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
+	Integer lim = n * (n - 1);
+	if constexpr (!DIR) lim /= 2;
+	return randomGraph<E, DIR>(n, Random::binomial(lim, p));
+}
+
+// generate a random graph with linear growing degrees
+template<typename E = NoData>
+Graph<E> randomGrowingGraph(Integer n, Real p) {
+	judgeAssert<std::domain_error>(0.0_real <= p and p <= 1.0_real, "randomGrowingGraph(): p must be in [0,1]!");
+	Graph<E> res(n);
+	for (Integer i = 0; i < n; i++) {
+		Integer deg = p * Random::real(0, i+1);
+		auto neighbours = Random::distinct(deg, 0, i);
+		for (Integer j : neighbours) res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random graph with a given degree sequence
+// (not uniform...)
+template<typename E = NoData>
+Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips = 10) {
+	Graph<E> res(std::ssize(degree));
+	// havel hakimi in O(m*log(n))
+	std::priority_queue<std::pair<Integer, Integer>> pq;
+	for (Integer i = 0; i < std::ssize(degree); i++) {
+		if (degree[i] > 0) {
+			pq.emplace(degree[i], i);
+		}
+	}
+	while (!pq.empty()) {
+		auto [d, c] = pq.top();
+		pq.pop();
+		if (std::ssize(pq) < d or d < 0) {
+			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
+		}
+		std::vector<std::pair<Integer, Integer>> todo;
+		for (Integer i = 0; i < d; i++) {
+			auto [dd, cc] = pq.top();
+			pq.pop();
+			res.addEdge(c, cc);
+			dd--;
+			if (dd > 0) todo.emplace_back(dd, cc);
+		}
+		for (const auto& e : todo) pq.push(e);
+	}
+	// randomly flip edges O(m*log(n))
+	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
+		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
+		auto b = res.getEdgeById(Random::integer(res.edgeCount()));
+		if (a.from == b.to or res.hasEdge(a.from, b.to)) continue;
+		if (b.from == a.to or res.hasEdge(b.from, a.to)) continue;
+		res.eraseEdge(a.from, a.to);
+		res.eraseEdge(b.from, b.to);
+		res.addEdge(a.from, b.to);
+		res.addEdge(b.from, a.to);
+	}
+	return res;
+}
+
+// generates a worstcase instance for Ford Fulkerson with dfs.
+// The graph contains 2*n vertices and has 2^n flow from 0 to 2*n-1.
+// Figure 2: https://people.computing.clemson.edu/~bcdean/iterm.pdf
+// Note that the specific order of edghes is required
+DiGraph<Integer> ffWorstcase(Integer n) {
+	judgeAssert(0 < n && n <= 63, "ffWorstcase(): n out of bounds");
+	DiGraph<Integer> res(2 * n);
+	res.addEdge(n-1, n, 1);
+	for (Integer i = n - 2, j = n+1, c = 1; j < 2 * n; i--, j++, c *= 2) {
+		res.addEdge(i, i+1, c);
+		res.addEdge(i, j-1, c);
+		res.addEdge(i+1, j, c);
+		res.addEdge(j-1, j, c);
+	}
+	return res;
+}
+
+// generates a worstcase instance for various min cost max flow algorithms.
+// The graph contains 2*n+2 vertices and has flow from 0 to 2*n+1.
+// Figure 4: https://link.springer.com/article/10.1007/BF01580132
+DiGraph<std::pair<Integer, Integer>> mcmfWorstcase(Integer n) {
+	judgeAssert(0 < n && n <= 60, "mcmfWorstcase(): n out of bounds");
+	DiGraph<std::pair<Integer, Integer>> res(2 * n + 2);
+	Integer inf = 5 * (1ll << n) / 4;
+	for (Integer i = 0; i < n; i++) {
+		res.addEdge(0, i + 1, {i < 2 ? 2 * i + 1 : 5ll << (i - 2), 0});
+	}
+	res.addEdge(1, n + 1, {inf, 0});
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; j < n; j++) {
+			if (i == j) continue;
+			res.addEdge(i + 1, j + 1 + n, {inf, (1ll << std::max(i, j)) - 1});
+		}
+	}
+	for (Integer i = 0; i < n; i++) {
+		res.addEdge(i + 1 + n, 2 * n + 1, {i < 2 ? 2: 5ll << (i - 2), 0});
+	}
+	return res;
+}
+
+#endif
-- 
2.43.0


From defe5b72dccdc37576f9a118f5d9c91d3568602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 34/54] fix: operator* of edges without data did not compile

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index ea74887..d37b2db 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -69,7 +69,7 @@ namespace GraphDetail {
 		EdgeWrapper(Integer from_, Integer to_) : from(from_), to(to_) {}
 		EdgeWrapper(Integer from_, Integer to_, E& /**/) : EdgeWrapper(from_, to_) {}
 
-		E& operator*() const {return NOTHING;}
+		const E& operator*() const {return NOTHING;}
 
 		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
 			os << e.from << " " << e.to;
-- 
2.43.0


From 39ec9e31a35805651b91ceb4f823e88b96c4cf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 35/54] fix: range() selected wrong edges if minId is not 0 and
 did not compile without data

---
 src/graph_gen.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index d37b2db..38b7e60 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -226,11 +226,9 @@ namespace GraphDetail {
 		Graph range(Integer from, Integer to) const {
 			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
 			Graph res(from, to);
-			from = std::max(static_cast<Integer>(0), from - minId);
-			to = std::min(nodeCount(), to - minId);
 			for (const auto& e : getEdges()) {
 				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
-					res.addEdge(e.from, e.to, e.data);
+					res.addEdge(e.from, e.to, *e);
 				}
 			}
 			return res;
-- 
2.43.0


From ecf6cbb05c0461c436c85a8f9644a756d54ac1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 36/54] fix: transitiveClosure() did not compile

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 38b7e60..2f9f2c1 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -522,7 +522,7 @@ namespace GraphDetail {
 			return res;
 		}
 
-		Graph& transitiveClosure() const {
+		Graph transitiveClosure() const {
 			return power(nodeCount());
 		}
 
-- 
2.43.0


From 0329036b17f03b4d79ec5833c79ce9e66715e16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 37/54] fix: lineGraph() did not compile without integer data

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 2f9f2c1..44d837f 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -571,7 +571,7 @@ namespace GraphDetail {
 		}
 
 		Graph lineGraph() const {
-			Graph tmp(minId, minId + nodeCount());
+			GraphType<Integer, DIR> tmp(minId, minId + nodeCount());
 			Integer nextEdge = 0;
 			for (const auto& e : getEdges()) {
 				tmp.emplaceEdge(e.from, e.to, nextEdge);
-- 
2.43.0


From a0992eed18a526658cdc71c66a89985fa27a1e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 38/54] fix: directed cycle() did not compile

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 44d837f..4d57c29 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -707,7 +707,7 @@ GraphDetail::GraphType<E, DIR> path(Integer edges) {
 // path 0-1-2-...-n-1-0 with vertices [0, n)
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> cycle(Integer n) {
-	auto p = path<E>(n-1);
+	auto p = path<E, DIR>(n-1);
 	p.addEdge(n - 1, 0);
 	return p;
 }
-- 
2.43.0


From 1315c567e4804a7e567caba0aa575fbe3d8e0775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 39/54] fix: power() of undirected graphs contained every edge
 twice

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 4d57c29..c8ed64d 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -513,7 +513,7 @@ namespace GraphDetail {
 				}
 				for (auto [c, d] : queue) {
 					seen[c] = false;
-					if (i != c) {
+					if (DIR ? i != c : i < c) {
 						res.emplaceEdge(i + minId, c + minId);
 					}
 				}
-- 
2.43.0


From 5c422ac765d6582cab2798faba08803f9deed5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 40/54] fix: wheel() was not a wheel

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index c8ed64d..81e7f86 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -715,7 +715,7 @@ GraphDetail::GraphType<E, DIR> cycle(Integer n) {
 // wheel with root = 1 and outer vertices 1-2-...-outer-1 with vertices [0, outer]
 template<typename E = NoData>
 Graph<E> wheel(Integer outer) {
-	return star<E>(outer).combine(path<E>(outer).setMinId(1));
+	return star<E>(outer).combine(cycle<E>(outer).setMinId(1));
 }
 
 // lolly graph with a path with p edges [0, p] and a clique [p, p+c) and
-- 
2.43.0


From 92bdf84b5d8c187455009c6ebf6ed743bd127fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 41/54] fix: completeTree() had fewer vertices than documented

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 81e7f86..4f6ef1d 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -761,7 +761,7 @@ Graph<E> hypercube(Integer dimension) {
 // vertices in [0, (children^{level+1}-1)/(children-1))
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> completeTree(Integer level, Integer children = 2) {
-	if (level <= 2) return star<E, DIR>(children);
+	if (level <= 0) return independent<E, DIR>(1);
 	GraphDetail::GraphType<E, DIR> res(1);
 	GraphDetail::GraphType<E, DIR> sub = completeTree<E, DIR>(level - 1, children);
 	for (Integer i = 0; i < children; i++) {
-- 
2.43.0


From f4367a76f47b88764836a2d87a206798a7e5d092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 42/54] fix: rado() missed edges and had the wrong directions

---
 src/graph_gen.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 4f6ef1d..a3ed42b 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -794,9 +794,9 @@ template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> rado(Integer n) {
 	GraphDetail::GraphType<E, DIR> res(n);
 	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; (1 << j) < i; j++) {
+		for (Integer j = 0; (1 << j) <= i; j++) {
 			if ((i | (1 << j)) == i) {
-				res.addEdge(i, j);
+				res.addEdge(j, i);
 			}
 		}
 	}
-- 
2.43.0


From 3031ce714fe164ce8420f2b393de9cb2809b552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 43/54] fix: randomGraph() accepted negative degrees

---
 src/graph_gen.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index a3ed42b..f70a688 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -909,6 +909,9 @@ Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips =
 	// havel hakimi in O(m*log(n))
 	std::priority_queue<std::pair<Integer, Integer>> pq;
 	for (Integer i = 0; i < std::ssize(degree); i++) {
+		if (degree[i] < 0) {
+			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
+		}
 		if (degree[i] > 0) {
 			pq.emplace(degree[i], i);
 		}
-- 
2.43.0


From 8f08c9e73dfc57a57b128287cd6a52b67c570bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 44/54] fix: randomGraph() failed if all degrees are 0

---
 src/graph_gen.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index f70a688..e4a2009 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -933,6 +933,7 @@ Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips =
 		for (const auto& e : todo) pq.push(e);
 	}
 	// randomly flip edges O(m*log(n))
+	if (res.edgeCount() == 0) return res;
 	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
 		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
 		auto b = res.getEdgeById(Random::integer(res.edgeCount()));
-- 
2.43.0


From dce05d5c70b0febdb650e079dad8cc0f23a78850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 45/54] fix: permutate() accessed memory out of bounds for
 permutations of the wrong length

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index e4a2009..a2cbca3 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -399,7 +399,7 @@ namespace GraphDetail {
 		}
 
 		Graph& permutate(const std::vector<Integer>& perm) {
-			judgeAssert<std::invalid_argument>(isPerm(perm, minId), "Graph: not a permutation");
+			judgeAssert<std::invalid_argument>(perm.size() == size() and isPerm(perm, minId), "Graph: not a permutation");
 			for (auto& n : adj) n.clear();
 			Random::shuffle(edges.begin(), edges.end());
 			for (auto& e : edges) {
-- 
2.43.0


From 2aad66e74c04aba6f39e3b2cd86b25b3dbba716b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 46/54] fix: DiGraph::isDAG() mixed up in- and outdegree

---
 src/graph_val.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_val.h b/src/graph_val.h
index 23ce11e..0186219 100644
--- a/src/graph_val.h
+++ b/src/graph_val.h
@@ -191,7 +191,7 @@ public:
 		std::vector<std::size_t> deg(adj.size());
 		std::vector<Integer> order, todo;
 		for (std::size_t i = 0; i < adj.size(); i++) {
-			deg[i] = adj[i].size();
+			deg[i] = rev[i].size();
 			if (deg[i] == 0) todo.push_back(i);
 		}
 		while (!todo.empty()) {
-- 
2.43.0


From 7330c98d5aa8b3f827dfa101f0ce02ced9d7c82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 47/54] fix: DiGraph::isTree() accepted graphs with a cycle

---
 src/graph_val.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_val.h b/src/graph_val.h
index 0186219..f1037cf 100644
--- a/src/graph_val.h
+++ b/src/graph_val.h
@@ -209,7 +209,7 @@ public:
 	}
 
 	std::optional<Integer> isTree() const {
-		if (rootCount == 1 and edgeCount() + 1 == nodeCount()) return root + offset;
+		if (rootCount == 1 and root < nodeCount() and edgeCount() + 1 == nodeCount()) return root + offset;
 		return std::nullopt;
 	}
 
-- 
2.43.0


From 6089f4e4567095e6691e161993d54766554501ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 48/54] fix: clamp_color() overflowed for large factors

---
 src/visualizer_png.h | 4 ++--
 src/visualizer_svg.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index edc8d5b..a8640db 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -92,12 +92,12 @@ constexpr std::uint8_t clamp_color(int c) {
 
 template<>
 constexpr std::uint8_t clamp_color(long double c) {
-	return static_cast<std::uint8_t>(std::clamp(std::llround(c), 0ll, 0xFFll));
+	return static_cast<std::uint8_t>(std::llround(std::clamp(c, 0.0l, 255.0l)));
 }
 
 template<>
 constexpr std::uint8_t clamp_color(double c) {
-	return static_cast<std::uint8_t>(std::clamp(std::llround(c), 0ll, 0xFFll));
+	return static_cast<std::uint8_t>(std::llround(std::clamp(c, 0.0, 255.0)));
 }
 
 constexpr Color operator*(Real f, const Color& c) {
diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index ecd0768..fe5f5bc 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -101,12 +101,12 @@ constexpr std::uint8_t clamp_color(int c) {
 
 template<>
 constexpr std::uint8_t clamp_color(long double c) {
-	return static_cast<std::uint8_t>(std::clamp(std::llround(c), 0ll, 0xFFll));
+	return static_cast<std::uint8_t>(std::llround(std::clamp(c, 0.0l, 255.0l)));
 }
 
 template<>
 constexpr std::uint8_t clamp_color(double c) {
-	return static_cast<std::uint8_t>(std::clamp(std::llround(c), 0ll, 0xFFll));
+	return static_cast<std::uint8_t>(std::llround(std::clamp(c, 0.0, 255.0)));
 }
 
 constexpr Color operator*(Real f, const Color& c) {
-- 
2.43.0


From 1bd8c78e3aa8c081189e106748be1ee1ed943d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 49/54] fix: fillRectangle() with border assigned instead of
 comparing

---
 src/visualizer_png.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index a8640db..154a12f 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -342,7 +342,7 @@ public:
 	void fillRectangle(const Point& a, const Point& b, const Color border, const Color& fill) {
 		for (Integer y = std::min(a.y, b.y); y <= std::max(a.y, b.y); y++) {
 			for (Integer x = std::min(a.x, b.x); x <= std::max(a.x, b.x); x++) {
-				if (y = a.y or y == b.y or x == a.x or x == b.x) {
+				if (y == a.y or y == b.y or x == a.x or x == b.x) {
 					colors[y][x] = details::combine<M>(colors[y][x], border);
 				} else {
 					colors[y][x] = details::combine<M>(colors[y][x], fill);
-- 
2.43.0


From 3b790fec5b146436348583822c1dbcc362253d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 50/54] fix: SVG files declared the unregistered encoding
 "UTF8", which e.g. expat rejects

---
 src/visualizer_svg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index fe5f5bc..4156264 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -315,7 +315,7 @@ public:
 	void write() const {
 		if (!fileName or out.str().empty()) return;
 		std::ofstream os(*fileName);
-		os << "<?xml " << attribute("version", "1.0") << attribute("encoding", "UTF8")<< "?>" << std::endl;
+		os << "<?xml " << attribute("version", "1.0") << attribute("encoding", "UTF-8")<< "?>" << std::endl;
 		os << "<svg " << attribute("xmlns", "http://www.w3.org/2000/svg")
 					  << attribute("version", "1.0")
 					  << attribute("baseProfile", "full")
-- 
2.43.0


From cde76d00197228535caa3d15f3f65f8a55302a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 51/54] fix: Random::convex() depended on the std::sort and
 std::partition implementation

---
 src/validate.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 0054d67..cb462cd 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1195,7 +1195,8 @@ namespace details {
 
 	template<typename Point>
 	void cyclicSort(std::vector<Point>& in) {
-		std::sort(in.begin(), in.end(), [](const Point& a, const Point& b){
+		// Random::convex() must not depend on the order of parallel vectors
+		std::stable_sort(in.begin(), in.end(), [](const Point& a, const Point& b){
 			return left(a) != left(b) ? left(a) > left(b) : cross(a, b) > 0;
 		});
 	}
@@ -1867,8 +1868,8 @@ namespace Random {
 			for (auto& z : y) z = -z;
 			append(x, partition(2 * dim - 2, n - left, 0));
 			append(y, partition(2 * dim - 2, n - down, 0));
-			auto itX = std::partition(x.begin(), x.end(), [](Integer z){return z == 0;});
-			auto itY = std::partition(y.begin(), y.end(), [](Integer z){return z != 0;});
+			auto itX = std::stable_partition(x.begin(), x.end(), [](Integer z){return z == 0;});
+			auto itY = std::stable_partition(y.begin(), y.end(), [](Integer z){return z != 0;});
 			if (std::distance(x.begin(), itX) + std::distance(itY, y.end()) > n) continue;
 			shuffle(itX, x.end());
 			if (itX != x.begin()) shuffle(y.begin(), itY);
-- 
2.43.0


From 1cace9164e849ad8e4e8b9d9fab9a4d3ceb04799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 52/54] fix: join() printed no separators for input iterators
 such as std::istream_iterator

---
 src/validate.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index cb462cd..8b4523e 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -305,9 +305,12 @@ public:
 
 	template<typename T>
 	OutputStream& join(T first, T last, char separator) {
+		// input iterators of the same range may compare equal => don't compare with first
+		bool printed = false;
 		for (auto it = first; it != last; it++) {
-			if (it != first and separator != NOSEP) *os << separator;
+			if (printed and separator != NOSEP) *os << separator;
 			*this << *it;
+			printed = true;
 		}
 		return *this;
 	}
-- 
2.43.0


From e2739fe9d7c074797f88e3694c285e84cd25e779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:01 +0000
Subject: [PATCH 53/54] fix: restore the CRLF line endings of graph_gen.h
 (converted by accident in 32e71ad)

---
 src/graph_gen.h | 1980 +++++++++++++++++++++++------------------------
 1 file changed, 990 insertions(+), 990 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index a2cbca3..dd3d71c 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -1,990 +1,990 @@
-//============================================================================//
-// graph_gen.h                                                                //
-//============================================================================//
-// This header can be used to Generate graphs. We support:                    //
-// - directed, undirected and weighted graphs                                 //
-// - uniform tree sampling                                                    //
-// - erdös renyi random graphs                                                //
-// - random graphs with a given degree sequence                               //
-// - random graphs with a power low distribution                              //
-// - various operations to construct graphs                                   //
-// This header requires validate.h zo to generate random graphs in a          //
-// deterministic and reproducable fashion.                                    //
-//============================================================================//
-//version 1.0.11                                                              //
-//https://github.com/mzuenni/icpc-header                                      //
-//============================================================================//
-
-#ifndef GRAPH_GENERATOR_H
-#define GRAPH_GENERATOR_H
-
-#include <cassert>
-#include <cstddef>
-#include <deque>
-#include <iostream>
-#include <ostream>
-#include <optional>
-#include <ostream>
-#include <queue>
-#include <random>
-#include <set>
-#include <utility>
-#include <ranges>
-#include <vector>
-#include "validate.h"
-
-namespace GraphDetail {
-	struct NoData final {};
-	constexpr NoData NOTHING;
-
-	// EdgeWrapper may be returned by some function
-	template<typename E, typename = void>
-	struct EdgeWrapper final {
-		const Integer from, to;
-		E& data;
-		EdgeWrapper(Integer from_, Integer to_, E& data_) : from(from_), to(to_), data(data_) {}
-
-		E& operator*() {
-			return data;
-		}
-		const E& operator*() const {
-			return data;
-		}
-
-		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			os << " " << *e;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			os << " " << *e;
-			return os;
-		}
-	};
-	template<typename E>
-	struct EdgeWrapper<E, typename std::enable_if_t<std::is_same_v<std::remove_cv_t<E>, NoData>>> final {
-		const Integer from, to;
-		EdgeWrapper(Integer from_, Integer to_) : from(from_), to(to_) {}
-		EdgeWrapper(Integer from_, Integer to_, E& /**/) : EdgeWrapper(from_, to_) {}
-
-		const E& operator*() const {return NOTHING;}
-
-		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			return os;
-		}
-	};
-
-	// EdgeType is the internel representation of an edge that should never get exposed!
-	template<typename E>
-	struct EdgeType final {
-		// we use key(from, to) = from^to for efficiency
-		// the key function must have the following properties:
-		// key(a, b) == key(b, a)
-		// to1 != to2 <=> key(from, to1) != key(from, to2)
-		// from1 != from2 <=> key(from1, to) != key(from2, to)
-		Integer fromXorTo, to;
-		E data;
-		EdgeType(Integer fromXorTo_, Integer to_, const E& data_) : fromXorTo(fromXorTo_), to(to_), data(data_) {}
-		EdgeType(Integer fromXorTo_, Integer to_, E&& data_) : fromXorTo(fromXorTo_), to(to_), data(std::forward<E>(data_)) {}
-	};
-
-	template<typename E>
-	struct EdgePointerCompair final {
-		using is_transparent = std::true_type;
-		constexpr bool operator()(const EdgeType<E>* t, const EdgeType<E>* u) const {
-			return t->fromXorTo < u->fromXorTo;
-		}
-		constexpr bool operator()(const EdgeType<E>* t, Integer u) const {
-			return t->fromXorTo < u;
-		}
-		constexpr bool operator()(Integer t, const EdgeType<E>* u) const {
-			return t < u->fromXorTo;
-		}
-	};
-
-	template<typename E, bool DIR>
-	class GraphType final {
-		// do not change!
-		static constexpr Integer DEFAULT_MIN_ID = 0;
-
-		template<typename, bool> friend class GraphType;
-		using EdgeTypeValue = E;
-		using Edge = EdgeWrapper<E>;
-		using ConstEdge = EdgeWrapper<const E>;
-		using InternalEdge = EdgeType<E>;
-		using Graph = GraphType<E, DIR>;
-
-		std::deque<std::set<InternalEdge*, EdgePointerCompair<E>>> adj;
-		std::deque<InternalEdge> edges;
-		Integer minId;
-
-		inline void assertNode(Integer id) const {
-			if (id < minId or id >= minId + nodeCount()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [" + std::to_string(minId) + ", " + std::to_string(minId + nodeCount()) + ") !");
-			}
-		}
-
-		auto addEdge(InternalEdge* e) {
-			Integer from = e->fromXorTo ^ e->to;
-			Integer to = e->to;
-			if constexpr (!DIR) if (from != to) adj[to - minId].emplace(e);
-			return adj[from - minId].emplace(e).first;
-		}
-
-		void emplaceEdge(Integer from, Integer to, const E& data = {}) {
-			edges.emplace_back(from ^ to, to, data);
-		}
-
-		void buildAdj() {
-			for (auto& e : edges) addEdge(&e);
-		}
-	public:
-		// construct empty graph with vertices in [from, to)
-		explicit GraphType(Integer from, Integer to) :
-			adj(to - from),
-			minId(from) {
-			judgeAssert<std::invalid_argument>(from <= to, "Graph::from must not be greater than to!");
-		}
-		// construct empty graph with vertices in [0, n)
-		explicit GraphType(Integer n = 0) :
-			GraphType(DEFAULT_MIN_ID, n) {}
-
-		// copy graphs without breaking pointers
-		GraphType(const Graph& o) :
-			adj(o.size()),
-			edges(o.edges),
-			minId(o.minId) {
-			buildAdj();
-		}
-		Graph& operator=(const Graph& o) {
-			if (&o != this) {
-				adj.clear();
-				adj.resize(o.size());
-				edges = o.edges;
-				minId = o.minId;
-				buildAdj();
-			}
-			return *this;
-		}
-		Graph copy() const {
-			return *this;
-		}
-
-		//basic graph parameters
-		std::size_t size() const {
-			return adj.size();
-		}
-
-		Integer nodeCount() const {
-			return static_cast<Integer>(adj.size());
-		}
-
-		Integer edgeCount() const {
-			return static_cast<Integer>(edges.size());
-		}
-
-		Integer degree(Integer id) const {
-			assertNode(id);
-			return static_cast<Integer>(adj[id - minId].size());
-		}
-
-		Integer getMinId() const {
-			return minId;
-		}
-
-		Graph& setMinId(Integer newminId) {
-			for (auto& n : adj) n.clear();
-			for (auto& e : edges) {
-				Integer from = e.fromXorTo ^ e.to;
-				Integer to = e.to;
-				from = from - minId + newminId;
-				to = to - minId + newminId;
-				e.fromXorTo = from ^ to;
-				e.to = to;
-			}
-			minId = newminId;
-			buildAdj();
-			return *this;
-		}
-
-		Integer getNextId() const {
-			return minId + nodeCount();
-		}
-
-		Graph& normalize() {
-			return setMinId(DEFAULT_MIN_ID);
-		}
-
-		Graph range(Integer from, Integer to) const {
-			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
-			Graph res(from, to);
-			for (const auto& e : getEdges()) {
-				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
-					res.addEdge(e.from, e.to, *e);
-				}
-			}
-			return res;
-		}
-
-		// basic graph operations
-		std::optional<Edge> findEdge(Integer from, Integer to) & {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				return Edge(from, to, (*it)->data);
-			} else {
-				return {};
-			}
-		}
-
-		std::optional<ConstEdge> findEdge(Integer from, Integer to) const & {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				return ConstEdge(from, to, (*it)->data);
-			} else {
-				return {};
-			}
-		}
-
-		// ids may change!
-		Edge getEdgeById(std::size_t id) & {
-			if (id >= edges.size()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
-			}
-			return Edge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
-		}
-
-		ConstEdge getEdgeById(std::size_t id) const & {
-			if (id >= edges.size()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
-			}
-			return ConstEdge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
-		}
-
-		bool hasEdge(Integer from, Integer to) const {
-			assertNode(from);
-			assertNode(to);
-			return adj[from - minId].find(from ^ to) != adj[from - minId].end();
-		}
-
-		Edge addEdge(Integer from, Integer to, const E& data = {}) & {
-			assertNode(from);
-			assertNode(to);
-			judgeAssert(from != to, "Graph: invalid selfloop!");
-			auto it = adj[from - minId].find(from ^ to);
-			if (it == adj[from - minId].end()) {
-				emplaceEdge(from, to, data);
-				it = addEdge(&(edges.back()));
-			} else {
-				(*it)->data = data;
-			}
-			return Edge(from, to, (*it)->data);
-		}
-
-		bool eraseEdge(Integer from, Integer to) {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				InternalEdge* a = *it;
-				InternalEdge* b = &(edges.back());
-				adj[from - minId].erase(a);
-				if constexpr (!DIR) adj[to - minId].erase(a);
-				from = b->fromXorTo ^ b->to;
-				to = b->to;
-				adj[from - minId].erase(b);
-				if constexpr (!DIR) adj[to - minId].erase(b);
-				std::swap(*a, *b);
-				edges.pop_back();
-				if (a != b) addEdge(a);
-				return true;
-			} else {
-				return false;
-			}
-		}
-
-		bool eraseEdge(const Edge& edge) {
-			return eraseEdge(edge.from, edge.to);
-		}
-
-		std::ranges::view auto getEdges() const & {
-			return std::views::all(edges)
-				 | std::views::transform([](const InternalEdge& edge){
-				return ConstEdge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
-			});
-		}
-
-		std::ranges::view auto getEdges() & {
-			return std::views::all(edges)
-				 | std::views::transform([](InternalEdge& edge){
-				return Edge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
-			});
-		}
-
-		std::ranges::view auto operator[](Integer id) const & {
-			assertNode(id);
-			return std::views::all(adj[id-minId])
-				 | std::views::transform([id](InternalEdge* edge){
-				return ConstEdge(id, edge->fromXorTo ^ id, edge->data);
-			});
-		}
-
-		std::ranges::view auto operator[](Integer id) & {
-			assertNode(id);
-			return std::views::all(adj[id-minId])
-				 | std::views::transform([id](InternalEdge* edge){
-				return Edge(id, edge->fromXorTo ^ id, edge->data);
-			});
-		}
-
-		std::ranges::view auto getDegrees() const & {
-			return std::views::all(adj)
-				 | std::views::transform([](auto& n){
-				return n.size();
-			});
-		}
-
-		// more basic graph operations
-		Graph& combine(const Graph& o) {
-			if (&o != this) {
-				while (minId > o.minId) {
-					minId--;
-					adj.emplace_front();
-				}
-				while (minId + nodeCount() < o.minId + o.nodeCount()) {
-					adj.emplace_back();
-				}
-				for (const auto& e : o.edges) {
-					addEdge(e.fromXorTo ^ e.to, e.to, e.data);
-				}
-			}
-			return *this;
-		}
-
-		Graph& append(const Graph& o) {
-			//assert(&o != this); // should work
-			Integer diff = nodeCount() + minId - o.minId;
-			adj.resize(nodeCount() + o.nodeCount());
-			for (std::size_t i = 0, j = o.edges.size(); i < j; i++) {
-				Integer to = o.edges[i].to;
-				Integer from = o.edges[i].fromXorTo ^ to;
-				addEdge(from + diff, to + diff, o.edges[i].data);
-			}
-			return *this;
-		}
-
-		Graph& permutateEdges() {
-			for (auto& n : adj) n.clear();
-			Random::shuffle(edges.begin(), edges.end());
-			if constexpr(!DIR) {
-				for (auto& e : edges) {
-					if (Random::bit()) {
-						e.to ^= e.fromXorTo;
-					}
-				}
-			}
-			buildAdj();
-			return *this;
-		}
-
-		Graph& permutate(const std::vector<Integer>& perm) {
-			judgeAssert<std::invalid_argument>(perm.size() == size() and isPerm(perm, minId), "Graph: not a permutation");
-			for (auto& n : adj) n.clear();
-			Random::shuffle(edges.begin(), edges.end());
-			for (auto& e : edges) {
-				if constexpr (!DIR) {
-					if (Random::bit()) {
-						e.to ^= e.fromXorTo;
-					}
-				}
-				e.fromXorTo ^= e.to;
-				e.fromXorTo = perm[e.fromXorTo - minId];
-				e.to = perm[e.to - minId];
-				e.fromXorTo ^= e.to;
-			}
-			buildAdj();
-			return *this;
-		}
-
-		Graph& permutate() {
-			std::vector<Integer> perm(size());
-			std::iota(perm.begin(), perm.end(), minId);
-			Random::shuffle(perm.begin(), perm.end());
-			return permutate(perm);
-		}
-
-		Graph subgraph(Integer m) const {
-			if (m >= edgeCount()) return *this;
-			Graph res(minId, minId + nodeCount());
-			auto todo = Random::distinct(m, 0, edgeCount());
-			for (auto id : todo) res.edges.emplace_back(edges[id]);
-			res.buildAdj();
-			return res;
-		}
-
-		GraphType<E, true>& reverse() {
-			static_assert(DIR, "Graph: reverse() is only available on directed graphs!");
-			for (auto& n : adj) n.clear();
-			for (auto& e : edges) {
-				e.to ^= e.fromXorTo;
-			}
-			buildAdj();
-			return *this;
-		}
-
-		GraphType<E, false> undirected() const {
-			static_assert(DIR, "Graph: undirected() is only available on directed graphs!");
-			GraphType<E, false> res(minId, minId + nodeCount());
-			for (const auto e : getEdges()) {
-				res.addEdge(e.from, e.to, *e);
-			}
-			return res;
-		}
-
-		template<typename PRED>
-		GraphType<E, true> directed(const PRED&& p) const {
-			static_assert(!DIR, "Graph: directed() is only available on undirected graphs!");
-			GraphType<E, true> res(minId, minId + nodeCount());
-			for (const auto& e : getEdges()) {
-				if constexpr (std::is_invocable_r_v<bool, PRED, Integer, Integer, const E&>) {
-					if (p(e.from, e.to, *e)) res.emplaceEdge(e.from, e.to, *e);
-					if (p(e.to, e.from, *e)) res.emplaceEdge(e.to, e.from, *e);
-				} else {
-					static_assert(std::is_invocable_r_v<bool, PRED, Integer, Integer>, "Graph: pred has wrong signature!");
-					if (p(e.from, e.to)) res.emplaceEdge(e.from, e.to, *e);
-					if (p(e.to, e.from)) res.emplaceEdge(e.to, e.from, *e);
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		GraphType<E, true> directed() const {
-			return directed([](Integer /**/, Integer /**/){
-				return true;
-			});
-		}
-
-		Graph complement() const {
-			Graph res(minId, minId + nodeCount());
-			for (Integer i = 0; i < nodeCount(); i++) {
-				for (Integer j = 0; j < i; j++) {
-					if (!hasEdge(i + minId, j + minId)) {
-						res.emplaceEdge(i + minId, j + minId);
-					}
-					if constexpr (DIR) {
-						if (!hasEdge(j + minId, i + minId)) {
-							res.emplaceEdge(j + minId, i + minId);
-						}
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		// advanced graph operations
-		Graph power(Integer k) const {
-			Graph res(minId, minId + nodeCount());
-			std::vector<bool> seen(nodeCount());
-			for (Integer i = 0; i < nodeCount(); i++) {
-				std::vector<std::pair<Integer, Integer>> queue = {{i, 0}};
-				for (std::size_t j = 0; j < queue.size(); j++) {
-					auto [c, d] = queue[j];
-					if (d < k) {
-						for (const auto& e : (*this)[c + minId]) {
-							if (!seen[e.to - minId]) {
-								seen[e.to - minId] = true;
-								queue.emplace_back(e.to - minId, d + 1);
-							}
-						}
-					}
-				}
-				for (auto [c, d] : queue) {
-					seen[c] = false;
-					if (DIR ? i != c : i < c) {
-						res.emplaceEdge(i + minId, c + minId);
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph transitiveClosure() const {
-			return power(nodeCount());
-		}
-
-		Graph product(const Graph& o) const {
-			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
-			Graph res(nodeCount() * o.nodeCount());
-			auto newId = [&](Integer a, Integer b){
-				return (b - o.minId) * nodeCount() + (a - minId);
-			};
-			for (const auto& e1 : getEdges()) {
-				for (const auto& e2 : o.getEdges()) {
-					res.emplaceEdge(newId(e1.from, e2.from), newId(e1.to, e2.to));
-					res.emplaceEdge(newId(e1.from, e2.to), newId(e1.to, e2.from));
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph cartesian(const Graph& o) const {
-			Graph res(nodeCount() * o.nodeCount());
-			auto newId = [&](Integer a, Integer b){
-				return (b-o.minId) * nodeCount() + (a-minId);
-			};
-			for (const auto& e : o.getEdges()) {
-				for (Integer i = 0; i < nodeCount(); i++) {
-					Integer from = newId(i + minId, e.from);
-					Integer to = newId(i + minId, e.to);
-					res.emplaceEdge(from, to);
-				}
-			}
-			for (const auto& e : getEdges()) {
-				for (Integer i = 0; i < o.nodeCount(); i++) {
-					Integer from = newId(e.from, i + o.minId);
-					Integer to = newId(e.to, i + o.minId);
-					res.emplaceEdge(from, to);
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph strongProduct(const Graph& o) const {
-			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
-			return o.cartesian(*this).combine(o.product(*this));
-		}
-
-		Graph lineGraph() const {
-			GraphType<Integer, DIR> tmp(minId, minId + nodeCount());
-			Integer nextEdge = 0;
-			for (const auto& e : getEdges()) {
-				tmp.emplaceEdge(e.from, e.to, nextEdge);
-				nextEdge++;
-			}
-			tmp.buildAdj();
-			Graph res(nextEdge);
-			for (const auto& e1 : tmp.getEdges()) {
-				if constexpr (DIR) {
-					for (const auto& e2 : tmp[e1.to]) {
-						res.emplaceEdge(*e1, *e2);
-					}
-				} else {
-					for (const auto& e2 : tmp[e1.to]) {
-						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
-					}
-					for (const auto& e2 : tmp[e1.from]) {
-						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		friend std::ostream& operator<<(std::ostream& os, const Graph& g) {
-			os << g.nodeCount() << " " << g.edgeCount();
-			for (const auto& e : g.getEdges()) os << '\n' << e;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const Graph& g) {
-			os << g.nodeCount() << " " << g.edgeCount();
-			for (const auto& e : g.getEdges()) os << '\n' << e;
-			return os;
-		}
-
-	};
-} // GraphDetail
-
-using NoData = GraphDetail::NoData;
-
-template<typename E = GraphDetail::NoData>
-using Edge = GraphDetail::EdgeWrapper<E>;
-
-template<typename E = GraphDetail::NoData>
-using Graph = GraphDetail::GraphType<E, false>;
-
-template<typename E = GraphDetail::NoData>
-using DiGraph = GraphDetail::GraphType<E, true>;
-
-// n independed vertices in range [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> independent(Integer n) {
-	return GraphDetail::GraphType<E, DIR>(n);
-}
-
-// n connected vertices in range [0, n)
-// if directed all edges go from i to j with i < j
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> clique(Integer n) {
-	// could be implemented as linegraph of a star.
-	GraphDetail::GraphType<E, DIR> res(n);
-	for (Integer j = 0; j < n; j++) {
-		for (Integer i = 0; i < j; i++) {
-			res.addEdge(i, j);
-		}
-	}
-	return res;
-}
-
-// complete bipartite graph with partition [0, n) and [n, n+m)
-// if directed all edges go from [0, n) to [n, n+m)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> bipartite(Integer n, Integer m) {
-	GraphDetail::GraphType<E, DIR> res(n+m);
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; j < m; j++) {
-			res.addEdge(i, n + j);
-		}
-	}
-	return res;
-}
-
-// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
-// each edge exists with a given number of edges k
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k) {
-	GraphDetail::GraphType<E, DIR> res(n+m);
-	Integer lim = n * m;
-	if constexpr (DIR) lim *= 2;
-	auto edges = Random::distinct(k, 0, lim);
-	for (Integer x : edges) {
-		Integer i = x % n;
-		Integer j = x / n + n;
-		if constexpr(DIR) {
-			if (x >= n * m) {
-				j -= m;
-				std::swap(i, j);
-			}
-		}
-		res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
-// each edge exists with probability p
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
-	Integer lim = n * m;
-	if constexpr (DIR) lim *= 2;
-	return randomBipartite<E, DIR>(n, m, Random::binomial(lim, p));
-}
-
-// star with root = 0 and chilrden [1, leaves]
-// if directed all edges go the root to [1, leaves)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> star(Integer leaves) {
-	return bipartite<E, DIR>(1, leaves);
-}
-
-// path 0-1-2-...-edges with vertices [0, edges]
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> path(Integer edges) {
-	GraphDetail::GraphType<E, DIR> res(edges+1);
-	for (Integer i = 0; i < edges; i++) {
-		res.addEdge(i, i + 1);
-	}
-	return res;
-}
-
-// path 0-1-2-...-n-1-0 with vertices [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> cycle(Integer n) {
-	auto p = path<E, DIR>(n-1);
-	p.addEdge(n - 1, 0);
-	return p;
-}
-
-// wheel with root = 1 and outer vertices 1-2-...-outer-1 with vertices [0, outer]
-template<typename E = NoData>
-Graph<E> wheel(Integer outer) {
-	return star<E>(outer).combine(cycle<E>(outer).setMinId(1));
-}
-
-// lolly graph with a path with p edges [0, p] and a clique [p, p+c) and
-// p is the vertex where clique and path are connected
-template<typename E = NoData>
-Graph<E> lolly(Integer p, Integer c) {
-	return path<E>(p).combine(clique<E>(c).setMinId(p));
-}
-
-// broom graph with a path with p edges [0, p] and a star [p, p+l]
-// p is the vertex where star and path are connected
-template<typename E = NoData>
-Graph<E> broom(Integer p, Integer l) {
-	return path<E>(p).combine(star<E>(l).setMinId(p));
-}
-
-// n times m grid
-// 0-1-...-n-1
-// | |      |
-// n- ... -2*n-1
-// |        |
-// .        .
-//          |
-//        -n*m-1
-template<typename E = NoData>
-Graph<E> grid(Integer n, Integer m) {
-	return path<E>(n-1).cartesian(path<E>(m-1));
-}
-template<typename E = NoData>
-Graph<E> grid(Integer n) {
-	return grid<E>(n, n);
-}
-
-// n dimensional hyper cube with vertices [0, 2^dimension)
-// a-b <=> |a^b|=1
-template<typename E = NoData>
-Graph<E> hypercube(Integer dimension) {
-	if (dimension < 2) return clique<E>(dimension+1);
-	return hypercube<E>(dimension-1).cartesian(clique<E>(2));
-}
-
-// complete tree with root at 0 and all subtrees are consecutive
-// vertices in [0, (children^{level+1}-1)/(children-1))
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> completeTree(Integer level, Integer children = 2) {
-	if (level <= 0) return independent<E, DIR>(1);
-	GraphDetail::GraphType<E, DIR> res(1);
-	GraphDetail::GraphType<E, DIR> sub = completeTree<E, DIR>(level - 1, children);
-	for (Integer i = 0; i < children; i++) {
-		Integer next = res.nodeCount();
-		res.append(sub);
-		res.addEdge(0, next);
-	}
-	return res;
-}
-
-
-// complete boolean lattice i->j <=> i|j==j
-// vertices in [0, 2^level)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> booleanLattice(Integer level) {
-	GraphDetail::GraphType<E, DIR> res(1 << level);
-	for (Integer i = 0; i < res.nodeCount(); i++) {
-		for (Integer j = 1; j < res.nodeCount(); j*=2) {
-			if ((i | j) == i) {
-				res.addEdge(i, i^j);
-			}
-		}
-	}
-	return res;
-}
-
-// prefix of the rado graph i->j <=> i<j and j[i] == true;
-// vertices in [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> rado(Integer n) {
-	GraphDetail::GraphType<E, DIR> res(n);
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; (1 << j) <= i; j++) {
-			if ((i | (1 << j)) == i) {
-				res.addEdge(j, i);
-			}
-		}
-	}
-	return res;
-}
-
-// generate a tree from a pruefer code
-// values should be in [0, sz(code)+2)
-template<typename E = NoData>
-Graph<E> pruefer(const std::vector<Integer>& code) {
-	Graph<E> res(code.size() + 2);
-	std::vector<Integer> count(res.nodeCount());
-	for (Integer x : code) count[x]++;
-	Integer current = -1;
-	Integer skip = -1;
-	auto getNext = [&](){
-		Integer oldSkip = skip;
-		skip = -1;
-		if (0 <= oldSkip and oldSkip <= current) return oldSkip;
-		for (current++; count[current] > 0; current++) {}
-		return current;
-	};
-	for (Integer x : code) {
-		Integer y = getNext();
-		res.addEdge(x, y);
-		count[x]--;
-		if (count[x] == 0) skip = x;
-	}
-	Integer x = getNext();
-	Integer y = getNext();
-	res.addEdge(x, y);
-	return res;
-}
-
-// generate a random tree with vertices [0, n)
-// if directed 0 is the root
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomTree(Integer n) {
-	if constexpr (!DIR) {
-		if (n <= 2) return clique<E>(n);
-		std::vector<Integer> code(n - 2);
-		for (Integer& x : code) x = Random::integer(n);
-		return pruefer<E>(code);
-	} else {
-		Graph<NoData> tmp = randomTree<NoData, false>(n);
-		DiGraph<E> res(n);
-		auto dfs = [&tmp, &res](auto&& self, Integer cur, Integer pref) -> void {
-			for (auto edge : tmp[cur]) {
-				if (edge.to == pref) continue;
-				res.addEdge(cur, edge.to);
-				self(self, edge.to, cur);
-			}
-		};
-		dfs(dfs, tmp.getMinId(), tmp.getMinId() - 1);
-		return res;
-	}
-}
-
-// generate a random graph (Erdös-Renyi)
-// each edge exists with a given number of edges m
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
-	GraphDetail::GraphType<E, DIR> res(n);
-	Integer lim = n * (n-1);
-	if constexpr (!DIR) lim /= 2;
-	auto edges = Random::distinct(m, 0, lim);
-	for (Integer x : edges) {
-		Integer i = x / n;
-		Integer j = x % n;
-		if constexpr(DIR) {
-			if (i == j) i = n - 1;
-		} else {
-			if (j <= i) {
-				i = n - 2 - i;
-				j = n - 1 - j;
-			}
-		}
-		res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random graph (Erdös-Renyi)
-// each edge exists with probability p
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
-	Integer lim = n * (n - 1);
-	if constexpr (!DIR) lim /= 2;
-	return randomGraph<E, DIR>(n, Random::binomial(lim, p));
-}
-
-// generate a random graph with linear growing degrees
-template<typename E = NoData>
-Graph<E> randomGrowingGraph(Integer n, Real p) {
-	judgeAssert<std::domain_error>(0.0_real <= p and p <= 1.0_real, "randomGrowingGraph(): p must be in [0,1]!");
-	Graph<E> res(n);
-	for (Integer i = 0; i < n; i++) {
-		Integer deg = p * Random::real(0, i+1);
-		auto neighbours = Random::distinct(deg, 0, i);
-		for (Integer j : neighbours) res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random graph with a given degree sequence
-// (not uniform...)
-template<typename E = NoData>
-Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips = 10) {
-	Graph<E> res(std::ssize(degree));
-	// havel hakimi in O(m*log(n))
-	std::priority_queue<std::pair<Integer, Integer>> pq;
-	for (Integer i = 0; i < std::ssize(degree); i++) {
-		if (degree[i] < 0) {
-			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
-		}
-		if (degree[i] > 0) {
-			pq.emplace(degree[i], i);
-		}
-	}
-	while (!pq.empty()) {
-		auto [d, c] = pq.top();
-		pq.pop();
-		if (std::ssize(pq) < d or d < 0) {
-			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
-		}
-		std::vector<std::pair<Integer, Integer>> todo;
-		for (Integer i = 0; i < d; i++) {
-			auto [dd, cc] = pq.top();
-			pq.pop();
-			res.addEdge(c, cc);
-			dd--;
-			if (dd > 0) todo.emplace_back(dd, cc);
-		}
-		for (const auto& e : todo) pq.push(e);
-	}
-	// randomly flip edges O(m*log(n))
-	if (res.edgeCount() == 0) return res;
-	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
-		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
-		auto b = res.getEdgeById(Random::integer(res.edgeCount()));
-		if (a.from == b.to or res.hasEdge(a.from, b.to)) continue;
-		if (b.from == a.to or res.hasEdge(b.from, a.to)) continue;
-		res.eraseEdge(a.from, a.to);
-		res.eraseEdge(b.from, b.to);
-		res.addEdge(a.from, b.to);
-		res.addEdge(b.from, a.to);
-	}
-	return res;
-}
-
-// generates a worstcase instance for Ford Fulkerson with dfs.
-// The graph contains 2*n vertices and has 2^n flow from 0 to 2*n-1.
-// Figure 2: https://people.computing.clemson.edu/~bcdean/iterm.pdf
-// Note that the specific order of edghes is required
-DiGraph<Integer> ffWorstcase(Integer n) {
-	judgeAssert(0 < n && n <= 63, "ffWorstcase(): n out of bounds");
-	DiGraph<Integer> res(2 * n);
-	res.addEdge(n-1, n, 1);
-	for (Integer i = n - 2, j = n+1, c = 1; j < 2 * n; i--, j++, c *= 2) {
-		res.addEdge(i, i+1, c);
-		res.addEdge(i, j-1, c);
-		res.addEdge(i+1, j, c);
-		res.addEdge(j-1, j, c);
-	}
-	return res;
-}
-
-// generates a worstcase instance for various min cost max flow algorithms.
-// The graph contains 2*n+2 vertices and has flow from 0 to 2*n+1.
-// Figure 4: https://link.springer.com/article/10.1007/BF01580132
-DiGraph<std::pair<Integer, Integer>> mcmfWorstcase(Integer n) {
-	judgeAssert(0 < n && n <= 60, "mcmfWorstcase(): n out of bounds");
-	DiGraph<std::pair<Integer, Integer>> res(2 * n + 2);
-	Integer inf = 5 * (1ll << n) / 4;
-	for (Integer i = 0; i < n; i++) {
-		res.addEdge(0, i + 1, {i < 2 ? 2 * i + 1 : 5ll << (i - 2), 0});
-	}
-	res.addEdge(1, n + 1, {inf, 0});
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; j < n; j++) {
-			if (i == j) continue;
-			res.addEdge(i + 1, j + 1 + n, {inf, (1ll << std::max(i, j)) - 1});
-		}
-	}
-	for (Integer i = 0; i < n; i++) {
-		res.addEdge(i + 1 + n, 2 * n + 1, {i < 2 ? 2: 5ll << (i - 2), 0});
-	}
-	return res;
-}
-
-#endif
+//============================================================================//
+// graph_gen.h                                                                //
+//============================================================================//
+// This header can be used to Generate graphs. We support:                    //
+// - directed, undirected and weighted graphs                                 //
+// - uniform tree sampling                                                    //
+// - erdös renyi random graphs                                                //
+// - random graphs with a given degree sequence                               //
+// - random graphs with a power low distribution                              //
+// - various operations to construct graphs                                   //
+// This header requires validate.h zo to generate random graphs in a          //
+// deterministic and reproducable fashion.                                    //
+//============================================================================//
+//version 1.0.11                                                              //
+//https://github.com/mzuenni/icpc-header                                      //
+//============================================================================//
+
+#ifndef GRAPH_GENERATOR_H
+#define GRAPH_GENERATOR_H
+
+#include <cassert>
+#include <cstddef>
+#include <deque>
+#include <iostream>
+#include <ostream>
+#include <optional>
+#include <ostream>
+#include <queue>
+#include <random>
+#include <set>
+#include <utility>
+#include <ranges>
+#include <vector>
+#include "validate.h"
+
+namespace GraphDetail {
+	struct NoData final {};
+	constexpr NoData NOTHING;
+
+	// EdgeWrapper may be returned by some function
+	template<typename E, typename = void>
+	struct EdgeWrapper final {
+		const Integer from, to;
+		E& data;
+		EdgeWrapper(Integer from_, Integer to_, E& data_) : from(from_), to(to_), data(data_) {}
+
+		E& operator*() {
+			return data;
+		}
+		const E& operator*() const {
+			return data;
+		}
+
+		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			os << " " << *e;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			os << " " << *e;
+			return os;
+		}
+	};
+	template<typename E>
+	struct EdgeWrapper<E, typename std::enable_if_t<std::is_same_v<std::remove_cv_t<E>, NoData>>> final {
+		const Integer from, to;
+		EdgeWrapper(Integer from_, Integer to_) : from(from_), to(to_) {}
+		EdgeWrapper(Integer from_, Integer to_, E& /**/) : EdgeWrapper(from_, to_) {}
+
+		const E& operator*() const {return NOTHING;}
+
+		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			return os;
+		}
+	};
+
+	// EdgeType is the internel representation of an edge that should never get exposed!
+	template<typename E>
+	struct EdgeType final {
+		// we use key(from, to) = from^to for efficiency
+		// the key function must have the following properties:
+		// key(a, b) == key(b, a)
+		// to1 != to2 <=> key(from, to1) != key(from, to2)
+		// from1 != from2 <=> key(from1, to) != key(from2, to)
+		Integer fromXorTo, to;
+		E data;
+		EdgeType(Integer fromXorTo_, Integer to_, const E& data_) : fromXorTo(fromXorTo_), to(to_), data(data_) {}
+		EdgeType(Integer fromXorTo_, Integer to_, E&& data_) : fromXorTo(fromXorTo_), to(to_), data(std::forward<E>(data_)) {}
+	};
+
+	template<typename E>
+	struct EdgePointerCompair final {
+		using is_transparent = std::true_type;
+		constexpr bool operator()(const EdgeType<E>* t, const EdgeType<E>* u) const {
+			return t->fromXorTo < u->fromXorTo;
+		}
+		constexpr bool operator()(const EdgeType<E>* t, Integer u) const {
+			return t->fromXorTo < u;
+		}
+		constexpr bool operator()(Integer t, const EdgeType<E>* u) const {
+			return t < u->fromXorTo;
+		}
+	};
+
+	template<typename E, bool DIR>
+	class GraphType final {
+		// do not change!
+		static constexpr Integer DEFAULT_MIN_ID = 0;
+
+		template<typename, bool> friend class GraphType;
+		using EdgeTypeValue = E;
+		using Edge = EdgeWrapper<E>;
+		using ConstEdge = EdgeWrapper<const E>;
+		using InternalEdge = EdgeType<E>;
+		using Graph = GraphType<E, DIR>;
+
+		std::deque<std::set<InternalEdge*, EdgePointerCompair<E>>> adj;
+		std::deque<InternalEdge> edges;
+		Integer minId;
+
+		inline void assertNode(Integer id) const {
+			if (id < minId or id >= minId + nodeCount()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [" + std::to_string(minId) + ", " + std::to_string(minId + nodeCount()) + ") !");
+			}
+		}
+
+		auto addEdge(InternalEdge* e) {
+			Integer from = e->fromXorTo ^ e->to;
+			Integer to = e->to;
+			if constexpr (!DIR) if (from != to) adj[to - minId].emplace(e);
+			return adj[from - minId].emplace(e).first;
+		}
+
+		void emplaceEdge(Integer from, Integer to, const E& data = {}) {
+			edges.emplace_back(from ^ to, to, data);
+		}
+
+		void buildAdj() {
+			for (auto& e : edges) addEdge(&e);
+		}
+	public:
+		// construct empty graph with vertices in [from, to)
+		explicit GraphType(Integer from, Integer to) :
+			adj(to - from),
+			minId(from) {
+			judgeAssert<std::invalid_argument>(from <= to, "Graph::from must not be greater than to!");
+		}
+		// construct empty graph with vertices in [0, n)
+		explicit GraphType(Integer n = 0) :
+			GraphType(DEFAULT_MIN_ID, n) {}
+
+		// copy graphs without breaking pointers
+		GraphType(const Graph& o) :
+			adj(o.size()),
+			edges(o.edges),
+			minId(o.minId) {
+			buildAdj();
+		}
+		Graph& operator=(const Graph& o) {
+			if (&o != this) {
+				adj.clear();
+				adj.resize(o.size());
+				edges = o.edges;
+				minId = o.minId;
+				buildAdj();
+			}
+			return *this;
+		}
+		Graph copy() const {
+			return *this;
+		}
+
+		//basic graph parameters
+		std::size_t size() const {
+			return adj.size();
+		}
+
+		Integer nodeCount() const {
+			return static_cast<Integer>(adj.size());
+		}
+
+		Integer edgeCount() const {
+			return static_cast<Integer>(edges.size());
+		}
+
+		Integer degree(Integer id) const {
+			assertNode(id);
+			return static_cast<Integer>(adj[id - minId].size());
+		}
+
+		Integer getMinId() const {
+			return minId;
+		}
+
+		Graph& setMinId(Integer newminId) {
+			for (auto& n : adj) n.clear();
+			for (auto& e : edges) {
+				Integer from = e.fromXorTo ^ e.to;
+				Integer to = e.to;
+				from = from - minId + newminId;
+				to = to - minId + newminId;
+				e.fromXorTo = from ^ to;
+				e.to = to;
+			}
+			minId = newminId;
+			buildAdj();
+			return *this;
+		}
+
+		Integer getNextId() const {
+			return minId + nodeCount();
+		}
+
+		Graph& normalize() {
+			return setMinId(DEFAULT_MIN_ID);
+		}
+
+		Graph range(Integer from, Integer to) const {
+			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
+			Graph res(from, to);
+			for (const auto& e : getEdges()) {
+				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
+					res.addEdge(e.from, e.to, *e);
+				}
+			}
+			return res;
+		}
+
+		// basic graph operations
+		std::optional<Edge> findEdge(Integer from, Integer to) & {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				return Edge(from, to, (*it)->data);
+			} else {
+				return {};
+			}
+		}
+
+		std::optional<ConstEdge> findEdge(Integer from, Integer to) const & {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				return ConstEdge(from, to, (*it)->data);
+			} else {
+				return {};
+			}
+		}
+
+		// ids may change!
+		Edge getEdgeById(std::size_t id) & {
+			if (id >= edges.size()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
+			}
+			return Edge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
+		}
+
+		ConstEdge getEdgeById(std::size_t id) const & {
+			if (id >= edges.size()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
+			}
+			return ConstEdge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
+		}
+
+		bool hasEdge(Integer from, Integer to) const {
+			assertNode(from);
+			assertNode(to);
+			return adj[from - minId].find(from ^ to) != adj[from - minId].end();
+		}
+
+		Edge addEdge(Integer from, Integer to, const E& data = {}) & {
+			assertNode(from);
+			assertNode(to);
+			judgeAssert(from != to, "Graph: invalid selfloop!");
+			auto it = adj[from - minId].find(from ^ to);
+			if (it == adj[from - minId].end()) {
+				emplaceEdge(from, to, data);
+				it = addEdge(&(edges.back()));
+			} else {
+				(*it)->data = data;
+			}
+			return Edge(from, to, (*it)->data);
+		}
+
+		bool eraseEdge(Integer from, Integer to) {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				InternalEdge* a = *it;
+				InternalEdge* b = &(edges.back());
+				adj[from - minId].erase(a);
+				if constexpr (!DIR) adj[to - minId].erase(a);
+				from = b->fromXorTo ^ b->to;
+				to = b->to;
+				adj[from - minId].erase(b);
+				if constexpr (!DIR) adj[to - minId].erase(b);
+				std::swap(*a, *b);
+				edges.pop_back();
+				if (a != b) addEdge(a);
+				return true;
+			} else {
+				return false;
+			}
+		}
+
+		bool eraseEdge(const Edge& edge) {
+			return eraseEdge(edge.from, edge.to);
+		}
+
+		std::ranges::view auto getEdges() const & {
+			return std::views::all(edges)
+				 | std::views::transform([](const InternalEdge& edge){
+				return ConstEdge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
+			});
+		}
+
+		std::ranges::view auto getEdges() & {
+			return std::views::all(edges)
+				 | std::views::transform([](InternalEdge& edge){
+				return Edge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
+			});
+		}
+
+		std::ranges::view auto operator[](Integer id) const & {
+			assertNode(id);
+			return std::views::all(adj[id-minId])
+				 | std::views::transform([id](InternalEdge* edge){
+				return ConstEdge(id, edge->fromXorTo ^ id, edge->data);
+			});
+		}
+
+		std::ranges::view auto operator[](Integer id) & {
+			assertNode(id);
+			return std::views::all(adj[id-minId])
+				 | std::views::transform([id](InternalEdge* edge){
+				return Edge(id, edge->fromXorTo ^ id, edge->data);
+			});
+		}
+
+		std::ranges::view auto getDegrees() const & {
+			return std::views::all(adj)
+				 | std::views::transform([](auto& n){
+				return n.size();
+			});
+		}
+
+		// more basic graph operations
+		Graph& combine(const Graph& o) {
+			if (&o != this) {
+				while (minId > o.minId) {
+					minId--;
+					adj.emplace_front();
+				}
+				while (minId + nodeCount() < o.minId + o.nodeCount()) {
+					adj.emplace_back();
+				}
+				for (const auto& e : o.edges) {
+					addEdge(e.fromXorTo ^ e.to, e.to, e.data);
+				}
+			}
+			return *this;
+		}
+
+		Graph& append(const Graph& o) {
+			//assert(&o != this); // should work
+			Integer diff = nodeCount() + minId - o.minId;
+			adj.resize(nodeCount() + o.nodeCount());
+			for (std::size_t i = 0, j = o.edges.size(); i < j; i++) {
+				Integer to = o.edges[i].to;
+				Integer from = o.edges[i].fromXorTo ^ to;
+				addEdge(from + diff, to + diff, o.edges[i].data);
+			}
+			return *this;
+		}
+
+		Graph& permutateEdges() {
+			for (auto& n : adj) n.clear();
+			Random::shuffle(edges.begin(), edges.end());
+			if constexpr(!DIR) {
+				for (auto& e : edges) {
+					if (Random::bit()) {
+						e.to ^= e.fromXorTo;
+					}
+				}
+			}
+			buildAdj();
+			return *this;
+		}
+
+		Graph& permutate(const std::vector<Integer>& perm) {
+			judgeAssert<std::invalid_argument>(perm.size() == size() and isPerm(perm, minId), "Graph: not a permutation");
+			for (auto& n : adj) n.clear();
+			Random::shuffle(edges.begin(), edges.end());
+			for (auto& e : edges) {
+				if constexpr (!DIR) {
+					if (Random::bit()) {
+						e.to ^= e.fromXorTo;
+					}
+				}
+				e.fromXorTo ^= e.to;
+				e.fromXorTo = perm[e.fromXorTo - minId];
+				e.to = perm[e.to - minId];
+				e.fromXorTo ^= e.to;
+			}
+			buildAdj();
+			return *this;
+		}
+
+		Graph& permutate() {
+			std::vector<Integer> perm(size());
+			std::iota(perm.begin(), perm.end(), minId);
+			Random::shuffle(perm.begin(), perm.end());
+			return permutate(perm);
+		}
+
+		Graph subgraph(Integer m) const {
+			if (m >= edgeCount()) return *this;
+			Graph res(minId, minId + nodeCount());
+			auto todo = Random::distinct(m, 0, edgeCount());
+			for (auto id : todo) res.edges.emplace_back(edges[id]);
+			res.buildAdj();
+			return res;
+		}
+
+		GraphType<E, true>& reverse() {
+			static_assert(DIR, "Graph: reverse() is only available on directed graphs!");
+			for (auto& n : adj) n.clear();
+			for (auto& e : edges) {
+				e.to ^= e.fromXorTo;
+			}
+			buildAdj();
+			return *this;
+		}
+
+		GraphType<E, false> undirected() const {
+			static_assert(DIR, "Graph: undirected() is only available on directed graphs!");
+			GraphType<E, false> res(minId, minId + nodeCount());
+			for (const auto e : getEdges()) {
+				res.addEdge(e.from, e.to, *e);
+			}
+			return res;
+		}
+
+		template<typename PRED>
+		GraphType<E, true> directed(const PRED&& p) const {
+			static_assert(!DIR, "Graph: directed() is only available on undirected graphs!");
+			GraphType<E, true> res(minId, minId + nodeCount());
+			for (const auto& e : getEdges()) {
+				if constexpr (std::is_invocable_r_v<bool, PRED, Integer, Integer, const E&>) {
+					if (p(e.from, e.to, *e)) res.emplaceEdge(e.from, e.to, *e);
+					if (p(e.to, e.from, *e)) res.emplaceEdge(e.to, e.from, *e);
+				} else {
+					static_assert(std::is_invocable_r_v<bool, PRED, Integer, Integer>, "Graph: pred has wrong signature!");
+					if (p(e.from, e.to)) res.emplaceEdge(e.from, e.to, *e);
+					if (p(e.to, e.from)) res.emplaceEdge(e.to, e.from, *e);
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		GraphType<E, true> directed() const {
+			return directed([](Integer /**/, Integer /**/){
+				return true;
+			});
+		}
+
+		Graph complement() const {
+			Graph res(minId, minId + nodeCount());
+			for (Integer i = 0; i < nodeCount(); i++) {
+				for (Integer j = 0; j < i; j++) {
+					if (!hasEdge(i + minId, j + minId)) {
+						res.emplaceEdge(i + minId, j + minId);
+					}
+					if constexpr (DIR) {
+						if (!hasEdge(j + minId, i + minId)) {
+							res.emplaceEdge(j + minId, i + minId);
+						}
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		// advanced graph operations
+		Graph power(Integer k) const {
+			Graph res(minId, minId + nodeCount());
+			std::vector<bool> seen(nodeCount());
+			for (Integer i = 0; i < nodeCount(); i++) {
+				std::vector<std::pair<Integer, Integer>> queue = {{i, 0}};
+				for (std::size_t j = 0; j < queue.size(); j++) {
+					auto [c, d] = queue[j];
+					if (d < k) {
+						for (const auto& e : (*this)[c + minId]) {
+							if (!seen[e.to - minId]) {
+								seen[e.to - minId] = true;
+								queue.emplace_back(e.to - minId, d + 1);
+							}
+						}
+					}
+				}
+				for (auto [c, d] : queue) {
+					seen[c] = false;
+					if (DIR ? i != c : i < c) {
+						res.emplaceEdge(i + minId, c + minId);
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph transitiveClosure() const {
+			return power(nodeCount());
+		}
+
+		Graph product(const Graph& o) const {
+			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
+			Graph res(nodeCount() * o.nodeCount());
+			auto newId = [&](Integer a, Integer b){
+				return (b - o.minId) * nodeCount() + (a - minId);
+			};
+			for (const auto& e1 : getEdges()) {
+				for (const auto& e2 : o.getEdges()) {
+					res.emplaceEdge(newId(e1.from, e2.from), newId(e1.to, e2.to));
+					res.emplaceEdge(newId(e1.from, e2.to), newId(e1.to, e2.from));
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph cartesian(const Graph& o) const {
+			Graph res(nodeCount() * o.nodeCount());
+			auto newId = [&](Integer a, Integer b){
+				return (b-o.minId) * nodeCount() + (a-minId);
+			};
+			for (const auto& e : o.getEdges()) {
+				for (Integer i = 0; i < nodeCount(); i++) {
+					Integer from = newId(i + minId, e.from);
+					Integer to = newId(i + minId, e.to);
+					res.emplaceEdge(from, to);
+				}
+			}
+			for (const auto& e : getEdges()) {
+				for (Integer i = 0; i < o.nodeCount(); i++) {
+					Integer from = newId(e.from, i + o.minId);
+					Integer to = newId(e.to, i + o.minId);
+					res.emplaceEdge(from, to);
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph strongProduct(const Graph& o) const {
+			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
+			return o.cartesian(*this).combine(o.product(*this));
+		}
+
+		Graph lineGraph() const {
+			GraphType<Integer, DIR> tmp(minId, minId + nodeCount());
+			Integer nextEdge = 0;
+			for (const auto& e : getEdges()) {
+				tmp.emplaceEdge(e.from, e.to, nextEdge);
+				nextEdge++;
+			}
+			tmp.buildAdj();
+			Graph res(nextEdge);
+			for (const auto& e1 : tmp.getEdges()) {
+				if constexpr (DIR) {
+					for (const auto& e2 : tmp[e1.to]) {
+						res.emplaceEdge(*e1, *e2);
+					}
+				} else {
+					for (const auto& e2 : tmp[e1.to]) {
+						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
+					}
+					for (const auto& e2 : tmp[e1.from]) {
+						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		friend std::ostream& operator<<(std::ostream& os, const Graph& g) {
+			os << g.nodeCount() << " " << g.edgeCount();
+			for (const auto& e : g.getEdges()) os << '\n' << e;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const Graph& g) {
+			os << g.nodeCount() << " " << g.edgeCount();
+			for (const auto& e : g.getEdges()) os << '\n' << e;
+			return os;
+		}
+
+	};
+} // GraphDetail
+
+using NoData = GraphDetail::NoData;
+
+template<typename E = GraphDetail::NoData>
+using Edge = GraphDetail::EdgeWrapper<E>;
+
+template<typename E = GraphDetail::NoData>
+using Graph = GraphDetail::GraphType<E, false>;
+
+template<typename E = GraphDetail::NoData>
+using DiGraph = GraphDetail::GraphType<E, true>;
+
+// n independed vertices in range [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> independent(Integer n) {
+	return GraphDetail::GraphType<E, DIR>(n);
+}
+
+// n connected vertices in range [0, n)
+// if directed all edges go from i to j with i < j
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> clique(Integer n) {
+	// could be implemented as linegraph of a star.
+	GraphDetail::GraphType<E, DIR> res(n);
+	for (Integer j = 0; j < n; j++) {
+		for (Integer i = 0; i < j; i++) {
+			res.addEdge(i, j);
+		}
+	}
+	return res;
+}
+
+// complete bipartite graph with partition [0, n) and [n, n+m)
+// if directed all edges go from [0, n) to [n, n+m)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> bipartite(Integer n, Integer m) {
+	GraphDetail::GraphType<E, DIR> res(n+m);
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; j < m; j++) {
+			res.addEdge(i, n + j);
+		}
+	}
+	return res;
+}
+
+// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
+// each edge exists with a given number of edges k
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k) {
+	GraphDetail::GraphType<E, DIR> res(n+m);
+	Integer lim = n * m;
+	if constexpr (DIR) lim *= 2;
+	auto edges = Random::distinct(k, 0, lim);
+	for (Integer x : edges) {
+		Integer i = x % n;
+		Integer j = x / n + n;
+		if constexpr(DIR) {
+			if (x >= n * m) {
+				j -= m;
+				std::swap(i, j);
+			}
+		}
+		res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
+// each edge exists with probability p
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
+	Integer lim = n * m;
+	if constexpr (DIR) lim *= 2;
+	return randomBipartite<E, DIR>(n, m, Random::binomial(lim, p));
+}
+
+// star with root = 0 and chilrden [1, leaves]
+// if directed all edges go the root to [1, leaves)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> star(Integer leaves) {
+	return bipartite<E, DIR>(1, leaves);
+}
+
+// path 0-1-2-...-edges with vertices [0, edges]
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> path(Integer edges) {
+	GraphDetail::GraphType<E, DIR> res(edges+1);
+	for (Integer i = 0; i < edges; i++) {
+		res.addEdge(i, i + 1);
+	}
+	return res;
+}
+
+// path 0-1-2-...-n-1-0 with vertices [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> cycle(Integer n) {
+	auto p = path<E, DIR>(n-1);
+	p.addEdge(n - 1, 0);
+	return p;
+}
+
+// wheel with root = 1 and outer vertices 1-2-...-outer-1 with vertices [0, outer]
+template<typename E = NoData>
+Graph<E> wheel(Integer outer) {
+	return star<E>(outer).combine(cycle<E>(outer).setMinId(1));
+}
+
+// lolly graph with a path with p edges [0, p] and a clique [p, p+c) and
+// p is the vertex where clique and path are connected
+template<typename E = NoData>
+Graph<E> lolly(Integer p, Integer c) {
+	return path<E>(p).combine(clique<E>(c).setMinId(p));
+}
+
+// broom graph with a path with p edges [0, p] and a star [p, p+l]
+// p is the vertex where star and path are connected
+template<typename E = NoData>
+Graph<E> broom(Integer p, Integer l) {
+	return path<E>(p).combine(star<E>(l).setMinId(p));
+}
+
+// n times m grid
+// 0-1-...-n-1
+// | |      |
+// n- ... -2*n-1
+// |        |
+// .        .
+//          |
+//        -n*m-1
+template<typename E = NoData>
+Graph<E> grid(Integer n, Integer m) {
+	return path<E>(n-1).cartesian(path<E>(m-1));
+}
+template<typename E = NoData>
+Graph<E> grid(Integer n) {
+	return grid<E>(n, n);
+}
+
+// n dimensional hyper cube with vertices [0, 2^dimension)
+// a-b <=> |a^b|=1
+template<typename E = NoData>
+Graph<E> hypercube(Integer dimension) {
+	if (dimension < 2) return clique<E>(dimension+1);
+	return hypercube<E>(dimension-1).cartesian(clique<E>(2));
+}
+
+// complete tree with root at 0 and all subtrees are consecutive
+// vertices in [0, (children^{level+1}-1)/(children-1))
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> completeTree(Integer level, Integer children = 2) {
+	if (level <= 0) return independent<E, DIR>(1);
+	GraphDetail::GraphType<E, DIR> res(1);
+	GraphDetail::GraphType<E, DIR> sub = completeTree<E, DIR>(level - 1, children);
+	for (Integer i = 0; i < children; i++) {
+		Integer next = res.nodeCount();
+		res.append(sub);
+		res.addEdge(0, next);
+	}
+	return res;
+}
+
+
+// complete boolean lattice i->j <=> i|j==j
+// vertices in [0, 2^level)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> booleanLattice(Integer level) {
+	GraphDetail::GraphType<E, DIR> res(1 << level);
+	for (Integer i = 0; i < res.nodeCount(); i++) {
+		for (Integer j = 1; j < res.nodeCount(); j*=2) {
+			if ((i | j) == i) {
+				res.addEdge(i, i^j);
+			}
+		}
+	}
+	return res;
+}
+
+// prefix of the rado graph i->j <=> i<j and j[i] == true;
+// vertices in [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> rado(Integer n) {
+	GraphDetail::GraphType<E, DIR> res(n);
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; (1 << j) <= i; j++) {
+			if ((i | (1 << j)) == i) {
+				res.addEdge(j, i);
+			}
+		}
+	}
+	return res;
+}
+
+// generate a tree from a pruefer code
+// values should be in [0, sz(code)+2)
+template<typename E = NoData>
+Graph<E> pruefer(const std::vector<Integer>& code) {
+	Graph<E> res(code.size() + 2);
+	std::vector<Integer> count(res.nodeCount());
+	for (Integer x : code) count[x]++;
+	Integer current = -1;
+	Integer skip = -1;
+	auto getNext = [&](){
+		Integer oldSkip = skip;
+		skip = -1;
+		if (0 <= oldSkip and oldSkip <= current) return oldSkip;
+		for (current++; count[current] > 0; current++) {}
+		return current;
+	};
+	for (Integer x : code) {
+		Integer y = getNext();
+		res.addEdge(x, y);
+		count[x]--;
+		if (count[x] == 0) skip = x;
+	}
+	Integer x = getNext();
+	Integer y = getNext();
+	res.addEdge(x, y);
+	return res;
+}
+
+// generate a random tree with vertices [0, n)
+// if directed 0 is the root
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomTree(Integer n) {
+	if constexpr (!DIR) {
+		if (n <= 2) return clique<E>(n);
+		std::vector<Integer> code(n - 2);
+		for (Integer& x : code) x = Random::integer(n);
+		return pruefer<E>(code);
+	} else {
+		Graph<NoData> tmp = randomTree<NoData, false>(n);
+		DiGraph<E> res(n);
+		auto dfs = [&tmp, &res](auto&& self, Integer cur, Integer pref) -> void {
+			for (auto edge : tmp[cur]) {
+				if (edge.to == pref) continue;
+				res.addEdge(cur, edge.to);
+				self(self, edge.to, cur);
+			}
+		};
+		dfs(dfs, tmp.getMinId(), tmp.getMinId() - 1);
+		return res;
+	}
+}
+
+// generate a random graph (Erdös-Renyi)
+// each edge exists with a given number of edges m
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
+	GraphDetail::GraphType<E, DIR> res(n);
+	Integer lim = n * (n-1);
+	if constexpr (!DIR) lim /= 2;
+	auto edges = Random::distinct(m, 0, lim);
+	for (Integer x : edges) {
+		Integer i = x / n;
+		Integer j = x % n;
+		if constexpr(DIR) {
+			if (i == j) i = n - 1;
+		} else {
+			if (j <= i) {
+				i = n - 2 - i;
+				j = n - 1 - j;
+			}
+		}
+		res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random graph (Erdös-Renyi)
+// each edge exists with probability p
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
+	Integer lim = n * (n - 1);
+	if constexpr (!DIR) lim /= 2;
+	return randomGraph<E, DIR>(n, Random::binomial(lim, p));
+}
+
+// generate a random graph with linear growing degrees
+template<typename E = NoData>
+Graph<E> randomGrowingGraph(Integer n, Real p) {
+	judgeAssert<std::domain_error>(0.0_real <= p and p <= 1.0_real, "randomGrowingGraph(): p must be in [0,1]!");
+	Graph<E> res(n);
+	for (Integer i = 0; i < n; i++) {
+		Integer deg = p * Random::real(0, i+1);
+		auto neighbours = Random::distinct(deg, 0, i);
+		for (Integer j : neighbours) res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random graph with a given degree sequence
+// (not uniform...)
+template<typename E = NoData>
+Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips = 10) {
+	Graph<E> res(std::ssize(degree));
+	// havel hakimi in O(m*log(n))
+	std::priority_queue<std::pair<Integer, Integer>> pq;
+	for (Integer i = 0; i < std::ssize(degree); i++) {
+		if (degree[i] < 0) {
+			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
+		}
+		if (degree[i] > 0) {
+			pq.emplace(degree[i], i);
+		}
+	}
+	while (!pq.empty()) {
+		auto [d, c] = pq.top();
+		pq.pop();
+		if (std::ssize(pq) < d or d < 0) {
+			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
+		}
+		std::vector<std::pair<Integer, Integer>> todo;
+		for (Integer i = 0; i < d; i++) {
+			auto [dd, cc] = pq.top();
+			pq.pop();
+			res.addEdge(c, cc);
+			dd--;
+			if (dd > 0) todo.emplace_back(dd, cc);
+		}
+		for (const auto& e : todo) pq.push(e);
+	}
+	// randomly flip edges O(m*log(n))
+	if (res.edgeCount() == 0) return res;
+	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
+		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
+		auto b = res.getEdgeById(Random::integer(res.edgeCount()));
+		if (a.from == b.to or res.hasEdge(a.from, b.to)) continue;
+		if (b.from == a.to or res.hasEdge(b.from, a.to)) continue;
+		res.eraseEdge(a.from, a.to);
+		res.eraseEdge(b.from, b.to);
+		res.addEdge(a.from, b.to);
+		res.addEdge(b.from, a.to);
+	}
+	return res;
+}
+
+// generates a worstcase instance for Ford Fulkerson with dfs.
+// The graph contains 2*n vertices and has 2^n flow from 0 to 2*n-1.
+// Figure 2: https://people.computing.clemson.edu/~bcdean/iterm.pdf
+// Note that the specific order of edghes is required
+DiGraph<Integer> ffWorstcase(Integer n) {
+	judgeAssert(0 < n && n <= 63, "ffWorstcase(): n out of bounds");
+	DiGraph<Integer> res(2 * n);
+	res.addEdge(n-1, n, 1);
+	for (Integer i = n - 2, j = n+1, c = 1; j < 2 * n; i--, j++, c *= 2) {
+		res.addEdge(i, i+1, c);
+		res.addEdge(i, j-1, c);
+		res.addEdge(i+1, j, c);
+		res.addEdge(j-1, j, c);
+	}
+	return res;
+}
+
+// generates a worstcase instance for various min cost max flow algorithms.
+// The graph contains 2*n+2 vertices and has flow from 0 to 2*n+1.
+// Figure 4: https://link.springer.com/article/10.1007/BF01580132
+DiGraph<std::pair<Integer, Integer>> mcmfWorstcase(Integer n) {
+	judgeAssert(0 < n && n <= 60, "mcmfWorstcase(): n out of bounds");
+	DiGraph<std::pair<Integer, Integer>> res(2 * n + 2);
+	Integer inf = 5 * (1ll << n) / 4;
+	for (Integer i = 0; i < n; i++) {
+		res.addEdge(0, i + 1, {i < 2 ? 2 * i + 1 : 5ll << (i - 2), 0});
+	}
+	res.addEdge(1, n + 1, {inf, 0});
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; j < n; j++) {
+			if (i == j) continue;
+			res.addEdge(i + 1, j + 1 + n, {inf, (1ll << std::max(i, j)) - 1});
+		}
+	}
+	for (Integer i = 0; i < n; i++) {
+		res.addEdge(i + 1 + n, 2 * n + 1, {i < 2 ? 2: 5ll << (i - 2), 0});
+	}
+	return res;
+}
+
+#endif
-- 
2.43.0


From 4c90a20a6c5dfbb5c189711e7b41fc111a4ec1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:50 +0000
Subject: [PATCH 54/54] fix: drawing with a color of the image itself used the
 changed color

---
 src/visualizer_png.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index 154a12f..a74bc0f 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -339,7 +339,7 @@ public:
 	}
 
 	template<BlendMode M = BlendMode::ASSIGN>
-	void fillRectangle(const Point& a, const Point& b, const Color border, const Color& fill) {
+	void fillRectangle(const Point& a, const Point& b, const Color border, const Color fill) {
 		for (Integer y = std::min(a.y, b.y); y <= std::max(a.y, b.y); y++) {
 			for (Integer x = std::min(a.x, b.x); x <= std::max(a.x, b.x); x++) {
 				if (y == a.y or y == b.y or x == a.x or x == b.x) {
@@ -352,12 +352,12 @@ public:
 	}
 
 	template<BlendMode M = BlendMode::ASSIGN>
-	void fillRectangle(const Point& a, const Point& b, const Color& fill) {
+	void fillRectangle(const Point& a, const Point& b, const Color fill) {
 		fillRectangle<M>(a, b, fill, fill);
 	}
 
 	template<BlendMode M = BlendMode::ASSIGN>
-	void floodFill(const Point& a, const Color& fill) {
+	void floodFill(const Point& a, const Color fill) {
 		std::vector<Point> todo = {a};
 		Color old = colors[a.y][a.x];
 		colors[a.y][a.x] = details::combine<M>(colors[a.y][a.x], fill);
@@ -376,7 +376,7 @@ public:
 	}
 
 	template<BlendMode M = BlendMode::ASSIGN>
-	void drawLine(const Point& a, const Point& b, const Color& fill) {
+	void drawLine(const Point& a, const Point& b, const Color fill) {
 		// Bresenham Algorithm
 		Integer dx = std::abs(b.x - a.x);
 		Integer sx = (a.x - b.x < 0) - (a.x - b.x > 0);
-- 
2.43.0

