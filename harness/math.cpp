// C15 modular arithmetic, C16 primes
#include "psp.h"
#include "vhv.h"
using vh::u64; using vh::i64;

#include "refmath.h"
#if !defined(VH_ONLY) || VH_ONLY == 15
static i64 wildMod(vh::Rng& r) {
	for (;;) {
		i64 m = r.chance(1, 6) ? r.in(1, 6) : r.chance(1, 6) ? i64(0x100000000ll + r.in(-3, 3)) : r.chance(1, 8) ? i64(0x80000000ll + r.in(-3, 3)) : r.wild();
		if (m > 0) return m;
	}
}
static i64 wildOp(vh::Rng& r, i64 m) {
	switch (r.below(4)) {
		case 0: { i64 k = r.in(-3, 3), e = r.in(-3, 3); i64 x; if (!__builtin_mul_overflow(k, m, &x) && !__builtin_add_overflow(x, e, &x)) return x; return e; }
		case 1: return r.in(-m, m);
		default: return r.wild();
	}
}

GROUP(C15, modular, 60000, 4000000) {
	i64 m = wildMod(c.r), a = wildOp(c.r, m), b = wildOp(c.r, m);
	i64 e = c.r.chance(1, 3) ? c.r.in(0, 20) : c.r.wild();
	std::ostringstream os; os << "a=" << a << " b=" << b << " e=" << e << " m=" << m; c.note(os.str());
	c.fp(u64(a)); c.fp(u64(b)); c.fp(u64(m));
	if (c.wantSample()) c.sample(os.str());
	u64 um = u64(m), ra = red(a, um), rb = red(b, um);
	i64 g1 = applyMod(a, m);
	VCHECK(c, g1 == i64(ra), "C15.applyMod", "applyMod(" << a << "," << m << ")=" << g1 << " expected " << ra);
	i64 g2 = mulMod(a, b, m); i64 w2 = i64(mulm(ra, rb, um));
	VCHECK(c, g2 == w2, "C15.mulMod", "mulMod(" << a << "," << b << "," << m << ")=" << g2 << " expected " << w2);
	if (e >= 0) {
		i64 g3 = powMod(a, e, m); i64 w3 = i64(powm(ra, u64(e), um));
		VCHECK(c, g3 == w3, "C15.powMod", "powMod(" << a << "," << e << "," << m << ")=" << g3 << " expected " << w3);
		c.ev(m == 1 ? "powMod mod 1" : m <= 0x100000000ll ? "powMod small mod" : "powMod large mod");
	} else {
		VCHECK(c, vh::throwsStd([&] { (void)powMod(a, e, m); }), "C15.powMod-neg", "powMod accepts exponent " << e);
		c.ev("negative exponent");
	}
	u64 gg = std::gcd(ra, um);
	i64 inv = multInv(a, m);
	if (gg == 1) {
		VCHECK(c, inv >= 0 && inv < m && mulm(u64(inv), ra, um) == 1 % um, "C15.multInv", "multInv(" << a << "," << m << ")=" << inv);
		c.ev("inverse exists");
	} else { VCHECK(c, inv == -1, "C15.multInv", "multInv(" << a << "," << m << ")=" << inv << " expected -1"); c.ev("no inverse"); }
}
GROUP(C15, smallExhaustive, 40, 120) {
	i64 m = i64(c.idx) + 1; c.fp(u64(m));
	for (i64 a = -2 * m - 3; a <= 2 * m + 3; a++) {
		VCHECK(c, applyMod(a, m) == ((a % m) + m) % m, "C15.applyMod", "applyMod(" << a << "," << m << ")");
		i64 found = -1; for (i64 y = 0; y < m; y++) if ((((a * y - 1) % m) + m) % m == 0) { found = y; break; }
		VCHECK(c, multInv(a, m) == found, "C15.multInv", "multInv(" << a << "," << m << ")=" << multInv(a, m) << " expected " << found);
		i64 p = ((1 % m) + m) % m;
		for (i64 e = 0; e < 9; e++) { VCHECK(c, powMod(a, e, m) == p, "C15.powMod", "powMod(" << a << "," << e << "," << m << ")"); p = (((p * a) % m) + m) % m; }
		for (i64 b = -m - 1; b <= m + 1; b++) VCHECK(c, mulMod(a, b, m) == (((a * b) % m) + m) % m, "C15.mulMod", "mulMod(" << a << "," << b << "," << m << ")");
		c.ev("small operands");
	}
}
GROUP(C15, rejects, 2000, 20000) {
	i64 m = c.r.chance(1, 4) ? 0 : -std::abs(c.r.wild() / 2); if (c.r.chance(1, 10)) m = INT64_MIN;
	i64 a = c.r.wild(), b = c.r.wild(), e = c.r.in(0, 50); c.fp(u64(m)); c.fp(u64(a));
	std::ostringstream os; os << "a=" << a << " m=" << m; c.note(os.str());
	VCHECK(c, vh::throwsStd([&] { (void)mulMod(a, b, m); }), "C15.reject", "mulMod accepts mod " << m);
	VCHECK(c, vh::throwsStd([&] { (void)powMod(a, e, m); }), "C15.reject", "powMod accepts mod " << m);
	VCHECK(c, vh::throwsStd([&] { (void)multInv(a, m); }), "C15.reject", "multInv accepts mod " << m);
	i64 m2 = wildMod(c.r), e2 = c.r.wild(); if (e2 >= 0) e2 = -1 - e2;
	VCHECK(c, vh::throwsStd([&] { (void)powMod(a, e2, m2); }), "C15.reject", "powMod accepts exp " << e2);
	c.ev("rejected modulus");
}
GROUP(C15, signDist, 20000, 500000) {
	i64 a = c.r.wild(), b = c.r.wild(); c.fp(u64(a)); c.fp(u64(b));
	if (c.r.chance(1, 6)) b = a;
	VCHECK(c, sign(a) == (a > 0 ? 1 : a < 0 ? -1 : 0), "C15.sign", "sign(" << a << ")=" << sign(a));
	u64 d = a > b ? u64(a) - u64(b) : u64(b) - u64(a);
	if (d <= u64(INT64_MAX)) { VCHECK(c, u64(dist(a, b)) == d, "C15.dist", "dist(" << a << "," << b << ")=" << dist(a, b)); c.ev("dist"); }
	VCHECK(c, dist(u64(a), u64(b)) == (u64(a) > u64(b) ? u64(a) - u64(b) : u64(b) - u64(a)), "C15.dist", "unsigned dist(" << u64(a) << "," << u64(b) << ")");
	int x = int(c.r.in(-1000, 1000)), y = int(c.r.in(-1000, 1000));
	VCHECK(c, dist(x, y) == std::abs(x - y) && sign(x) == (x > 0) - (x < 0), "C15.dist", "int dist/sign " << x << "," << y);
	Real p = (Real)x / 7, q = (Real)y / 7;
	VCHECK(c, dist(p, q) == (p > q ? p - q : q - p) && sign(p) == (p > 0) - (p < 0) && sign(-p) == -sign(p), "C15.dist", "real dist/sign " << p << "," << q);
	VCHECK(c, sign(0.0_real) == 0 && sign(-0.0_real) == 0 && sign(u64(a)) == (a != 0), "C15.sign", "sign of zero/unsigned " << a);
}

#endif
#if !defined(VH_ONLY) || VH_ONLY == 16
// ---- C16 ----
static const i64 SPECIAL[] = {   // Carmichael numbers, strong pseudoprimes (psi_k, base 2), Fermat/Mersenne products, borders
	561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361, 101101, 115921, 126217, 162401, 172081, 188461, 252601,
	2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751, 1373653, 25326001, 3215031751ll, 2152302898747ll, 3474749660383ll,
	341550071728321ll, 3825123056546413051ll, 4294967297ll, 4294967291ll, 4294967311ll, 18446743979220271ll, 9223372036854775783ll, 9223372036854775807ll, 9223372036854775643ll, 2305843009213693951ll, 2305843009213693953ll,
	9223372036854775549ll, 4611686014132420609ll, 4611686018427387847ll, 9223371994482243049ll, 9223372006790004743ll, 325, 9375, 28178, 450775, 9780504, 1795265022, 131, 132, 133, 137, 17161, 17947, 18769,
	318665857834031151ll, 1122004669633ll, 55245642489451ll, 7999252175582851ll, 585226005592931977ll, 67385083ll * 1, 1995586723ll, 47197ll * 94393, 2ll * 9780504 + 1, 252097800623ll, 4759123141ll,
	1373653ll, 350269456337ll, 55245642489451ll, 7999252175582851ll, 4398050705407ll, 70368760954879ll, 18014398241046527ll, 99999999944441ll, 3186658578340311511ll, 9223372036854775807ll };
GROUP(C16, pseudoprimes, 50, 500) {      // numbers which only a single witness exposes
	std::size_t n = sizeof PSP / sizeof *PSP; for (std::size_t i = c.idx % 50; i < n; i += 50) {
		c.fp(u64(PSP[i])); c.note("isPrime(" + std::to_string(PSP[i]) + ")"); c.ev("pseudoprimes to most witnesses"); VCHECK(c, !primeRef(PSP[i]), "C16.list", PSP[i] << " is prime (harness)");
		VCHECK(c, !isPrime(PSP[i]), "C16.isPrime", "isPrime(" << PSP[i] << ") of a pseudoprime to all but few of the witnesses is true"); }
	if (c.idx % 10 == 0) { i64 x = PSP[c.idx * 37 % n]; VCHECK(c, primes(x, x + 1).empty(), "C16.primes", "primes lists " << x); }
}
GROUP(C16, isPrime, 30000, 3000000) {
	i64 n; const char* kind;
	switch (c.r.below(10)) {
		case 0: n = SPECIAL[c.r.below(sizeof SPECIAL / sizeof *SPECIAL)]; if (c.r.chance(1, 3)) n = n > INT64_MAX - 8 ? n - c.r.in(0, 8) : n + c.r.in(-4, 4); kind = "special"; break;
		case 1: n = c.r.wild(); kind = "wild"; break;
		case 2: { i64 p = c.r.in(2, 3037000498ll); while (!primeRef(p)) p--; n = p * p; kind = "prime square"; break; }
		case 3: { i64 p = c.r.in(2, 2000000ll); while (!primeRef(p)) p--; n = p * p * p; kind = "prime cube"; break; }
		case 4: { i64 p = c.r.in(2, 2147483647ll); while (!primeRef(p)) p--; i64 q = c.r.in(2, INT64_MAX / p); while (!primeRef(q)) { if (q == 2) break; q--; } n = p * q; kind = "semiprime"; break; }
		case 5: { i64 k = c.r.in(1, 1060000000ll); i64 p = k * 2 + 1; i64 q = 2 * (p - 1) + 1; while (!(primeRef(p) && primeRef(q))) { p += 2; q = 2 * (p - 1) + 1; if (p > 2140000000ll) p = 3; q = 2 * (p - 1) + 1; } n = p * q; kind = "(k+1)(2k+1)"; break; }
		case 6: { i64 k = c.r.in(1, 190000); while (!(primeRef(6 * k + 1) && primeRef(12 * k + 1) && primeRef(18 * k + 1))) if (++k > 191000) k = 1; n = (6 * k + 1) * (12 * k + 1) * (18 * k + 1); kind = "Chernick Carmichael"; break; }
		case 7: { n = c.r.in(1ll << 40, INT64_MAX) | 1; while (!primeRef(n)) { n -= 2; } kind = "large prime"; break; }
		case 8: n = c.r.in(-300, 40000); kind = "small"; break;
		default: { int k = int(c.r.in(8, 62)); n = i64(c.r.next() >> (64 - k)) | 1; if (c.r.chance(1, 2)) while (n < INT64_MAX - 2 && !primeRef(n)) n += 2; kind = "odd"; }
	}
	c.fp(u64(n)); c.ev(kind); c.note("isPrime(" + std::to_string(n) + ")");
	bool w = primeRef(n), g = isPrime(n);
	c.ev(w ? "primes seen" : "composites seen");
	if (c.wantSample()) c.sample(std::to_string(n) + " (" + kind + ") -> " + (w ? "prime" : "composite"));
	VCHECK(c, g == w, "C16.isPrime", "isPrime(" << n << ")=" << g << " (" << kind << ")");
}
GROUP(C16, negatives, 300, 3000) {
	i64 n = c.r.wild(); if (n > 0) n = -n; c.fp(u64(n));
	VCHECK(c, !isPrime(n), "C16.isPrime", "isPrime(" << n << ") is true"); c.ev("non-positive");
}
GROUP(C16, smallExhaustive, 12, 200) {
	i64 base = i64(c.idx) * 4096; c.fp(u64(base));
	for (i64 n = base; n < base + 4096; n++) {
		bool w = n >= 2; for (i64 d = 2; d * d <= n && w; d++) if (n % d == 0) w = false;
		VCHECK(c, isPrime(n) == w, "C16.isPrime", "isPrime(" << n << ")=" << isPrime(n)); c.ev("trial division checked");
	}
}
GROUP(C16, primes, 240, 12000) {
	i64 lo, len;
	switch (c.r.below(8)) {
		case 0: lo = c.r.in(-20, 30); len = c.r.in(1, 60); break;
		case 1: lo = c.r.in(-50, 200); len = c.r.in(1, 3000); break;
		case 2: { i64 s = c.r.in(2, 200000); lo = s * s - c.r.in(0, 40); len = c.r.in(1, 300); break; }
		case 3: lo = INT64_MAX - c.r.in(1, 400); len = INT64_MAX - lo - c.r.in(0, 3); break;
		case 4: lo = c.r.in(0, INT64_MAX - 1000); len = c.r.in(1, 600); break;
		case 5: { len = c.r.in(3, 400); lo = len * len - c.r.in(-30, 2 * len); break; }
		case 6: lo = INT64_MIN + c.r.in(0, 5); len = c.r.in(1, 1000); break;
		default: lo = c.r.in(0, 1000000); len = c.r.in(1, 2000);
	}
	if (len < 1) len = 1;
	if (lo == INT64_MAX) lo--;
	i64 hi = lo > INT64_MAX - len ? INT64_MAX : lo + len;
	bool one = c.r.chance(1, 10) && hi < 100000 && hi > 0; if (one) lo = 0;
	std::string in = "primes(" + std::to_string(lo) + "," + std::to_string(hi) + ")"; c.note(in); c.fp(in);
	std::vector<i64> w; for (i64 i = std::max<i64>(lo, 2); i < hi; i++) if (primeRef(i)) w.push_back(i);
	auto gv = one ? primes(hi) : primes(lo, hi); std::vector<i64> g(gv.begin(), gv.end());
	c.ev("window primes", w.size()); c.ev(w.empty() ? "empty window" : "window");
	if (c.wantSample()) c.sample(in + " -> " + std::to_string(w.size()) + " primes");
	VCHECK(c, g == w, "C16.primes", in << " = " << vh::show(g) << " expected " << vh::show(w));
}
GROUP(C16, longWindow, 2, 20) {
	i64 lo = c.idx % 2 ? i64(c.r.below(1000000000)) : 0, len = c.r.in(150000, vh::G().thorough ? 3000000 : 200000); i64 hi = lo + len; c.fp(u64(lo)); c.fp(u64(hi));
	std::vector<char> comp(std::size_t(len), 0);
	for (i64 d = 2; d * d < hi; d++) for (i64 j = std::max(d * d, (lo + d - 1) / d * d); j < hi; j += d) comp[std::size_t(j - lo)] = 1;
	std::vector<i64> w; for (i64 i = std::max<i64>(2, lo); i < hi; i++) if (!comp[std::size_t(i - lo)]) w.push_back(i);
	auto gv = primes(lo, hi); std::vector<i64> g(gv.begin(), gv.end());
	VCHECK(c, g == w, "C16.primes", "primes(" << lo << "," << hi << ") differs: " << g.size() << " vs " << w.size()); c.ev("long window primes", w.size());
}
GROUP(C16, hugeWindow, 0, 1) {   // longer than the sieve's internal cap of 2^30
	if (sizeof(void*) < 8) { c.trivial(); return; }
	auto p = primes(0, 0x40000040); c.fp(p.size());
	VCHECK(c, p.size() == 54400028 + [] { std::size_t k = 0; for (i64 i = 0x40000000; i < 0x40000040; i++) k += primeRef(i); return k; }(), "C16.primes", "primes(0,2^30+64) has " << p.size() << " elements");
	for (std::size_t i = 1; i < p.size(); i++) VCHECK(c, p[i - 1] < p[i], "C16.primes", "not increasing at " << i);
	c.ev("huge window primes", p.size());
}
GROUP(C16, reject, 200, 2000) {
	i64 lo = c.r.wild(), hi = c.r.wild(); if (lo < hi) std::swap(lo, hi); c.fp(u64(lo)); c.fp(u64(hi));
	VCHECK(c, vh::throwsStd([&] { (void)primes(lo, hi); }), "C16.primes-reject", "primes(" << lo << "," << hi << ") accepted"); c.ev("empty range rejected");
}
#endif
VHV_MAIN
