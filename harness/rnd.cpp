// C18: ranges of random numbers, C19: structure of random sequences
#ifdef VH_SPIKY      // an adversarial engine: half of its outputs are border values
#include <cstdint>
#include <random>
struct Spiky {
	using result_type = std::uint64_t;
	static constexpr result_type min() { return 0; }
	static constexpr result_type max() { return 0xFFFFFFFFFFFFFFFFull; }
	std::mt19937_64 g;
	explicit Spiky(std::uint64_t s) : g(s) {}
	void seed(std::uint64_t s) { g.seed(s); }
	std::uint64_t operator()() {
		std::uint64_t x = g(), k = g();
		switch (x % 12) {
			case 0: return 0;
			case 1: return ~0ull;
			case 2: return ~0ull << (k % 64);
			case 3: return ~0ull >> (k % 64);
			case 4: return 1ull << (k % 64);
			case 5: return k & 7;
			default: return k;
		}
	}
};
namespace Settings { using RandomEngine = Spiky; }
#endif
#include "vhv.h"
#include "refmath.h"
using vh::Ctx; using std::vector; using std::string;
template<class F> static bool thr(F&& f) { return vh::throwsStd(f); }
static string nums(std::initializer_list<long double> l) { std::ostringstream os; os << std::setprecision(21); for (auto x : l) os << x << " "; return os.str(); }
static string inums(std::initializer_list<i64> l) { std::ostringstream os; for (auto x : l) os << x << " "; return os.str(); }
static void reseed(Ctx& c) { Random::seed(c.r.next()); }
static void borders(vh::Rng& r, i64& l, i64& u) {      // any non-empty range
	do {
		switch (r.below(4)) {
			case 0: l = r.wild(); u = r.wild(); break;
			case 1: l = r.wild(); { u64 w = 1 + (r.next() >> r.below(64)); u = u64(INT64_MAX) - u64(l) < w ? INT64_MAX : i64(u64(l) + w); } break;
			case 2: l = r.wild(); u = l == INT64_MAX ? l : l + 1; break;
			default: l = r.in(-20, 20); u = l + r.in(1, 20);
		}
		if (l > u) std::swap(l, u);
	} while (l >= u);
}
#define INR(what, x, l, u, args) do { auto vx = (x); VCHECK(c, (l) <= vx && vx < (u), "C18." what, what " returned " << std::setprecision(21) << vx << " for " << args); c.ev(what " draws"); } while (0)
static const i64 MX = INT64_MAX, MN = INT64_MIN;

GROUP(C18, integer, 20000, 3000000) {
	i64 l, u; borders(c.r, l, u); reseed(c); c.fp(u64(l)); c.fp(u64(u)); string a = inums({l, u}); c.note(a); if (c.wantSample()) c.sample(a);
	for (int i = 0; i < 8; i++) INR("integer", Random::integer(l, u), l, u, a);
	if (u > 0) INR("integer", Random::integer(u), 0, u, a);
	if (u64(u) - u64(l) <= 3) { std::set<i64> s; for (int i = 0; i < 400; i++) s.insert(Random::integer(l, u)); VCHECK(c, s.size() == u64(u) - u64(l), "C18.integer", "only " << s.size() << " values for " << a); c.ev("small ranges exhausted"); }
	VCHECK(c, thr([&] { Random::integer(u, l); }) && thr([&] { Random::integer(l, l); }) && (u > 0 || thr([&] { Random::integer(u); })), "C18.integer.invalid", "empty range accepted: " << a);
	bool b = Random::bit(); (void)b;
	i64 n = c.r.chance(1, 2) ? c.r.in(1, 9) : c.r.chance(1, 2) ? c.r.in(1, 2000) : 1 + i64(u64(c.r.wild()) >> 2);
	a += "n=" + std::to_string(n); c.note(a);
	for (int i = 0; i < 3; i++) {
		INR("maximum", Random::maximum(l, u, n), l, u, a); INR("minimum", Random::minimum(l, u, n), l, u, a);
		INR("minmax", Random::minmax(l, u, n), l, u, a); INR("minmax", Random::minmax(l, u, -n), l, u, a);
		if (u > 0) { INR("maximum", Random::maximum(u, n), 0, u, a); INR("minimum", Random::minimum(u, n), 0, u, a); INR("minmax", Random::minmax(u, c.r.chance(1, 2) ? n : -n), 0, u, a); }
	}
	VCHECK(c, thr([&] { Random::maximum(u, l, n); }) && thr([&] { Random::minimum(u, l, n); }) && thr([&] { Random::maximum(l, u, 0); }) && thr([&] { Random::minimum(l, u, 0); }) && thr([&] { Random::minmax(l, u, 0); }) && thr([&] { Random::maximum(l, u, -n); }) && thr([&] { Random::minimum(l, l, n); }), "C18.minmax.invalid", "invalid request accepted: " << a);
}
static long double wildReal(vh::Rng& r) {
	switch (r.below(8)) {
		case 0: return 0;
		case 1: return (long double)r.in(-10, 10);
		case 2: return (long double)r.wild();
		case 3: return (r.chance(1, 2) ? 1 : -1) * std::numeric_limits<long double>::max() / (long double)(1 + r.below(3));
		case 4: return (r.chance(1, 2) ? 1 : -1) * std::numeric_limits<long double>::denorm_min() * (long double)(1 + r.below(5));
		case 5: return (long double)(r.unit() - 0.5) * std::pow(10.0L, (long double)r.in(-4900, 4900));
		default: return (long double)(r.unit() - 0.5) * std::pow(10.0L, (long double)r.in(-20, 20));
	}
}
GROUP(C18, real, 12000, 2000000) {
	reseed(c);
	for (int i = 0; i < 20; i++) INR("real", Random::real(), 0.0L, 1.0L, "[0,1)");
	long double l = wildReal(c.r), u = wildReal(c.r); if (c.r.chance(1, 5)) u = std::nextafter(l, INFINITY); if (u < l) std::swap(l, u); if (l == u || !std::isfinite(u)) { l = 0; u = 1; }
	string a = nums({l, u}); c.note(a); c.fp(a); if (c.wantSample()) c.sample(a);
	for (int i = 0; i < 6; i++) INR("real", Random::real(l, u), l, u, a);
	if (u > 0) for (int i = 0; i < 3; i++) INR("real", Random::real(u), 0.0L, u, a);
	const long double inf = INFINITY, nan = std::nanl("");
	VCHECK(c, thr([&] { Random::real(u, l); }) && thr([&] { Random::real(l, l); }) && thr([&] { Random::real(l, inf); }) && thr([&] { Random::real(-inf, u); }) && thr([&] { Random::real(nan, u); }) && thr([&] { Random::real(l, nan); }) && thr([&] { Random::real(inf); }) && thr([&] { Random::real(nan); }) && thr([&] { Random::real(0.0L); }) && thr([&] { Random::real(-1.5L); }), "C18.real.invalid", "invalid request accepted: " << a);
}
GROUP(C18, normal_exponential, 8000, 1000000) {
	reseed(c); const long double inf = INFINITY, nan = std::nanl("");
	long double sd = c.r.chance(1, 8) ? 0 : std::pow(10.0L, (long double)c.r.in(-30, 30)) * (long double)(0.1 + c.r.unit()), m = c.r.chance(1, 3) ? 0 : (long double)(c.r.unit() - 0.5) * std::pow(10.0L, (long double)c.r.in(-20, 20));
	string a = "mean, sd " + nums({m, sd}); c.note(a); c.fp(a); if (c.wantSample()) c.sample(a);
	for (int i = 0; i < 5; i++) { auto x = Random::normal(m, sd); VCHECK(c, std::isfinite(x), "C18.normal", "normal returned " << x << " for " << a); c.ev("normal draws"); }
	// bounds within two (old) scale units of the mean, so that the rejection loop ends quickly whatever sd means
	long double s1 = std::max(sd, 1e-20L), w = s1 * (long double)(0.05 + 3 * c.r.unit());
	long double l = sd == 0 ? m - (long double)c.r.below(2) : m + s1 * (long double)(1.5 * c.r.unit() - 1), u = sd == 0 ? m + 1 + (long double)c.r.below(2) : l + w;
	if (l < u && std::fabs(l) < 1e30L && (sd == 0 || (m == 0 && sd > 0.01L && sd < 100) || (std::fabs(m) < 1e10L * sd && sd > 0.01L && sd < 100))) {
		a += "bounds " + nums({l, u}); c.note(a);
		for (int i = 0; i < 3; i++) INR("normal", Random::normal(l, u, m, sd), l, u, a);
		if (c.r.chance(1, 2)) { INR("normal", Random::normal(-inf, u, m, sd), -inf, u, a); INR("normal", Random::normal(l, inf, m, sd), l, inf, a); }
	}
	VCHECK(c, thr([&] { Random::normal(m, -1.0L); }) && thr([&] { Random::normal(m, nan); }) && thr([&] { Random::normal(m + 1, m, m, 1.0L); }) && thr([&] { Random::normal(m, m, m, 1.0L); }) && thr([&] { Random::normal(nan, 1.0L, m, 1.0L); }) && thr([&] { Random::normal(1.0L, nan, m, 1.0L); }) && thr([&] { Random::normal(0.0L, 1.0L, 0.0L, -0.5L); }), "C18.normal.invalid", "invalid request accepted: " << a);
	long double lam = std::pow(10.0L, (long double)c.r.in(-100, 100)) * (long double)(0.1 + c.r.unit());
	a = "lambda " + nums({lam}); c.note(a); c.fp(a);
	for (int i = 0; i < 5; i++) { auto x = Random::exponential(lam); VCHECK(c, x >= 0 && std::isfinite(x), "C18.exponential", "exponential returned " << x << " for " << a); c.ev("exponential draws"); }
	l = c.r.chance(1, 3) ? 0 : (long double)(c.r.unit() - 0.5) * std::pow(10.0L, (long double)c.r.in(-20, 20)); u = c.r.chance(1, 4) ? inf : l + (long double)(0.02 + c.r.unit() * 4) / lam;
	if (l < u && (u == inf || (u - l) * lam > 0.01L)) { a += nums({l, u}); c.note(a); for (int i = 0; i < 5; i++) INR("exponential", Random::exponential(l, u, lam), l, u, a); }
	VCHECK(c, thr([&] { Random::exponential(0.0L); }) && thr([&] { Random::exponential(-lam); }) && thr([&] { Random::exponential(nan); }) && thr([&] { Random::exponential(1.0L, 1.0L, lam); }) && thr([&] { Random::exponential(2.0L, 1.0L, lam); }) && thr([&] { Random::exponential(nan, 1.0L, lam); }) && thr([&] { Random::exponential(0.0L, nan, lam); }) && thr([&] { Random::exponential(0.0L, 1.0L, 0.0L); }) && thr([&] { Random::exponential(-inf, 1.0L, lam); }), "C18.exponential.invalid", "invalid request accepted: " << a);
}
static long double prob(vh::Rng& r) {
	switch (r.below(6)) {
		case 0: return r.pick({0.5L, 0.25L, 1e-3L, 1e-6L, 0.999L});
		case 1: return std::pow(10.0L, (long double)r.in(-18, 0)) * (long double)(0.05 + 0.9 * r.unit());
		case 2: return std::pow(10.0L, (long double)r.in(-4900, -18));
		case 3: return 1 - std::pow(10.0L, (long double)r.in(-18, -1));
		default: return (long double)r.unit() * 0.998L + 0.001L;
	}
}
GROUP(C18, geometric, 8000, 1000000) {
	reseed(c); long double p = prob(c.r), nan = std::nanl("");
	if (!(p > 0 && p < 1)) p = 0.5L;
	string a = "p " + nums({p}); c.note(a); c.fp(a); if (c.wantSample()) c.sample(a);
	if (p > 1e-15L) for (int i = 0; i < 6; i++) { i64 x = Random::geometric(p); VCHECK(c, x >= 0, "C18.geometric", "geometric returned " << x << " for " << a); c.ev("geometric draws"); }
	i64 l, u; borders(c.r, l, u);
	if (c.r.chance(1, 8)) { p = std::pow(10.0L, -(long double)(15 + 6 * c.r.unit())); a = "p " + nums({p}); l = c.r.chance(1, 2) ? INT64_MIN + i64(c.r.below(5)) : i64(c.r.below(5)); u = INT64_MAX - i64(c.r.below(5)); }
	long double w = (long double)(u64(u) - u64(l));
	if (w * p > 0.005L) { a += inums({l, u}); c.note(a); for (int i = 0; i < 4; i++) INR("geometric", Random::geometric(l, u, p), l, u, a); if (u > 0 && l > 0) (void)0; }
	// p too small for a 64 bit result: in range, or rejected
	else if (w * p > 1e-30L || p < 1e-4000L) (void)0;
	VCHECK(c, thr([&] { Random::geometric(1.0L); }) && thr([&] { Random::geometric(-0.5L); }) && thr([&] { Random::geometric(nan); }) && thr([&] { Random::geometric(1.5L); }) && thr([&] { Random::geometric(u, l, p); }) && thr([&] { Random::geometric(l, l, p); }) && thr([&] { Random::geometric(l, u, 1.0L); }) && thr([&] { Random::geometric(l, u, nan); }) && thr([&] { Random::geometric(l, u, -0.1L); }), "C18.geometric.invalid", "invalid request accepted: " << a);
	// p = 0 has no distribution: an exception or a value inside the range
	try { i64 x = Random::geometric(-3, 10, 0.0L); VCHECK(c, -3 <= x && x < 10, "C18.geometric", "geometric(-3, 10, 0) returned " << x); } catch (const std::exception&) {}
	try { i64 x = Random::geometric(0.0L); VCHECK(c, x >= 0, "C18.geometric", "geometric(0) returned " << x); } catch (const std::exception&) {}
}
GROUP(C18, binomial, 6000, 600000) {
	reseed(c); long double p = c.r.chance(1, 12) ? (long double)c.r.below(2) : prob(c.r), nan = std::nanl("");
	i64 n = c.r.chance(1, 3) ? c.r.in(0, 40) : c.r.wild(); if (n < 0) n = n == MN ? MX : -n;
	string a = "n, p " + std::to_string(n) + " " + nums({p}); c.note(a); c.fp(a); if (c.wantSample()) c.sample(a);
	for (int i = 0; i < 5; i++) { i64 x = Random::binomial(n, p); VCHECK(c, 0 <= x && x <= n, "C18.binomial", "binomial returned " << x << " for " << a); VCHECK(c, p != 0 || x == 0, "C18.binomial", "p=0 gives " << x); VCHECK(c, p != 1 || x == n, "C18.binomial", "p=1 gives " << x << " of " << n); c.ev("binomial draws"); }
	if (n < 1000000000000) {   // a range around the mean
		i64 m = i64(std::floor(p * (long double)n)), s = 1 + i64(std::sqrt((double)(p * (1 - p) * (long double)n))); i64 l = m - c.r.in(0, s), u = m + 2 + c.r.in(0, s);
		a += inums({l, u}); c.note(a); for (int i = 0; i < 3; i++) INR("binomial", Random::binomial(l, u, n, p), l, u, a);
	}
	VCHECK(c, thr([&] { Random::binomial(-1, 0.5L); }) && thr([&] { Random::binomial(MN, 0.5L); }) && thr([&] { Random::binomial(n, -0.01L); }) && thr([&] { Random::binomial(n, 1.01L); }) && thr([&] { Random::binomial(n, nan); }) && thr([&] { Random::binomial(3, 3, n, p); }) && thr([&] { Random::binomial(4, 3, n, p); }), "C18.binomial.invalid", "invalid request accepted: " << a);
}
template<Integer... W> static void disc(Ctx& c) {
	vector<i64> w{W...}; string a = vh::show(w); c.note(a); c.fp(a);
	for (int i = 0; i < 50; i++) { i64 x = Random::discrete<W...>(); VCHECK(c, 0 <= x && x < i64(w.size()) && w[std::size_t(x)] > 0, "C18.discrete", "index " << x << " for weights " << a); c.ev("discrete draws"); }
}
GROUP(C18, discrete, 300, 30000) {
	reseed(c);
	disc<1>(c); disc<1, 1>(c); disc<0, 1>(c); disc<1, 0>(c); disc<0, 0, 5, 0, 0>(c); disc<3, 1, 4, 1, 5, 9, 2, 6>(c); disc<0, 7, 0, 0, 1, 0, 9, 0>(c); disc<4611686018427387904, 4611686018427387903>(c); disc<INT64_MAX>(c); disc<1, 1000000000000>(c); disc<1, 0, 1, 0, 1>(c);
	VCHECK(c, thr([] { Random::discrete<0>(); }) && thr([] { Random::discrete<0, 0, 0>(); }), "C18.discrete.invalid", "all-zero weights accepted");
}
GROUP(C18, prime, 1500, 150000) {
	reseed(c); i64 l, u;
	switch (c.r.below(5)) {
		case 0: l = c.r.in(-5, 60); u = l + c.r.in(1, 12); break;
		case 1: borders(c.r, l, u); break;
		case 2: { i64 x = c.r.wild(); if (x < 0) x = i64(u64(x) >> 1); x = std::min<i64>(x, MX - 4000); l = x; u = x + c.r.in(1, 3000); break; }
		case 3: { i64 x = i64(c.r.next() >> c.r.in(1, 50)); x = std::max<i64>(x, 3); x = std::min<i64>(x, MX - 2000); while (!primeRef(x)) x++; int k = int(c.r.below(3)); l = x - (k == 1 ? 2 : 0); u = x + (k == 1 ? 1 : k == 2 ? 2 : 1); break; }      // exactly around one prime
		default: l = c.r.in(0, 100000); u = l + c.r.in(1, 400);
	}
	string a = inums({l, u}); c.note(a); c.fp(a); if (c.wantSample()) c.sample(a);
	bool ex = false; i64 x = 0;
	try { x = c.r.chance(1, 3) && l <= 2 && l >= -1000 ? Random::prime(u) : Random::prime(l, u); if (l < 0) (void)0; } catch (const std::exception&) { ex = true; }
	if (!ex) { VCHECK(c, std::min<i64>(l, 2) <= x && (l > 2 ? x >= l : true) && x < u && primeRef(x), "C18.prime", "prime returned " << x << " for " << a); c.ev("primes drawn"); }
	else {
		c.ev("prime requests rejected");
#ifndef VH_SPIKY
		u64 cnt = 0, odd = 0; i64 from = std::max<i64>(2, l);
		bool tooWide = from < u && u64(u) - u64(from) > 20000;
		if (!tooWide) for (i64 y = from; y < u; y++) { cnt += primeRef(y); odd += y == 2 || y % 2; }
		// one-element and tiny ranges: the documented search draws 4(upper-lower) times at least
		double width = double(u64(u) - u64(std::max<i64>(0, l))), trials = std::min(6400.0, 4 * width);
		double q = tooWide ? 1 / 45.0 * 2 : odd ? double(cnt) / (double(odd) + 1) : 0, miss = std::pow(1 - std::min(q, 1.0), trials);
		VCHECK(c, !(cnt || tooWide) || miss > 1e-13, "C18.prime", "prime rejects " << a << " although it contains " << cnt << " primes (miss probability " << miss << ")");
#endif
	}
	VCHECK(c, thr([&] { Random::prime(u, l); }) && thr([&] { Random::prime(l, l); }) && thr([&] { Random::prime(2); }) && thr([&] { Random::prime(-7); }) && thr([&] { Random::prime(24, 29); }) && thr([&] { Random::prime(1327 + 1, 1361); }) && thr([&] { Random::prime(-10, 2); }), "C18.prime.invalid", "range without primes accepted: " << a);
}

// ---------------------------------------------------------------------------------------------
static i64 baseOff(vh::Rng& r, i64 room) { switch (r.below(4)) { case 0: return 0; case 1: return r.in(-50, 50); case 2: return MX - room - r.in(0, 3); default: return MN + r.in(0, 3); } }
GROUP(C19, distinct, 8000, 800000) {
	reseed(c); int n = c.r.size(c.thorough() ? 400 : 120, 9000); i64 w = n + (c.r.chance(1, 3) ? 0 : c.r.chance(1, 2) ? c.r.in(0, 10) : c.r.in(0, 1000000000)); if (w == 0) w = 1;
	i64 l = baseOff(c.r, w), u = l + w; bool wide = c.r.chance(1, 10); if (wide) { l = MN; u = MX; }
	string a = inums({n, l, u}); c.note(a); c.fp(a); if (c.wantSample()) c.sample(a);
	auto chk = [&](const char* nm, const vector<Integer>& v, i64 lo, i64 up, int dir) {   // dir 0: distinct, +-1 strictly, +-2 weakly monotone
		VCHECK(c, v.size() == std::size_t(n), "C19.distinct", nm << " has " << v.size() << " elements for " << a);
		for (i64 x : v) VCHECK(c, lo <= x && x < up, "C19.distinct", nm << " contains " << x << " for " << a);
		if (dir >= -1 && dir <= 1) { std::set<i64> s(v.begin(), v.end()); VCHECK(c, s.size() == v.size(), "C19.distinct", nm << " repeats a value for " << a << ": " << vh::show(v)); }
		for (std::size_t i = 1; i < v.size(); i++) VCHECK(c, dir == 0 || dir == 9 || (dir > 0 ? v[i - 1] <= v[i] : v[i - 1] >= v[i]), "C19.distinct", nm << " is not monotone for " << a << ": " << vh::show(v));
		c.ev("sequences checked");
	};
	chk("distinct", Random::distinct(n, l, u), l, u, 0); chk("increasing", Random::increasing(n, l, u), l, u, 1); chk("decreasing", Random::decreasing(n, l, u), l, u, -1);
	chk("nonDecreasing", Random::nonDecreasing(n, l, u), l, u, 2); chk("nonIncreasing", Random::nonIncreasing(n, l, u), l, u, -2); chk("multiple", Random::multiple(n, l, u), l, u, 9);
	if (u >= n && u > 0) { chk("distinct", Random::distinct(n, u), 0, u, 0); chk("increasing", Random::increasing(n, u), 0, u, 1); chk("decreasing", Random::decreasing(n, u), 0, u, -1); }
	if (u > 0) { chk("nonDecreasing", Random::nonDecreasing(n, u), 0, u, 2); chk("nonIncreasing", Random::nonIncreasing(n, u), 0, u, -2); chk("multiple", Random::multiple(n, u), 0, u, 9); }
	if (!wide) for (i64 k : {w + 1, w + 2, MX, w + 1000}) VCHECK(c, thr([&] { Random::distinct(k, l, u); }) && thr([&] { Random::increasing(k, l, u); }) && thr([&] { Random::decreasing(k, l, u); }), "C19.distinct.invalid", k << " distinct values out of " << w << " accepted");
	VCHECK(c, thr([&] { Random::distinct(-1, l, u); }) && thr([&] { Random::distinct(MN, l, u); }) && thr([&] { Random::distinct(3, u, l); }) && thr([&] { Random::increasing(1, l, l); }) && thr([&] { Random::multiple(n + 1, u, l); }) && thr([&] { Random::nonDecreasing(n + 1, l, l); }) && thr([&] { Random::nonIncreasing(1, u, l); }) && thr([&] { Random::multiple(1, 0); }), "C19.distinct.invalid", "invalid request accepted: " << a);
}
static vector<int> cycleType(const vector<Integer>& p, i64 off) { vector<char> s(p.size()); vector<int> t; for (std::size_t i = 0; i < p.size(); i++) { int k = 0; for (std::size_t j = i; !s[j]; j = std::size_t(u64(p[j]) - u64(off))) { s[j] = 1; k++; } if (k) t.push_back(k); } std::sort(t.begin(), t.end()); return t; }
static bool permOf(const vector<Integer>& p, i64 n, i64 off) { if (i64(p.size()) != n) return false; vector<char> s(static_cast<std::size_t>(n)); for (i64 x : p) { u64 k = u64(x) - u64(off); if (k >= u64(n) || s[k]) return false; s[k] = 1; } return true; }
GROUP(C19, perm, 10000, 1000000) {
	reseed(c); int n = c.r.size(60, 3000); i64 off = baseOff(c.r, n);
	string a = inums({n, off}); c.note(a); c.fp(a); if (c.wantSample()) c.sample(a);
	auto p = Random::perm(n, off); VCHECK(c, permOf(p, n, off), "C19.perm", "perm gives " << vh::show(p) << " for " << a);
	p = Random::perm(n); VCHECK(c, permOf(p, n, 0), "C19.perm", "perm gives " << vh::show(p) << " for " << a); c.ev("permutations checked", 2);
	vector<Integer> cyc; int sum = 0; int mode = int(c.r.below(4));
	while (sum < n) { int k = mode == 0 ? 1 : mode == 1 ? n - sum : 1 + int(c.r.below(u64(mode == 2 ? n - sum : std::min(n - sum, 4)))); cyc.push_back(k); sum += k; }
	off = baseOff(c.r, n); a = vh::show(cyc) + " offset " + std::to_string(off); c.note(a); c.fp(a);
	for (int rep = 0; rep < 2; rep++) {
		i64 o = rep ? off : 0; p = rep ? Random::perm(cyc, off) : Random::perm(cyc); VCHECK(c, permOf(p, n, o), "C19.perm", "perm(cycles) gives " << vh::show(p) << " for " << a);
		auto t = cycleType(p, o); vector<int> w(cyc.begin(), cyc.end()); std::sort(w.begin(), w.end()); VCHECK(c, t == w, "C19.cycles", "cycle type " << vh::show(t) << " for " << a << ": " << vh::show(p)); c.ev("cycle types checked");
	}
	{   vector<Integer> bad = cyc; i64 k = c.r.pick<i64>({0, -1, -2, -i64(n), -3}); if (k == 0 || bad.empty() || c.r.chance(1, 2)) bad.insert(bad.begin() + long(c.r.below(bad.size() + 1)), k); else bad[c.r.below(bad.size())] = k;
		c.note("cycles " + vh::show(bad)); VCHECK(c, thr([&] { Random::perm(bad); }), "C19.cycles.invalid", "cycle lengths " << vh::show(bad) << " accepted"); }
	vector<Integer> fix; off = c.r.chance(1, 2) ? 0 : baseOff(c.r, n); int k = int(c.r.below(u64(n) + 1)); if (n && c.r.chance(1, 6)) k = n - int(c.r.below(2));
	{ vector<i64> all; for (int i = 0; i < n; i++) all.push_back(off + i); for (int i = 0; i < k; i++) { std::size_t j = c.r.below(all.size()); fix.push_back(all[j]); all.erase(all.begin() + long(j)); } }
	if (k && c.r.chance(1, 5)) { fix.push_back(fix[c.r.below(fix.size())]); c.ev("repeated fixed points"); if (c.r.chance(1, 2)) fix.push_back(fix.back()); }
	a = "n=" + std::to_string(n) + " fix=" + vh::show(fix) + " offset " + std::to_string(off); c.note(a); c.fp(a);
	p = off == 0 && c.r.chance(1, 2) ? Random::perm(n, fix) : Random::perm(n, fix, off);
	VCHECK(c, permOf(p, n, off), "C19.perm", "perm(fix) gives " << vh::show(p) << " for " << a);
	for (i64 x : fix) VCHECK(c, p[std::size_t(x - off)] == x, "C19.fix", x << " is not a fixed point for " << a << ": " << vh::show(p));
	c.ev("fixed points checked", fix.size());
	for (i64 x : {off == MN ? off + n : off - 1, off + n}) { auto f = fix; f.insert(f.begin() + long(c.r.below(f.size() + 1)), x); VCHECK(c, thr([&] { Random::perm(n, f, off); }), "C19.fix.invalid", "fixed point " << x << " accepted for " << a); }
	VCHECK(c, thr([&] { Random::perm(-1); }) && thr([&] { Random::perm(-3, off); }) && thr([&] { Random::perm(-1, vector<Integer>{}); }) && thr([&] { Random::perm(MN); }), "C19.perm.invalid", "negative count accepted");
}
GROUP(C19, partition, 12000, 1200000) {
	reseed(c); i64 k = 1 + c.r.size(60, 5000), mn = c.r.chance(1, 3) ? 1 : c.r.chance(1, 6) ? c.r.in(-1000000000, 1000000000) : c.r.in(-5, 9);
	i64 lo = std::max<i64>(1, mn > 0 ? mn * k : 1), n = c.r.chance(1, 4) ? lo : c.r.chance(1, 2) ? lo + c.r.in(0, 10) : c.r.chance(1, 2) ? lo + c.r.in(0, 1000000000000000) : c.r.chance(1, 10) && mn > 0 ? MX : lo + c.r.in(0, 3);
	string a = inums({n, k, mn}); c.note(a); c.fp(a); if (c.wantSample()) c.sample(a);
	auto v = mn == 1 && c.r.chance(1, 2) ? Random::partition(n, k) : Random::partition(n, k, mn);
	VCHECK(c, i64(v.size()) == k, "C19.partition", v.size() << " parts for " << a);
	i64 sum = 0; for (i64 x : v) { VCHECK(c, x >= mn, "C19.partition", "part " << x << " for " << a << ": " << vh::show(v)); sum += x; }
	VCHECK(c, sum == n, "C19.partition", "sum " << sum << " for " << a << ": " << vh::show(v)); c.ev("partitions checked");
	VCHECK(c, thr([&] { Random::partition(0, k, mn); }) && thr([&] { Random::partition(-n, k); }) && thr([&] { Random::partition(n, 0, mn); }) && thr([&] { Random::partition(n, -k); }) && (mn <= 0 || n / mn == MX || thr([&] { Random::partition(n, n / mn + 1, mn); })) && thr([&] { Random::partition(5, 3, 2); }) && thr([&] { Random::partition(3, 1, 4); }), "C19.partition.invalid", "invalid request accepted: " << a);
}
// number of the draw that would exceed: brackets as counted depth
GROUP(C19, strings, 12000, 1200000) {
	reseed(c); int n = c.r.size(300, 70000); string al; int m = 1 + c.r.size(40, 300); for (int i = 0; i < m; i++) al += char(c.r.below(256)); string a = std::to_string(n) + " \"" + vh::esc(al) + "\""; c.note(a); c.fp(a); if (c.wantSample()) c.sample(a);
	string s = Random::string(n, al); VCHECK(c, s.size() == std::size_t(n) && s.find_first_not_of(al) == string::npos, "C19.string", "string gives \"" << vh::esc(s) << "\" for " << a);
	s = Random::string(n); VCHECK(c, s.size() == std::size_t(n) && s.find_first_not_of("abcdefghijklmnopqrstuvwxyz") == string::npos, "C19.string", "string gives \"" << vh::esc(s) << "\" for " << n); c.ev("strings checked", 2);
	char o = '(', z = ')'; bool cu = c.r.chance(1, 3); if (cu) { o = char(c.r.below(256)); do z = char(c.r.below(256)); while (z == o); }
	s = cu ? Random::bracketSequence(n, o, z) : Random::bracketSequence(n); long d = 0; bool ok = s.size() == 2 * std::size_t(n);
	for (char x : s) { d += x == o ? 1 : x == z ? -1 : -1000000; ok &= d >= 0; }
	VCHECK(c, ok && d == 0, "C19.bracketSequence", "bracketSequence(" << n << ") gives " << vh::esc(s)); c.ev("bracket sequences checked");
	VCHECK(c, thr([&] { Random::string(-1, al); }) && thr([&] { Random::string(n, ""); }) && thr([&] { Random::string(0x100000000ll, al); }) && thr([&] { Random::bracketSequence(-1); }) && thr([&] { Random::bracketSequence(0x80000000ll); }) && thr([&] { Random::string(MN); }), "C19.string.invalid", "invalid request accepted: " << a);
}
// a few cases with objects of millions of elements, so that products and indices inside the generators exceed 32 bits
GROUP(C19, large, 24, 240) {
	reseed(c); int kind = int(c.idx % 8); c.note("large " + std::to_string(kind)); c.fp(std::to_string(kind) + "/" + std::to_string(c.idx));
	if (kind == 0 || kind == 4) {
		i64 n = kind == 0 ? c.r.in(2000000, 4000000) : c.r.in(60000, 1000000); string a = std::to_string(n);
		string s = Random::bracketSequence(n); i64 d = 0, low = 0; u64 bad = 0; for (char x : s) { d += x == '(' ? 1 : -1; bad += x != '(' && x != ')'; low = std::min(low, d); }
		VCHECK(c, i64(s.size()) == 2 * n && !bad && d == 0 && low == 0, "C19.bracketSequence", "bracketSequence(" << a << "): length " << s.size() << ", final depth " << d << ", lowest depth " << low); c.ev("large bracket sequences");
	} else if (kind == 1) {
		i64 n = c.r.in(1000000, 9000000); string al; for (int i = 0; i < 200; i++) al += char(c.r.below(256)); string s = Random::string(n, al); bool in[256] = {}; for (char x : al) in[static_cast<unsigned char>(x)] = true;
		bool ok = i64(s.size()) == n; for (char x : s) ok = ok && in[static_cast<unsigned char>(x)]; VCHECK(c, ok, "C19.string", "string(" << n << ") of length " << s.size() << " or with foreign characters"); c.ev("large strings");
	} else if (kind == 2) {
		i64 n = c.r.in(100000, 700000), w = n + (c.r.chance(1, 2) ? 0 : c.r.in(0, 5000000000ll)), l = baseOff(c.r, w), u = l + w; string a = inums({n, l, u}); c.note(a);
		for (int dir : {0, 1, -1}) { auto v = dir == 0 ? Random::distinct(n, l, u) : dir > 0 ? Random::increasing(n, l, u) : Random::decreasing(n, l, u); bool ok = i64(v.size()) == n; for (i64 x : v) ok = ok && l <= x && x < u;
			for (std::size_t i = 1; dir && i < v.size(); i++) ok = ok && (dir > 0 ? v[i - 1] < v[i] : v[i - 1] > v[i]); if (!dir) { std::sort(v.begin(), v.end()); ok = ok && std::unique(v.begin(), v.end()) == v.end(); }
			VCHECK(c, ok, "C19.distinct", "a sequence (direction " << dir << ") for " << a << " is wrong"); c.ev("large sequences"); }
	} else if (kind == 3 || kind == 5) {
		i64 n = c.r.in(100000, 3000000), off = baseOff(c.r, n); string a = inums({n, off}); c.note(a);
		if (kind == 3) VCHECK(c, permOf(Random::perm(n, off), n, off), "C19.perm", "perm is no permutation for " << a);
		vector<Integer> cyc; for (i64 sum = 0; sum < n;) { i64 k = std::min(n - sum, c.r.chance(1, 1000) ? c.r.in(1, n) : c.r.in(1, 40000)); cyc.push_back(k); sum += k; }
		auto p = Random::perm(cyc, off); VCHECK(c, permOf(p, n, off), "C19.perm", "perm(cycles) is no permutation for " << a); auto t = cycleType(p, off); vector<int> w(cyc.begin(), cyc.end()); std::sort(w.begin(), w.end()); VCHECK(c, t == w, "C19.cycles", "wrong cycle type for " << a);
		vector<Integer> fix; i64 some = off + c.r.in(0, n - 1); for (i64 i = 0; i < n; i++) if (c.r.chance(1, 3) || off + i == some) fix.push_back(off + i);
		p = Random::perm(n, fix, off); bool ok = permOf(p, n, off); for (i64 x : fix) ok = ok && p[std::size_t(x - off)] == x; VCHECK(c, ok, "C19.fix", "perm(fix) is wrong for " << a); c.ev("large permutations", 3);
	} else if (kind == 6) {
		i64 k = c.r.in(100000, 1000000), mn = c.r.pick<i64>({1, 1, 0, 5, 70000, -3}), n = std::max<i64>(1, mn > 0 ? mn * k : 1) + c.r.in(0, c.r.chance(1, 2) ? 10000000 : 1000000000000ll); string a = inums({n, k, mn}); c.note(a);
		auto v = Random::partition(n, k, mn); i64 sum = 0; bool ok = i64(v.size()) == k; for (i64 x : v) { ok = ok && x >= mn; sum += x; } VCHECK(c, ok && sum == n, "C19.partition", "partition of " << v.size() << " parts and sum " << sum << " for " << a); c.ev("large partitions");
	} else {
		i64 n = c.r.in(500000, 3000000); vector<int> v; for (i64 i = 0; i < n; i++) v.push_back(int(i % 1000003)); auto w = v; Random::shuffle(w); auto x = w; std::sort(x.begin(), x.end()); std::sort(v.begin(), v.end()); VCHECK(c, x == v, "C19.shuffle", "shuffle of " << n << " elements changes the multiset"); c.ev("large shuffles");
	}
}
template<class V> static bool sameMulti(V a, V b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b; }
GROUP(C19, shuffle, 15000, 1500000) {
	reseed(c); int n = c.r.size(50, 5000); vector<int> v; for (int i = 0; i < n; i++) v.push_back(int(c.r.below(c.r.chance(1, 2) ? 5 : 1000))); string a = vh::show(v); c.note(a); c.fp(a); if (c.wantSample()) c.sample(a);
	auto w = v; Random::shuffle(w); VCHECK(c, sameMulti(v, w), "C19.shuffle", "shuffle turns " << a << " into " << vh::show(w));
	w = v; std::size_t x = c.r.below(u64(n) + 1), y = x + c.r.below(u64(n) - x + 1); Random::shuffle(w.begin() + long(x), w.begin() + long(y));
	VCHECK(c, std::equal(v.begin(), v.begin() + long(x), w.begin()) && std::equal(v.begin() + long(y), v.end(), w.begin() + long(y)) && sameMulti(v, w), "C19.shuffle", "shuffle of [" << x << "," << y << ") turns " << a << " into " << vh::show(w));
	std::deque<string> d; for (int q : v) d.push_back(std::to_string(q)); auto e = d; Random::shuffle(e); VCHECK(c, sameMulti(d, e), "C19.shuffle", "shuffle of deque<string> " << a);
	vector<std::unique_ptr<int>> up; for (int q : v) up.push_back(std::make_unique<int>(q)); Random::shuffle(up); vector<int> back; for (auto& q : up) { VCHECK(c, bool(q), "C19.shuffle", "shuffle lost an element"); back.push_back(*q); } VCHECK(c, sameMulti(v, back), "C19.shuffle", "shuffle of unique_ptr " << a);
	int arr[5] = {1, 2, 3, 4, 5}; Random::shuffle(arr); vector<int> av(arr, arr + 5); VCHECK(c, sameMulti(av, vector<int>{1, 2, 3, 4, 5}), "C19.shuffle", "shuffle of array gives " << vh::show(av));
	string st = "hello"; Random::shuffle(st); VCHECK(c, sameMulti(st, string("hello")), "C19.shuffle", "shuffle of string gives " << st);
	std::pair<int, int> p{1, 2}; Random::shuffle(p); VCHECK(c, (p == std::pair<int, int>{1, 2} || p == std::pair<int, int>{2, 1}), "C19.shuffle", "shuffle of pair");
	std::complex<double> z{1, 2}; Random::shuffle(z); VCHECK(c, (z == std::complex<double>(1, 2) || z == std::complex<double>(2, 1)), "C19.shuffle", "shuffle of complex gives " << z);
	c.ev("shuffles checked", 8);
	if (n) {
		w = v; i64 k = Random::rotate(w); auto t = v; VCHECK(c, 0 <= k && k < n, "C19.rotate", "rotation " << k << " of " << n); std::rotate(t.begin(), t.begin() + long(k), t.end()); VCHECK(c, t == w, "C19.rotate", "rotate reports " << k << " but turns " << a << " into " << vh::show(w));
		w = v; if (x < y) { k = Random::rotate(w.begin() + long(x), w.begin() + long(y)); t = v; VCHECK(c, 0 <= k && k < i64(y - x), "C19.rotate", "rotation " << k); std::rotate(t.begin() + long(x), t.begin() + long(x) + long(k), t.begin() + long(y)); VCHECK(c, t == w, "C19.rotate", "rotate of range reports " << k << " but turns " << a << " into " << vh::show(w)); }
		c.ev("rotations checked", 2);
		w = v; int& sel = Random::select(w); VCHECK(c, &sel >= w.data() && &sel < w.data() + n, "C19.select", "select returns something else than an element");
		const auto& cw = w; int cs = Random::select(cw); VCHECK(c, std::count(v.begin(), v.end(), cs), "C19.select", "select gives " << cs << " out of " << a);
		auto& it = Random::select(w.begin(), w.end()); VCHECK(c, &it >= w.data() && &it < w.data() + n, "C19.select", "select of range");
		int one = Random::select(w.begin() + long(n) - 1, w.end()); VCHECK(c, one == v.back(), "C19.select", "select from one element gives " << one);
		const int ca[3] = {7, 8, 9}; int q = Random::select(ca); VCHECK(c, q >= 7 && q <= 9, "C19.select", "select of array"); int ma[2] = {4, 5}; q = Random::select(ma); VCHECK(c, q == 4 || q == 5, "C19.select", "select of array");
		q = Random::select(std::pair<int, int>{1, 2}); VCHECK(c, q == 1 || q == 2, "C19.select", "select of pair"); double dd = Random::select(std::complex<double>(3, 4)); VCHECK(c, dd == 3 || dd == 4, "C19.select", "select of complex");
		q = Random::select({5, 6, 7}); VCHECK(c, q >= 5 && q <= 7, "C19.select", "select of braces"); char ch = Random::select(std::string_view("xy")); VCHECK(c, ch == 'x' || ch == 'y', "C19.select", "select of string_view");
		c.ev("selections checked", 10);
	} else { VCHECK(c, thr([&] { Random::select(w = {}); }) && thr([&] { const vector<int> k; Random::select(k); }) && thr([&] { Random::select(w.begin(), w.begin()); }), "C19.select.invalid", "select from nothing accepted"); }
}
VHV_MAIN
