// C20: empirical distributions vs the documented ones. Every case draws a large sample and applies a chi-square test
// whose false alarm probability is below 1e-10 (all seeds are fixed by VERIF_SEED, so verdicts repeat).
#if defined(VH_AES)
#include "secure_rng.h"
namespace Settings { using RandomEngine = AES_RNG; }
#elif defined(VH_XO)
#include "rng.h"
namespace Settings { using RandomEngine = Xoshiro256ss; }
#endif
#include "vhv.h"
#include "graph_gen.h"
#include "refmath.h"
using vh::Ctx; using std::vector; using std::string;

static double gammaQ(double a, double x) {      // upper regularised incomplete gamma function
	if (x <= 0) return 1;
	if (x < a + 1) { double s = 1 / a, t = s; for (int n = 1; n < 100000; n++) { t *= x / (a + n); s += t; if (t < s * 1e-16) break; } return std::max(0.0, 1 - s * std::exp(-x + a * std::log(x) - std::lgamma(a))); }
	double b = x + 1 - a, c = 1e300, d = 1 / b, h = d;
	for (int i = 1; i < 100000; i++) { double an = -i * (i - a); b += 2; d = an * d + b; if (std::fabs(d) < 1e-300) d = 1e-300; c = b + an / c; if (std::fabs(c) < 1e-300) c = 1e-300; d = 1 / d; double e = d * c; h *= e; if (std::fabs(e - 1) < 1e-15) break; }
	return std::exp(-x + a * std::log(x) - std::lgamma(a)) * h;
}
static const double ALPHA = 1e-10;
static double chiP(vector<double> obs, vector<double> prob) {    // prob sums to 1; cells with small expectation are merged
	double N = 0; for (double o : obs) N += o;
	double stat = 0, eo = 0, ee = 0; int cells = 0; vector<std::pair<double, double>> m;
	for (std::size_t i = 0; i < obs.size(); i++) { if (prob[i] <= 0) { if (obs[i] > 0) return 0; continue; } eo += obs[i]; ee += prob[i] * N; if (ee >= 12) { m.push_back({eo, ee}); eo = ee = 0; } }
	if (ee > 0) { if (m.empty()) return 1; m.back().first += eo; m.back().second += ee; }
	for (auto [o, e] : m) { stat += (o - e) * (o - e) / e; cells++; }
	return cells < 2 ? 1 : gammaQ((cells - 1) / 2.0, stat / 2);
}
static void judge(Ctx& c, const string& what, const string& args, const vector<double>& obs, const vector<double>& prob) {
	c.fp(what); c.fp(args); double N = 0; for (double o : obs) N += o;
	double p = chiP(obs, prob); c.ev("samples judged", u64(N)); c.ev("cells judged", obs.size());
	if (c.wantSample()) { std::ostringstream os; os << what << " " << args << ": " << u64(N) << " draws over " << obs.size() << " cells, p-value " << p; c.sample(os.str()); }
	VCHECK(c, p > ALPHA, "C20." + what, what << "(" << args << ") does not follow its distribution: p-value " << p << " on " << N << " draws; observed " << vh::show(obs, 24) << " expected probabilities " << vh::show(prob, 24));
}
template<class K> static void uniform(Ctx& c, const string& what, const string& args, const std::map<K, u64>& cnt, double outcomes) {
	VCHECK(c, double(cnt.size()) <= outcomes + 0.5, "C20." + what, what << "(" << args << ") has " << cnt.size() << " outcomes instead of " << outcomes);
	vector<double> o; for (auto& [k, v] : cnt) o.push_back(double(v)); o.resize(std::size_t(outcomes + 0.5), 0); judge(c, what, args, o, vector<double>(o.size(), 1.0 / double(o.size())));
}
template<class F> static auto tally(int n, F f) { std::map<decltype(f()), u64> m; for (int i = 0; i < n; i++) m[f()]++; return m; }
static int N(Ctx& c, int q) { return c.thorough() ? q * 12 : q; }
static string A(std::initializer_list<long double> l) { std::ostringstream os; os << std::setprecision(20); for (auto x : l) os << x << " "; return os.str(); }
static double ncr(double n, double k) { double r = 1; for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1); return std::round(r); }
static void begin(Ctx& c, const string& what) { Random::seed(c.r.next()); c.note(what); }
// real valued sample through its distribution function
template<class F, class G> static void cdf(Ctx& c, const string& what, const string& a, int n, F f, G G_, int cells = 50) {
	vector<double> o(static_cast<std::size_t>(cells)); for (int i = 0; i < n; i++) { double u = double(G_(f())); int k = int(u * cells); o[std::size_t(std::min(std::max(k, 0), cells - 1))]++; }
	judge(c, what, a, o, vector<double>(o.size(), 1.0 / cells));
}
// integer valued sample with probabilities pr(k), k in [lo, hi]; the rest is one more cell
template<class F, class P> static void pmf(Ctx& c, const string& what, const string& a, int n, F f, P pr, i64 lo, i64 hi) {
	vector<double> o(std::size_t(hi - lo + 2)), q; double rest = 1; for (i64 k = lo; k <= hi; k++) { q.push_back(pr(k)); rest -= q.back(); } q.push_back(std::max(rest, 0.0));
	for (int i = 0; i < n; i++) { i64 x = f(); o[x < lo || x > hi ? o.size() - 1 : std::size_t(x - lo)]++; }
	if (q.back() < 1e-9) { VCHECK(c, o.back() <= 2, "C20." + what, what << "(" << a << "): " << o.back() << " draws in a range of probability " << q.back()); o.pop_back(); q.pop_back(); }
	judge(c, what, a, o, q);
}
static double Phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }

GROUP(C20, bits_integers, 60, 1500) {
	vh::Rng& r = c.r; begin(c, "integer");
	switch (c.idx % 6) {
		case 0: { uniform(c, "bit", "8 in a row", tally(N(c, 60000), [] { int x = 0; for (int i = 0; i < 8; i++) x = 2 * x + Random::bit(); return x; }), 256); break; }
		case 1: { i64 k = r.in(2, 60), l = r.wild(); if (l > INT64_MAX - k) l -= k; uniform(c, "integer", A({(long double)l, (long double)l + k}), tally(N(c, 60000), [&] { return Random::integer(l, l + k); }), double(k)); break; }
		case 2: { i64 k = r.in(2, 14); uniform(c, "integer", A({(long double)k}) + "twice", tally(N(c, 60000), [&] { i64 x = Random::integer(k); return x * k + Random::integer(k); }), double(k * k)); break; }
		case 3: { u64 w = r.pick<u64>({0xC000000000000000ull, 0xAAAAAAAAAAAAAAABull, 0x8000000000000001ull, 0xA000000000000000ull, 0x6000000000000000ull, 0xE38E38E38E38E38Eull, u64(3) << 61, (u64(5) << 60) + 1});
			i64 l = w > (u64(1) << 63) ? INT64_MIN + i64(r.below(5)) : i64(r.next() >> 3); i64 u = i64(u64(l) + w); string a = A({(long double)l, (long double)u});
			u64 m = r.pick<u64>({2, 3, 5, 7, 16}); vector<double> o(std::size_t(m * 12)); for (int i = 0; i < N(c, 120000); i++) { u64 d = u64(Random::integer(l, u)) - u64(l); o[std::size_t(std::min<u64>(11, u64((long double)d / (long double)w * 12)) * m + d % m)]++; }
			judge(c, "integer", a + "in 12 parts, mod " + std::to_string(m), o, vector<double>(o.size(), 1.0 / double(o.size()))); break; }
		case 4: { int s = int(r.below(57)); uniform(c, "integer", "() bits from " + std::to_string(s), tally(N(c, 60000), [&] { return int((u64(Random::integer()) >> s) & 255); }), 256); break; }
		default: { u64 w = (u64(1) << r.in(8, 62)) + r.below(5); i64 l = r.in(-1000, 1000); cdf(c, "integer", A({(long double)l, (long double)w}), N(c, 60000), [&] { return Random::integer(l, i64(w) + l); }, [&](i64 x) { return ((long double)x - l + 0.5L) / (long double)w; }, 64); }
	}
}
GROUP(C20, reals, 40, 1000) {
	vh::Rng& r = c.r; begin(c, "real");
	switch (c.idx % 5) {
		case 0: cdf(c, "real", "", N(c, 100000), [] { return Random::real(); }, [](long double x) { return x; }, 128); break;
		case 1: uniform(c, "real", "digits 13..20", tally(N(c, 60000), [] { return int(u64(Random::real() * 1048576.0L) & 255); }), 256); break;
		case 2: pmf(c, "real", "leading zero bits", N(c, 100000), [] { return i64(std::floor(-std::log2(Random::real()))); }, [](i64 k) { return std::ldexp(1.0, -int(k) - 1); }, 0, 11); break;
		case 3: { long double l = (long double)r.in(-1000, 1000), u = l + 0.01L + (long double)r.unit() * 1000; cdf(c, "real", A({l, u}), N(c, 60000), [&] { return Random::real(l, u); }, [&](long double x) { return (x - l) / (u - l); }, 64); break; }
		default: { long double u = std::pow(10.0L, (long double)r.in(-20, 20)); cdf(c, "real", A({u}), N(c, 60000), [&] { return Random::real(u); }, [&](long double x) { return x / u; }, 64); }
	}
}
GROUP(C20, continuous, 48, 1200) {
	vh::Rng& r = c.r; begin(c, "normal/exponential");
	long double m = (long double)r.in(-50, 50), s = r.pick({0.01L, 0.5L, 1.0L, 2.0L, 3.0L, 10.0L, 100.0L}), lam = r.pick({0.001L, 0.3L, 1.0L, 2.0L, 50.0L});
	switch (c.idx % 6) {
		case 0: case 1: cdf(c, "normal", A({m, s}), N(c, 60000), [&] { return Random::normal(m, s); }, [&](long double x) { return Phi(double((x - m) / s)); }); break;
		case 2: { double a = r.unit() * 4 - 2, b = a + 0.3 + 2 * r.unit(), Pa = Phi(a), Pb = Phi(b); long double l = m + s * a, u = m + s * b; cdf(c, "normal", A({l, u, m, s}), N(c, 40000), [&] { return Random::normal(l, u, m, s); }, [&](long double x) { return (Phi(double((x - m) / s)) - Pa) / (Pb - Pa); }); break; }
		case 3: { auto big = tally(N(c, 40000), [&] { long double x = Random::normal(m, s), y = Random::normal(m, s); return (x > m) * 2 + (y > m); }); uniform(c, "normal", "two in a row", big, 4); break; }
		case 4: cdf(c, "exponential", A({lam}), N(c, 60000), [&] { return Random::exponential(lam); }, [&](long double x) { return -std::expm1(-x * lam); }); break;
		default: { long double l = (long double)r.in(-20, 20), u = l + (long double)(0.2 + 3 * r.unit()) / lam; long double Z = -std::expm1(-(u - l) * lam); cdf(c, "exponential", A({l, u, lam}), N(c, 60000), [&] { return Random::exponential(l, u, lam); }, [&](long double x) { return -std::expm1(-(x - l) * lam) / Z; }); }
	}
}
GROUP(C20, discrete, 70, 1500) {
	vh::Rng& r = c.r; begin(c, "discrete");
	long double p = r.pick({0.02L, 0.2L, 0.5L, 0.7L, 0.95L, 0.31L});
	auto bin = [&](i64 n, long double q) { return [n, q](i64 k) { return k < 0 || k > n ? 0.0 : double(std::exp(std::lgamma(n + 1.0L) - std::lgamma(k + 1.0L) - std::lgamma(n - k + 1.0L) + k * std::log(q) + (n - k) * std::log1p(-q))); }; };
	switch (c.idx % 10) {
		case 0: pmf(c, "geometric", A({p}), N(c, 60000), [&] { return Random::geometric(p); }, [&](i64 k) { return double(p * std::pow(1 - p, (long double)k)); }, 0, 120); break;
		case 1: { i64 l = r.in(-9, 9), w = r.in(1, 30); long double Z = 1 - std::pow(1 - p, (long double)w); pmf(c, "geometric", A({(long double)l, (long double)l + w, p}), N(c, 60000), [&] { return Random::geometric(l, l + w, p); }, [&](i64 k) { return double(p * std::pow(1 - p, (long double)(k - l)) / Z); }, l, l + w - 1); break; }
		case 2: { i64 n = r.in(1, 20); pmf(c, "binomial", A({(long double)n, p}), N(c, 60000), [&] { return Random::binomial(n, p); }, bin(n, p), 0, n); break; }
		case 3: case 4: { i64 n = r.pick<i64>({25, 40, 100, 300, 1000}); pmf(c, "binomial", A({(long double)n, p}), N(c, 60000), [&] { return Random::binomial(n, p); }, bin(n, p), 0, n); break; }
		case 5: { i64 n = r.pick<i64>({100000, 1000000000, 1000000000000}); long double q = r.pick({0.5L, 0.3L, 0.8L}), sd = std::sqrt(n * q * (1 - q)); cdf(c, "binomial", A({(long double)n, q}), N(c, 40000), [&] { return Random::binomial(n, q); }, [&](i64 k) { return Phi(double((k + (n > 10000000 ? 0.0L : 0.5L) - 0.5L * (n <= 10000000) - n * q) / sd)); }, 8); break; }
		case 6: { i64 n = r.in(10, 60), l = i64(n * p) - r.in(0, 4), u = i64(n * p) + 1 + r.in(1, 4); double Z = 0; auto f = bin(n, p); for (i64 k = l; k < u; k++) Z += f(k); pmf(c, "binomial", A({(long double)l, (long double)u, (long double)n, p}), N(c, 60000), [&] { return Random::binomial(l, u, n, p); }, [&](i64 k) { return f(k) / Z; }, l, u - 1); break; }
		case 7: case 8: {
			i64 w = r.in(1, 40), l = r.in(-30, 30), n = r.chance(1, 2) ? r.in(1, 4) : r.in(5, 30); bool mn = r.chance(1, 2); int form = int(r.below(3));
			auto Fx = [&](i64 k) { return std::pow(double(std::min(std::max<i64>(k, 0), w)) / double(w), double(n)); };   // P(max < l + k)
			auto f = [&] { i64 L = form == 2 ? 0 : l; return form == 0 ? (mn ? Random::minimum(l, l + w, n) : Random::maximum(l, l + w, n)) - L : form == 1 ? Random::minmax(l, l + w, mn ? -n : n) - L : (mn ? Random::minimum(w, n) : Random::maximum(w, n)); };
			pmf(c, mn ? "minimum" : "maximum", A({(long double)l, (long double)l + w, (long double)n, (long double)form}), N(c, 60000), f, [&](i64 k) { i64 j = mn ? w - 1 - k : k; return Fx(j + 1) - Fx(j); }, 0, w - 1); break; }
		default: {
			auto f = [&](auto g, vector<double> w) { double s = 0; for (double x : w) s += x; vector<double> o(w.size()); for (int i = 0; i < N(c, 40000); i++) { i64 k = g(); VCHECK(c, k >= 0 && k < i64(w.size()), "C20.discrete", "index " << k); o[std::size_t(k)]++; } for (double& x : w) x /= s; judge(c, "discrete", vh::show(w), o, w); };
			f([] { return Random::discrete<1, 2, 3, 4>(); }, {1, 2, 3, 4}); f([] { return Random::discrete<5, 0, 1, 0, 3>(); }, {5, 0, 1, 0, 3}); f([] { return Random::discrete<1, 1>(); }, {1, 1}); f([] { return Random::discrete<3000000000000000000, 1000000000000000000, 2000000000000000000>(); }, {3, 1, 2});
		}
	}
}
#if !defined(VH_AES) && !defined(VH_XO)
GROUP(C20, fine, 16, 160) {      // samples of millions, for distributions which are only slightly off
	vh::Rng& r = c.r; begin(c, "fine"); int n = 1500000;
	auto bin = [&](i64 k, long double q) { return [k, q](i64 x) { return x < 0 || x > k ? 0.0 : double(std::exp(std::lgamma(k + 1.0L) - std::lgamma(x + 1.0L) - std::lgamma(k - x + 1.0L) + x * std::log(q) + (k - x) * std::log1p(-q))); }; };
	long double p = r.pick({0.05L, 0.3L, 0.45L, 0.6L, 0.9L}), s = r.pick({0.5L, 1.0L, 20.0L}), lam = r.pick({0.01L, 1.0L, 7.0L});
	switch (c.idx % 8) {
		case 0: { i64 k = r.in(3, 12); pmf(c, "binomial", "many " + A({(long double)k, p}), n, [&] { return Random::binomial(k, p); }, bin(k, p), 0, k); break; }
		case 1: { i64 k = i64(10.5L / std::min(p, 1 - p)) + r.in(0, 60); pmf(c, "binomial", "many " + A({(long double)k, p}), n, [&] { return Random::binomial(k, p); }, bin(k, p), 0, k); break; }
		case 2: { i64 k = r.in(1000, 20000); pmf(c, "binomial", "many " + A({(long double)k, p}), n, [&] { return Random::binomial(k, p); }, bin(k, p), 0, k); break; }
		case 3: { vector<double> o(400); for (int i = 0; i < n; i++) { double x = double(Random::normal(5, s) - 5) / double(s); o[std::size_t(std::min(399.0, std::max(0.0, std::floor(x * 40 + 200))))]++; } vector<double> q; for (int i = 0; i < 400; i++) q.push_back((i == 399 ? 1 : Phi((i + 1 - 200) / 40.0)) - (i == 0 ? 0 : Phi((i - 200) / 40.0))); judge(c, "normal", "many " + A({s}), o, q); break; }
		case 4: { vector<double> o(400), q; for (int i = 0; i < n; i++) o[std::size_t(std::min(399.0, std::floor(double(Random::exponential(lam) * lam) * 30)))]++; for (int i = 0; i < 400; i++) q.push_back(std::exp(-i / 30.0) - (i == 399 ? 0 : std::exp(-(i + 1) / 30.0))); judge(c, "exponential", "many " + A({lam}), o, q); break; }
		case 5: pmf(c, "geometric", "many " + A({p}), n, [&] { return Random::geometric(p); }, [&](i64 k) { return double(p * std::pow(1 - p, (long double)k)); }, 0, 400); break;
		case 6: { i64 w = r.in(50, 2000), l = r.in(-1000, 1000); pmf(c, "integer", "many " + A({(long double)l, (long double)w}), n, [&] { return Random::integer(l, l + w); }, [&](i64) { return 1.0 / double(w); }, l, l + w - 1); break; }
		default: cdf(c, "real", "many", n, [] { return Random::real(); }, [](long double x) { return x; }, 2000); break;
	}
}
#endif
GROUP(C20, tiny, 30, 600) {      // very small probabilities: geometric is exponential, binomial is Poisson
	vh::Rng& r = c.r; begin(c, "tiny"); long double p = std::pow(10.0L, -(long double)(4 + 14 * r.unit()));
	switch (c.idx % 3) {
		case 0: if (p < 2e-18L) p = 2e-18L; cdf(c, "geometric", A({p}), N(c, 20000), [&] { return Random::geometric(p); }, [&](i64 x) { return -std::expm1((x + 0.5L) * std::log1p(-p)); }, 40); break;
		case 1: { long double q = p < 1e-8L ? p * 0.01L : p; i64 l = r.chance(1, 2) ? INT64_MIN + i64(r.below(9)) : r.in(-99, 99); long double w = std::min((0.3L + 3 * (long double)r.unit()) / q, l < -1000 ? 1.8e19L : 9e18L); u64 wi = u64(w); i64 u = i64(u64(l) + wi); long double Z = -std::expm1((long double)wi * std::log1p(-q));
			cdf(c, "geometric", A({(long double)l, (long double)u, q}), N(c, 20000), [&] { return Random::geometric(l, u, q); }, [&](i64 x) { return -std::expm1(((long double)(u64(x) - u64(l)) + 0.5L) * std::log1p(-q)) / Z; }, 40); break; }
		default: { long double m = 0.3L + 8 * (long double)r.unit(); i64 n = i64(m / p); bool sw = p > 1e-7L && r.chance(1, 2); m = n * p; pmf(c, "binomial", A({(long double)n, p, (long double)sw}), N(c, 20000), [&] { return sw ? n - Random::binomial(n, 1 - p) : Random::binomial(n, p); }, [&](i64 k) { return double(std::exp(-m + k * std::log(m) - std::lgamma(k + 1.0L))); }, 0, 40); }
	}
}
GROUP(C20, primes, 24, 600) {
	begin(c, "prime"); i64 l = c.idx % 6 == 0 ? 0 : c.r.in(-3, 200), w = c.r.in(8, 80), u = l + w; vector<i64> ps;
	switch (c.idx % 6) { case 1: l = 2; u = 5; break; case 2: l = 3; u = 14; break; case 3: l = 89; u = 98; break; case 4: l = 1000000006; u = 1000000100; break; default: break; }
	for (i64 x = std::max<i64>(l, 2); x < u; x++) if (primeRef(x)) ps.push_back(x);
	if (ps.size() < 2) { c.trivial(); return; }
	uniform(c, "prime", A({(long double)l, (long double)u}), tally(N(c, 12000), [&] { return Random::prime(l, u); }), double(ps.size()));
}
GROUP(C20, sequences, 130, 2600) {
	vh::Rng& r = c.r; begin(c, "sequence"); i64 l = r.in(-20, 20);
	auto S = [](i64 a, i64 b) { return A({(long double)a, (long double)b}); };
	switch (c.idx % 13) {
		case 0: { i64 n = r.in(2, 6), k = r.in(1, std::min<i64>(n, 4)); double o = 1; for (i64 i = 0; i < k; i++) o *= double(n - i); uniform(c, "distinct", S(k, n), tally(N(c, 40000), [&] { return Random::distinct(k, l, l + n); }), o); break; }
		case 1: { i64 n = r.in(2, 5); double o = 1; for (i64 i = 2; i <= n; i++) o *= double(i); uniform(c, "perm", S(n, l), tally(N(c, 40000), [&] { return Random::perm(n, l); }), o); break; }
		case 2: { static const vector<std::pair<vector<Integer>, double>> t = {{{2, 2}, 3}, {{1, 3}, 8}, {{3, 1}, 8}, {{2, 1, 1}, 6}, {{4}, 6}, {{5}, 24}, {{1, 2, 2}, 15}, {{2, 3}, 20}, {{1, 1, 1}, 1}, {{3, 2, 1}, 120}, {{2, 2, 2}, 15}, {{3, 3}, 40}};
			auto& [cy, o] = t[(c.idx / 13) % t.size()]; const auto& cc = cy; uniform(c, "perm cycles", vh::show(cc), tally(N(c, 30000), [&] { return Random::perm(cc, l); }), o); break; }
		case 3: { i64 n = r.in(2, 7); vector<Integer> fix; for (i64 i = 0; i < n; i++) if (r.chance(1, 2) && n - i64(fix.size()) > 2) fix.push_back(l + i); while (n - i64(fix.size()) > 5) { i64 x = l + r.in(0, n - 1); if (std::find(fix.begin(), fix.end(), x) == fix.end()) fix.push_back(x); } double o = 1; for (i64 i = 2; i <= n - i64(fix.size()); i++) o *= double(i); uniform(c, "perm fix", S(n, l) + vh::show(fix), tally(N(c, 40000), [&] { return Random::perm(n, fix, l); }), o); break; }
		case 4: { i64 n = r.in(2, 4), k = r.in(1, 4); uniform(c, "multiple", S(k, n), tally(N(c, 40000), [&] { return Random::multiple(k, l, l + n); }), std::pow(double(n), double(k))); break; }
		case 5: { i64 n = r.in(2, 9), k = r.in(0, n); bool d = r.chance(1, 2); uniform(c, d ? "decreasing" : "increasing", S(k, n), tally(N(c, 30000), [&] { return d ? Random::decreasing(k, l, l + n) : Random::increasing(k, l, l + n); }), ncr(double(n), double(k))); break; }
		case 6: {
			i64 n = r.in(2, 3), k = r.in(2, 3); bool d = r.chance(1, 2);      // documented as uniform; see known_findings.txt
			auto m = tally(N(c, 20000), [&] { return d ? Random::nonIncreasing(k, l, l + n) : Random::nonDecreasing(k, l, l + n); });
			double o = ncr(double(n + k - 1), double(k)); vector<double> ob, pr; for (auto& [v, cnt] : m) { ob.push_back(double(cnt)); double w = 1; std::map<i64, int> mult; for (i64 x : v) w *= ++mult[x]; pr.push_back(std::tgamma(double(k + 1)) / w / std::pow(double(n), double(k))); }
			VCHECK(c, double(m.size()) == o, "C20.nonDecreasing.outcomes", m.size() << " outcomes instead of " << o);
			double pu = chiP(ob, vector<double>(ob.size(), 1.0 / o)), ps = chiP(ob, pr); c.ev("samples judged", 20000);
			if (pu > ALPHA) break;
			if (ps > ALPHA) { std::ostringstream os; os << "nonDecreasing/nonIncreasing(" << k << ", " << l << ", " << l + n << ") sorts independent numbers instead of choosing uniformly among the sequences: " << vh::show(ob); c.report("C20.nonDecreasing.sorted-multiple", os.str()); break; }
			VFAIL(c, "C20.nonDecreasing", "nonDecreasing/nonIncreasing(" << k << ", " << l << ", " << l + n << ") is neither uniform nor a sorted sequence of uniform numbers: " << vh::show(ob)); }
		case 7: { i64 k = r.in(1, 4), mn = r.in(1, 5), extra = r.in(0, 7), n = mn * k + extra; bool dflt = mn == 1 && r.chance(1, 2); uniform(c, "partition", A({(long double)n, (long double)k, (long double)mn}), tally(N(c, 30000), [&] { return dflt ? Random::partition(n, k) : Random::partition(n, k, mn); }), ncr(double(extra + k - 1), double(k - 1))); break; }
		case 8: { i64 k = r.in(1, 3); string al = "abcdz"; al.resize(std::size_t(r.in(2, 5))); uniform(c, "string", S(k, i64(al.size())), tally(N(c, 30000), [&] { return Random::string(k, al); }), std::pow(double(al.size()), double(k))); 
			if (c.idx % 3 == 0) { string big; std::size_t len = std::size_t(r.in(200, 900)); int span = int(r.in(2, 250)); vector<double> pr(256); for (std::size_t i = 0; i < len; i++) { char x = char(i < 128 ? 'a' : int(r.below(u64(span))) - 100); big += x; pr[static_cast<unsigned char>(x)] += 1.0 / double(len); } vector<double> ob(256); for (int i = 0; i < N(c, 300); i++) for (char x : Random::string(100, big)) ob[static_cast<unsigned char>(x)]++; judge(c, "string", "alphabet of " + std::to_string(len) + " characters", ob, pr); }
			if (c.idx % 2) uniform(c, "string", "letters", tally(N(c, 30000), [&] { return Random::string(1); }), 26); break; }
		case 9: { i64 n = r.in(2, 6); static const double cat[] = {1, 1, 2, 5, 14, 42, 132}; uniform(c, "bracketSequence", S(n, 0), tally(N(c, 30000), [&] { return Random::bracketSequence(n); }), cat[n]); break; }
		case 10: {   // long sequences: depth in the middle
			i64 n = r.in(20, 60); vector<double> w(std::size_t(2 * n + 3)); w[0] = 1; for (i64 i = 0; i < n; i++) { vector<double> v(w.size()); for (std::size_t d = 0; d + 1 < w.size(); d++) { v[d + 1] += w[d] / 2; if (d) v[d - 1] += w[d] / 2; } w = v; }
			double t = 0; vector<double> pr; for (double x : w) { pr.push_back(x * x); t += x * x; } for (double& x : pr) x /= t;
			vector<double> ob(pr.size()); for (int i = 0; i < N(c, 12000); i++) { string s = Random::bracketSequence(n); long d = 0; for (i64 j = 0; j < n; j++) d += s[std::size_t(j)] == '(' ? 1 : -1; VCHECK(c, d >= 0, "C20.bracketSequence", "not balanced"); ob[std::size_t(d)]++; }
			judge(c, "bracketSequence", "depth in the middle of " + std::to_string(2 * n), ob, pr); break; }
		case 11: {   // large objects by marginals
			i64 n = r.in(20, 60); vector<double> ob(std::size_t(n * n)); int reps = N(c, 6000); int kind = int(r.below(4));
			for (int i = 0; i < reps; i++) { vector<Integer> p = kind == 0 ? Random::perm(n) : kind == 1 ? Random::distinct(n, n) : range(n); if (kind == 2) Random::shuffle(p); if (kind == 3) { vector<Integer> cy{1}; for (i64 s = 1; s < n;) { i64 k = std::min<i64>(n - s, 5); cy.push_back(k); s += k; } auto q = Random::perm(cy); for (i64 j = 0; j < n; j++) p[std::size_t(j)] = q[std::size_t(j)]; }
				if (kind == 3) { for (i64 j = 0; j < n; j++) if (p[std::size_t(j)] == j) { ob[std::size_t(j)]++; } } else for (i64 j = 0; j < n; j++) ob[std::size_t(j * n + p[std::size_t(j)])]++; }
			if (kind == 3) { vector<double> fx; double all = 0; for (i64 j = 0; j < n; j++) { fx.push_back(ob[std::size_t(j)]); all += fx.back(); } if (all > 0) judge(c, "perm cycles", "position of the fixed points of " + std::to_string(n), fx, vector<double>(fx.size(), 1.0 / double(n))); }
			else for (i64 j = 0; j < n; j++) judge(c, kind == 0 ? "perm" : kind == 1 ? "distinct" : "shuffle", "value at position " + S(j, n), vector<double>(ob.begin() + j * n, ob.begin() + (j + 1) * n), vector<double>(std::size_t(n), 1.0 / double(n)));
			break; }
		default: {   // sparse distinct in a huge range
			i64 w = i64(1) << r.in(20, 61); int k = int(r.in(1, 30)), cells = 20; vector<double> ob(static_cast<std::size_t>(cells)); for (int i = 0; i < N(c, 3000); i++) for (i64 x : Random::distinct(k, l, l + w)) ob[std::size_t((long double)(x - l) / (long double)w * cells)]++;
			judge(c, "distinct", A({(long double)k, (long double)w}), ob, vector<double>(ob.size(), 1.0 / cells)); }
	}
}
GROUP(C20, utility, 50, 1000) {
	vh::Rng& r = c.r; begin(c, "shuffle/select/rotate"); int k = int(r.in(2, 5)); double fk = std::tgamma(k + 1.0); vector<int> id; for (int i = 0; i < k; i++) id.push_back(i); string a = std::to_string(k);
	switch (c.idx % 5) {
		case 0: uniform(c, "shuffle", a, tally(N(c, 40000), [&] { auto v = id; Random::shuffle(v); return v; }), fk); uniform(c, "shuffle", "range", tally(N(c, 10000), [&] { vector<int> v{0, 1, 2, 3, 4}; Random::shuffle(v.begin() + 1, v.begin() + 4); return v; }), 6); break;
		case 1: { uniform(c, "shuffle", "array", tally(N(c, 20000), [&] { int x[4] = {1, 2, 3, 4}; Random::shuffle(x); return vector<int>(x, x + 4); }), 24); uniform(c, "shuffle", "pair", tally(N(c, 20000), [] { std::pair<int, int> p{1, 2}; Random::shuffle(p); return p; }), 2); uniform(c, "shuffle", "complex", tally(N(c, 20000), [] { std::complex<double> p(1, 2); Random::shuffle(p); return p.real(); }), 2); uniform(c, "shuffle", "string", tally(N(c, 20000), [] { string s = "abc"; Random::shuffle(s); return s; }), 6); break; }
		case 2: { const auto& ci = id; uniform(c, "select", a, tally(N(c, 20000), [&] { return Random::select(id) + 0; }), k); uniform(c, "select", "const", tally(N(c, 20000), [&] { return Random::select(ci); }), k); uniform(c, "select", "range", tally(N(c, 20000), [&] { return Random::select(id.begin(), id.end()) + 0; }), k); uniform(c, "select", "pair", tally(N(c, 20000), [] { return Random::select(std::make_pair(1, 2)); }), 2); uniform(c, "select", "complex", tally(N(c, 20000), [] { return Random::select(std::complex<double>(1, 2)); }), 2); break; }
		case 3: { int x[5] = {1, 2, 3, 4, 5}; const int y[3] = {1, 2, 3}; uniform(c, "select", "array", tally(N(c, 20000), [&] { return Random::select(x) + 0; }), 5); uniform(c, "select", "const array", tally(N(c, 20000), [&] { return Random::select(y); }), 3); uniform(c, "select", "braces", tally(N(c, 20000), [&] { return Random::select({4, 5, 6, 7}); }), 4); uniform(c, "select", "string_view", tally(N(c, 20000), [&] { return Random::select(std::string_view("wxyz")); }), 4); break; }
		default: uniform(c, "rotate", a, tally(N(c, 20000), [&] { auto v = id; Random::rotate(v); return v; }), k); uniform(c, "rotate", "range", tally(N(c, 20000), [&] { vector<int> v{0, 1, 2, 3, 4}; Random::rotate(v.begin() + 1, v.end()); return v; }), 4);
	}
}
template<class G> static vector<std::pair<i64, i64>> edgesOf(const G& g, bool dir) { vector<std::pair<i64, i64>> v; for (auto e : g.getEdges()) v.push_back(dir || e.from < e.to ? std::make_pair(i64(e.from), i64(e.to)) : std::make_pair(i64(e.to), i64(e.from))); std::sort(v.begin(), v.end()); return v; }
template<bool DIR, class F> static void edgeProb(Ctx& c, const string& what, const string& a, int n, const vector<std::pair<i64, i64>>& all, double p, F f) {   // independent edges
	std::map<std::pair<i64, i64>, double> cnt; for (auto& e : all) cnt[e] = 0; vector<double> num(all.size() + 1), sum; double tot = 0;
	for (int i = 0; i < n; i++) { auto v = edgesOf(f(), DIR); VCHECK(c, v.size() <= all.size(), "C20." + what, v.size() << " edges, only " << all.size() << " are possible"); num[v.size()]++; for (auto& e : v) { VCHECK(c, cnt.count(e), "C20." + what, "edge " << e.first << "-" << e.second << " not admissible"); cnt[e]++; tot++; } }
	vector<double> pr; double M = double(all.size()); for (std::size_t k = 0; k <= all.size(); k++) pr.push_back(std::exp(std::lgamma(M + 1) - std::lgamma(k + 1.0) - std::lgamma(M - double(k) + 1) + double(k) * std::log(p) + (M - double(k)) * std::log1p(-p)));
	judge(c, what, a + "number of edges", num, pr);
	vector<double> ob; for (auto& [e, x] : cnt) ob.push_back(x); judge(c, what, a + "edges", ob, vector<double>(ob.size(), 1 / M));
	for (auto& [e, x] : cnt) judge(c, what, a + "edge " + A({(long double)e.first, (long double)e.second}), {x, n - x}, {p, 1 - p});
}
GROUP(C20, graphs, 70, 1200) {
	vh::Rng& r = c.r; begin(c, "graphs");
	auto pairs = [](i64 n, bool dir) { vector<std::pair<i64, i64>> v; for (i64 i = 0; i < n; i++) for (i64 j = 0; j < n; j++) if (dir ? i != j : i < j) v.push_back({i, j}); return v; };
	auto bip = [](i64 n, i64 m, bool dir) { vector<std::pair<i64, i64>> v; for (i64 i = 0; i < n; i++) for (i64 j = n; j < n + m; j++) { v.push_back({i, j}); if (dir) v.push_back({j, i}); } return v; };
	long double p = r.pick({0.2L, 0.5L, 0.83L});
	switch (c.idx % 14) {
		case 10: case 11: {   // edge ids, orientations and vertex names are shuffled uniformly
			bool all = c.idx % 14 == 11; auto ids = [](const auto& g) { vector<i64> v; for (std::size_t i = 0; i < g.edgeCount(); i++) { auto e = g.getEdgeById(i); v.push_back(i64(e.from)); v.push_back(i64(e.to)); } return v; };
			if (all) { uniform(c, "permutate", "path of 3", tally(N(c, 20000), [&] { Graph<> g(3); g.addEdge(0, 1); g.addEdge(1, 2); g.permutate(); return ids(g); }), 24); DiGraph<> h(4); h.addEdge(0, 1); h.addEdge(3, 1); uniform(c, "permutate", "directed", tally(N(c, 20000), [&] { auto g = h; g.permutate(); return ids(g); }), 24); }
			else { uniform(c, "permutateEdges", "path of 4", tally(N(c, 20000), [&] { Graph<> g(4); g.addEdge(0, 1); g.addEdge(1, 2); g.addEdge(2, 3); g.permutateEdges(); return ids(g); }), 48); uniform(c, "permutateEdges", "directed", tally(N(c, 20000), [&] { DiGraph<> g(4); g.addEdge(0, 1); g.addEdge(2, 1); g.addEdge(2, 3); g.addEdge(3, 2); g.permutateEdges(); return ids(g); }), 24); }
			break; }
		case 12: { i64 n = r.in(4, 6); uniform(c, "permutate", "position of the centre of a star with " + std::to_string(n), tally(N(c, 10000), [&] { auto g = star(n - 1); g.permutate(); for (i64 v = 0; v < n; v++) if (g[v].size() == std::size_t(n - 1)) return v; return n; }), double(n)); break; }
		case 13: { i64 n = r.in(5, 8), m = r.in(1, n - 1); Graph<> g = clique(n); uniform(c, "select edge", A({(long double)n}), tally(N(c, 20000), [&] { auto e = Random::select(g.getEdges()); return i64(e.from * n + e.to); }), double(n * (n - 1) / 2)); Graph<> w(n); for (i64 i = 0; i < n; i++) w.addEdge(i, (i + 1) % n); i64 k = r.in(1, 3); (void)m;
			uniform(c, "subgraph", A({(long double)n, (long double)k}), tally(N(c, 20000), [&] { return edgesOf(w.subgraph(k), false); }), ncr(double(n), double(k))); DiGraph<> x(3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j) x.addEdge(i, j); uniform(c, "subgraph", "directed " + A({(long double)k}), tally(N(c, 20000), [&] { return edgesOf(x.subgraph(k), true); }), ncr(6, double(k))); break; }
		case 0: { i64 n = r.in(3, 5); uniform(c, "randomTree", A({(long double)n}), tally(N(c, 20000), [&] { return edgesOf(randomTree(n), false); }), std::pow(double(n), double(n - 2))); break; }
		case 1: { i64 n = r.in(3, 5); uniform(c, "randomTree", "directed " + A({(long double)n}), tally(N(c, 20000), [&] { return edgesOf(randomTree<NoData, true>(n), true); }), std::pow(double(n), double(n - 2))); break; }
		case 2: { i64 n = r.in(3, 5), m = r.in(1, 3); uniform(c, "randomGraph", A({(long double)n, (long double)m}), tally(N(c, 20000), [&] { return edgesOf(randomGraph(n, m), false); }), ncr(double(n * (n - 1) / 2), double(m))); break; }
		case 3: { i64 n = r.in(2, 4), m = r.in(1, 2); uniform(c, "randomGraph", "directed " + A({(long double)n, (long double)m}), tally(N(c, 20000), [&] { return edgesOf(randomGraph<NoData, true>(n, m), true); }), ncr(double(n * (n - 1)), double(m))); break; }
		case 4: { i64 n = r.in(1, 4), m = r.in(1, 4), k = r.in(1, std::min<i64>(3, n * m)); uniform(c, "randomBipartite", A({(long double)n, (long double)m, (long double)k}), tally(N(c, 20000), [&] { return edgesOf(randomBipartite(n, m, k), false); }), ncr(double(n * m), double(k))); break; }
		case 5: { i64 n = r.in(1, 3), m = r.in(1, 3), k = r.in(1, 2); uniform(c, "randomBipartite", "directed " + A({(long double)n, (long double)m, (long double)k}), tally(N(c, 20000), [&] { return edgesOf(randomBipartite<NoData, true>(n, m, k), true); }), ncr(double(2 * n * m), double(k))); break; }
		case 6: { i64 n = r.in(3, 7); edgeProb<false>(c, "randomGraph", A({(long double)n, p}), N(c, 6000), pairs(n, false), double(p), [&] { return randomGraph(n, p); }); break; }
		case 7: { i64 n = r.in(2, 6); edgeProb<true>(c, "randomGraph", "directed " + A({(long double)n, p}), N(c, 6000), pairs(n, true), double(p), [&] { return randomGraph<NoData, true>(n, p); }); break; }
		case 8: { i64 n = r.in(1, 5), m = r.in(1, 5); edgeProb<false>(c, "randomBipartite", A({(long double)n, (long double)m, p}), N(c, 6000), bip(n, m, false), double(p), [&] { return randomBipartite(n, m, p); }); break; }
		default: { i64 n = r.in(1, 4), m = r.in(1, 4); edgeProb<true>(c, "randomBipartite", "directed " + A({(long double)n, (long double)m, p}), N(c, 6000), bip(n, m, true), double(p), [&] { return randomBipartite<NoData, true>(n, m, p); }); }
	}
}
GROUP(C20, large, 24, 240) {       // one large object instead of many small ones
	vh::Rng& r = c.r; begin(c, "large");
	auto table = [&](const char* what, const string& a, int k, i64 n, auto at, i64 span) {      // block of the position x block of the value
		vector<double> ob(std::size_t(k * k)), pr(ob.size()); auto blk = [&](i64 x, i64 w) { return std::size_t((long double)x / (long double)w * k); };
		vector<double> row(static_cast<std::size_t>(k)); for (i64 i = 0; i < n; i++) { i64 v = at(i); VCHECK(c, 0 <= v && v < span, string("C20.") + what, "value " << v << " outside of [0, " << span << ")"); ob[blk(i, n) * std::size_t(k) + blk(v, span)]++; row[blk(i, n)] += 1.0 / double(n); }
		vector<double> col(static_cast<std::size_t>(k)); if (span < 100000000) for (i64 v = 0; v < span; v++) col[blk(v, span)] += 1.0 / double(span); else for (double& x : col) x = 1.0 / k;
		for (std::size_t i = 0; i < std::size_t(k); i++) for (std::size_t j = 0; j < std::size_t(k); j++) pr[i * std::size_t(k) + j] = row[i] * col[j];
		judge(c, what, a + " by blocks", ob, pr); };
	i64 n = r.in(70000, 200000), l = r.in(-1000, 1000); string a = A({(long double)n, (long double)l});
	switch (c.idx % 12) {
		case 0: { vector<i64> v(static_cast<std::size_t>(n)); for (i64 i = 0; i < n; i++) v[std::size_t(i)] = i; Random::shuffle(v); table("shuffle", a, 20, n, [&](i64 i) { return v[std::size_t(i)]; }, n); Random::shuffle(v.begin(), v.end()); table("shuffle", a, 50, n, [&](i64 i) { return v[std::size_t(i)]; }, n); break; }
		case 1: { auto v = Random::perm(n, l); table("perm", a, 20, n, [&](i64 i) { return v[std::size_t(i)] - l; }, n); auto w = Random::perm(vector<Integer>{n}, l); table("perm cycle", a, 20, n, [&](i64 i) { return w[std::size_t(i)] - l; }, n); auto x = Random::perm(n, vector<Integer>{l, l + 5, l + n - 1}, l); table("perm fix", a, 20, n, [&](i64 i) { return x[std::size_t(i)] - l; }, n); break; }
		case 2: { auto v = Random::distinct(n / 2, l, l + n); table("distinct", a + "half of all", 20, n / 2, [&](i64 i) { return v[std::size_t(i)] - l; }, n); i64 w = i64(1) << r.in(30, 62); auto x = Random::distinct(n / 2, w); table("distinct", A({(long double)w}), 20, n / 2, [&](i64 i) { return x[std::size_t(i)]; }, w); break; }
		case 3: { i64 w = i64(1) << r.in(20, 61); auto cnt = [&](const char* what, const vector<Integer>& v) { vector<double> ob(50); for (i64 x : v) ob[std::size_t((long double)(x - l) / (long double)w * 50)]++; judge(c, what, A({(long double)v.size(), (long double)w}), ob, vector<double>(50, 0.02)); };
			cnt("increasing", Random::increasing(n, l, l + w)); cnt("decreasing", Random::decreasing(n, l, l + w)); cnt("multiple", Random::multiple(n, l, l + w)); break; }
		case 4: { i64 mn = r.in(1, 50), tot = i64(1000000000) * r.in(1, 1000); auto v = Random::partition(tot, n, mn); double mean = double(tot - (mn - 1) * n) / double(n); std::size_t i = 0; cdf(c, "partition", A({(long double)tot, (long double)n, (long double)mn}), int(n), [&] { return v[i++]; }, [&](i64 x) { return -std::expm1(-(double(x - mn) + 0.5) / mean); }, 40); break; }
		case 5: { string al = "qwertyu", s = Random::string(3 * n, al); table("string", a, 7, 3 * n, [&](i64 i) { return i64(al.find(s[std::size_t(i)])); }, 7); vector<double> ob(49); for (std::size_t i = 0; i + 1 < s.size(); i += 2) ob[al.find(s[i]) * 7 + al.find(s[i + 1])]++; judge(c, "string", a + "pairs", ob, vector<double>(49, 1.0 / 49)); break; }
		case 6: { i64 m = r.in(1500000, 5000000); c.fp(u64(m)); string s = Random::bracketSequence(m); i64 d = 0, mid = 0; double peaks = 0; for (std::size_t i = 0; i < s.size(); i++) { d += s[i] == '(' ? 1 : -1; VCHECK(c, d >= 0, "C20.bracketSequence", "bracketSequence(" << m << ") is not balanced at " << i); if (i + 1 == std::size_t(m)) mid = d; if (i && s[i] == ')' && s[i - 1] == '(') peaks++; }
			double z = (peaks - double(m + 1) / 2) / std::sqrt(double(m) / 8); VCHECK(c, d == 0 && std::fabs(z) < 8, "C20.bracketSequence", "bracketSequence(" << m << ") has " << peaks << " peaks, final depth " << d);
			double x = double(mid) / std::sqrt(2.0 * double(m)); VCHECK(c, x > 1e-4 && x < 4, "C20.bracketSequence", "bracketSequence(" << m << ") has depth " << mid << " in the middle"); c.ev("large bracket sequences"); break; }
		case 7: { auto e = edgesOf(randomTree(n), false); vector<i64> deg(static_cast<std::size_t>(n)); for (auto& [x, y] : e) deg[std::size_t(x)]++, deg[std::size_t(y)]++; std::size_t i = 0; pmf(c, "randomTree", a + "degrees", int(n), [&] { return deg[i++] - 1; }, [](i64 k) { return std::exp(-1.0 - std::lgamma(double(k) + 1)); }, 0, 20);
			vector<i64> ends; for (auto& [x, y] : e) { ends.push_back(x); ends.push_back(y); } vector<double> ob(50); for (i64 x : ends) ob[std::size_t((long double)x / (long double)n * 50)]++; judge(c, "randomTree", a + "end points", ob, vector<double>(50, 0.02)); break; }
		case 8: case 9: { i64 m = r.in(400, 1500), M = m * (m - 1) / 2, k = M / r.in(3, 30); bool pq = c.idx % 12 == 9; long double p = (long double)k / (long double)M; auto e = edgesOf(pq ? randomGraph(m, p) : randomGraph(m, k), false); string b = A({(long double)m, (long double)k, (long double)pq});
			double z = (double(e.size()) - double(k)) / std::sqrt(double(M) * double(p * (1 - p))); VCHECK(c, pq ? std::fabs(z) < 8 : z == 0, "C20.randomGraph", "randomGraph(" << b << ") has " << e.size() << " edges");
			vector<double> ob(100), pr(100); auto cell = [&](i64 x, i64 y) { return std::size_t(x * 10 / m * 10 + y * 10 / m); }; for (i64 x = 0; x < m; x++) for (i64 y = x + 1; y < m; y++) pr[cell(x, y)] += 1.0 / double(M); for (auto& [x, y] : e) ob[cell(x, y)]++; judge(c, "randomGraph", b + " by blocks", ob, pr); break; }
		case 10: {       // sparse, the number of possible edges exceeds 2^31
			i64 q = r.in(70000, 150000), k = N(c, 3000); auto ends = [&](const char* what, auto es, i64 w, i64 off) { vector<double> ob(64); for (auto& [x, y] : es) { i64 mn = std::min(x, y), mx = std::max(x, y); VCHECK(c, 0 <= mn && mn < w && off <= mx && mx < off + w, string("C20.") + what, "edge " << mn << "," << mx << " with sides of " << w); ob[std::size_t(mn * 8 / w * 8 + (mx - off) * 8 / w)]++; } return ob; };
			auto b = ends("randomBipartite", edgesOf(randomBipartite(q, q, k), false), q, q); judge(c, "randomBipartite", A({(long double)q, (long double)k}) + " by blocks", b, vector<double>(64, 1.0 / 64));
			auto e = edgesOf(randomGraph(q, k), false); auto g = ends("randomGraph", e, q, 0); vector<double> ob, pr; for (std::size_t i = 0; i < 8; i++) for (std::size_t j = i; j < 8; j++) { ob.push_back(g[i * 8 + j]); pr.push_back(i == j ? 1.0 / 64 : 2.0 / 64); } judge(c, "randomGraph", A({(long double)q, (long double)k}) + " by blocks", ob, pr);
			auto f = edgesOf(randomGraph<NoData, true>(q, k), true); vector<double> o2(64); for (auto& [x, y] : f) o2[std::size_t(x * 8 / q * 8 + y * 8 / q)]++; judge(c, "randomGraph", "directed " + A({(long double)q, (long double)k}) + " by blocks", o2, vector<double>(64, 1.0 / 64)); break; }
		default: { i64 w = r.in(1000000, 2000000000), lo = w + r.in(0, 1000); auto li = [](double x) { return x / std::log(x) * (1 + 1 / std::log(x) + 2 / std::pow(std::log(x), 2) + 6 / std::pow(std::log(x), 3) + 24 / std::pow(std::log(x), 4) + 120 / std::pow(std::log(x), 5)); }; double A0 = li(double(lo)), A1 = li(double(lo + w)); int q = N(c, 4000);
			cdf(c, "prime", A({(long double)lo, (long double)w}), q, [&] { return Random::prime(lo, lo + w); }, [&](i64 x) { return (li(double(x)) - A0) / (A1 - A0); }, 16); }
	}
}
GROUP(C20, seeds, 8, 100) {       // the first draws after seeding with consecutive numbers
	u64 s = c.r.next() >> c.r.below(40); c.note("seeds from " + std::to_string(s));
	uniform(c, "seed", "first integer(8)", tally(N(c, 6000), [&] { Random::seed(s++); return Random::integer(8); }), 8);
	uniform(c, "seed", "first perm(4)", tally(N(c, 6000), [&] { Random::seed(s++); return Random::perm(4); }), 24);
}
VHV_MAIN
