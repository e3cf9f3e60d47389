// C21: prints what the random generators produced. Sessions of calls drawn by vh::Rng (never by the library), every result
// hashed; the driver compares the traces of many builds, environments and orders. Nothing is compared with stored values.
#include "vh.h"
#ifdef VH_ALTSTD
#include "altstd.h"
#endif
#if defined(VH_AES)
#include "secure_rng.h"
namespace Settings { using RandomEngine = AES_RNG; }
#elif defined(VH_XO)
#include "rng.h"
namespace Settings { using RandomEngine = Xoshiro256ss; }
#endif
#include "vhv.h"
#if __cplusplus >= 202002L
#include "graph_gen.h"
#define GRAPHS 1
#else
#define GRAPHS 0
#endif
using vh::u64; using vh::i64; using std::vector; using std::string;
#ifdef VH_ALTHEAP    // addresses fall and are never reused: an order that follows addresses changes
static char* g_heap; static std::size_t g_left;
void* operator new(std::size_t n) {
	if (n > (1u << 20)) return std::malloc(n);
	n = (n + 31) & ~std::size_t(15);
	if (g_left < n) { g_left = std::size_t(8) << 20; g_heap = static_cast<char*>(std::malloc(g_left)); std::memset(g_heap, 0x5A, g_left); if (!g_heap) std::abort(); }
	g_left -= n; return g_heap + g_left;
}
void operator delete(void*) noexcept {}
void operator delete(void*, std::size_t) noexcept {}
#endif

struct Trace {
	u64 h = 0; bool verbose = false; u64 values = 0; std::ostringstream cur;
	void raw(u64 x) { h = vh::mix(h ^ x); values++; }
	void put(bool x) { raw(x); if (verbose) cur << (x ? " true" : " false"); }
	void put(i64 x) { raw(u64(x)); if (verbose) cur << " " << x; }
	void put(char x) { raw(u64(static_cast<unsigned char>(x))); }
	void put(long double x) { int e = 0; if (!std::isfinite(x)) { raw(std::isnan(x) ? 3 : x > 0 ? 1 : 2); return; } long double m = std::frexp(x, &e); raw(u64(i64(std::ldexp(m, 63)))); raw(u64(i64(e))); if (verbose) { char b[64]; std::snprintf(b, sizeof b, " %.21Lg", x); cur << b; } }
	void put(const string& s) { raw(vh::hashStr(s)); if (verbose) cur << " '" << s << "'"; }
	template<class A, class B> void put(const std::pair<A, B>& p) { put(p.first); put(p.second); }
	template<class A> void put(const std::complex<A>& p) { put(i64(p.real())); put(i64(p.imag())); }
	template<class A> void put(const vector<A>& v) { raw(v.size()); for (const auto& x : v) put(x); }
#if GRAPHS
	template<class E, bool D> void put(const GraphDetail::GraphType<E, D>& g) {
		raw(u64(g.nodeCount())); raw(u64(g.edgeCount())); raw(u64(g.getMinId()));
		if (verbose) cur << " graph n=" << g.nodeCount() << " m=" << g.edgeCount() << ":";
		for (const auto e : g.getEdges()) { raw(u64(e.from)); raw(u64(e.to)); if constexpr (std::is_same_v<E, Integer>) raw(u64(*e)); if (verbose) cur << " " << e.from << "-" << e.to; }
		for (Integer i = g.getMinId(); i < g.getMinId() + g.nodeCount(); i++) for (const auto e : g[i]) { raw(u64(e.to)); if (verbose) cur << " [" << i << "]" << e.to; }
	}
#endif
};
struct P2 { Integer x, y; };

static void calls(vh::Rng& r, Trace& t, int n, bool unbounded) {
	namespace R = Random;
	for (int s = 0; s < n; s++) {
		int k = int(r.below(46)); t.cur.str("");
		i64 lo = 0, up = 0; do { lo = r.chance(1, 3) ? r.wild() : r.in(-1000, 1000); i64 w = r.chance(1, 4) ? i64(r.next() >> r.below(63)) & INT64_MAX : i64(r.below(1000)); up = u64(INT64_MAX) - u64(lo) < u64(w) ? INT64_MAX : i64(u64(lo) + u64(w)); } while (lo >= up);
		i64 c = r.size(30); u64 z = r.next(); long double fr = (long double)(r.unit()), f2 = (long double)(r.unit());
		string name; auto go = [&](const char* nm, auto&& f) { name = nm; try { t.put(f()); } catch (const std::exception& e) { t.raw(777); if (t.verbose) t.cur << " throws"; } };
		switch (k) {
			case 0: go("bit", [&] { bool x = R::bit(); return x; }); break;
			case 1: go("integer()", [&] { return i64(R::integer()); }); break;
			case 2: case 3: go("integer(l,u)", [&] { return i64(R::integer(lo, up)); }); break;
			case 4: go("integer(u)", [&] { return i64(R::integer(i64(z >> 1 >> (z & 31)) + 1)); }); break;
			case 5: go("real()", [&] { return (long double)R::real(); }); break;
			case 6: go("real(l,u)", [&] { return (long double)R::real(-fr - 1, f2 * 1000); }); break;
			case 7: go("real(u)", [&] { return (long double)R::real(f2 * 5 + 1e-9L); }); break;
			case 8: go("discrete", [&] { i64 a = R::discrete<1, 2, 3>(), b = R::discrete<5, 0, 1>(), d = R::discrete<7>(); return vector<i64>{a, b, d}; }); break;
			case 9: go("normal", [&] { return (long double)R::normal(fr, f2 * 10); }); break;
			case 10: go("normal(l,u)", [&] { return (long double)R::normal(-f2 * 3, f2 * 3 + 0.1L, fr, 2); }); break;
			case 11: go("exponential", [&] { return (long double)R::exponential(fr + 1e-3L); }); break;
			case 12: go("exponential(l,u)", [&] { return (long double)R::exponential(fr, fr + 1 + f2, f2 * 3 + 0.01L); }); break;
			case 13: go("geometric", [&] { return i64(R::geometric(fr * 0.99L + 0.001L)); }); break;
			case 14: go("geometric(l,u)", [&] { return i64(R::geometric(lo, up, fr * 0.9L + 0.05L)); }); break;
			case 15: go("binomial small", [&] { return i64(R::binomial(i64(z % 40), fr)); }); break;
			case 16: go("binomial large", [&] { return i64(R::binomial(i64(z % 1000000) + 100, fr)); }); break;
			case 17: go("binomial(l,u)", [&] { return i64(R::binomial(5, 60, 100, 0.2L + fr * 0.3L)); }); break;
			case 18: go("maximum", [&] { return i64(R::maximum(lo, up, i64(z % 9) + 1)); }); break;
			case 19: go("minimum", [&] { return i64(R::minimum(lo, up, i64(z % 9) + 1)); }); break;
			case 20: go("minmax", [&] { i64 q = i64(z % 17) - 8; return i64(R::minmax(lo, up, q ? q : 3)); }); break;
			case 21: go("prime", [&] { i64 a = i64(z % 100000); return i64(R::prime(a, a + 500)); }); break;
			case 22: go("prime large", [&] { i64 a = i64(z >> 3); return i64(R::prime(a, a + 100000)); }); break;
			case 23: go("select", [&] { vector<i64> v{3, 1, 4, 1, 5, 9, 2, 6}; i64 a = R::select(v); const auto& cv = v; i64 b = R::select(cv); i64 d = R::select(v.begin() + 1, v.end()); std::pair<i64, i64> p{7, 8}; i64 e = R::select(p); string st = "hello"; char h = R::select(st); return vector<i64>{a, b, d, e, i64(h)}; }); break;
			case 24: go("shuffle", [&] { vector<i64> v(std::size_t(c), 0); std::iota(v.begin(), v.end(), 0); R::shuffle(v); std::deque<i64> d(v.begin(), v.end()); R::shuffle(d.begin(), d.end()); return vector<i64>(d.begin(), d.end()); }); break;
			case 25: go("shuffle pair/array", [&] { std::pair<i64, i64> p{1, 2}; R::shuffle(p); i64 a[5] = {1, 2, 3, 4, 5}; R::shuffle(a); string st = "abcdefg"; R::shuffle(st); return vector<i64>{p.first, a[0], a[1], a[2], a[3], a[4], i64(st[0]), i64(st[3])}; }); break;
			case 26: go("rotate", [&] { vector<i64> v(std::size_t(c) + 1, 0); std::iota(v.begin(), v.end(), 0); i64 by = R::rotate(v); v.push_back(by); return v; }); break;
			case 27: go("distinct", [&] { return R::distinct(c, -3, c + i64(z % 100)); }); break;
			case 28: go("distinct wide", [&] { return R::distinct(c, i64(z >> 1) / 2, INT64_MAX); }); break;
			case 29: go("perm", [&] { return R::perm(c, lo / 2); }); break;
			case 30: go("perm cycles", [&] { vector<Integer> cy; for (i64 i = 0; i < c / 3; i++) cy.push_back(i64(r.below(5)) + 1); return R::perm(cy); }); break;
			case 31: go("perm fix", [&] { vector<Integer> fx; for (i64 i = 0; i < c / 4; i++) fx.push_back(i64(r.below(u64(c)))); return R::perm(c, fx); }); break;
			case 32: go("multiple", [&] { return R::multiple(c, lo, up); }); break;
			case 33: go("increasing", [&] { return R::increasing(c, -5, c + i64(z % 50)); }); break;
			case 34: go("decreasing", [&] { return R::decreasing(c, -5, c + i64(z % 50)); }); break;
			case 35: go("nonDecreasing", [&] { return R::nonDecreasing(c, lo, up); }); break;
			case 36: go("nonIncreasing", [&] { return R::nonIncreasing(c, lo, up); }); break;
			case 37: go("partition", [&] { return R::partition(c * 3 + 7, c / 2 + 1, i64(z % 3)); }); break;
			case 38: go("string", [&] { return R::string(c); }); break;
			case 39: go("string alphabet", [&] { return R::string(c, "\xe4x0 "); }); break;
			case 40: go("brackets", [&] { return R::bracketSequence(c); }); break;
			case 41: case 42: go("convex", [&] { i64 m = 3 + i64(z % 20), dim = m + i64(r.below(1u << r.below(30))); return R::convex(m, std::min<i64>(dim, 0x3FFFFFFF)); }); break;
			case 43: go("convex tight", [&] { i64 m = 3 + i64(z % 40); return R::convex(m, std::max<i64>(2, (m + 3) / 4 + 2)); }); break;
			case 44: go("noncollinear", [&] { return R::nonCollinearPoints(c, c + 1 + i64(z % 5000)); }); break;
			default: go("other functions", [&] { bool p = isPrime(Integer(z >> 4)); bool q = isPerm(range(c)); return p == q; }); break;   // must not disturb the sequence
		}
		if (t.verbose) std::printf("call %d %s:%s\n", s, name.c_str(), t.cur.str().c_str());
		if (!unbounded && t.h == 1) break;
	}
}
#if GRAPHS
template<class E, bool D> void graphStep(vh::Rng& r, Trace& t, GraphDetail::GraphType<E, D>& g) {
	t.cur.str(""); i64 n = 1 + r.size(12), m = 1 + r.size(8); long double p = (long double)(r.unit()); int k = int(r.below(20)); string name = std::to_string(k); i64 id = n > 1 ? i64(r.below(u64(n))) : 0;
	try {
		switch (k) {
			case 0: g = randomGraph<E, D>(n, Integer(r.below(u64(n * (n - 1) / (D ? 1 : 2) + 1)))); break;
			case 1: g = randomGraph<E, D>(n, Real(p)); break;
			case 2: g = randomBipartite<E, D>(n, m, Integer(r.below(u64(n * m + 1)))); break;
			case 3: g = randomBipartite<E, D>(n, m, Real(p)); break;
			case 4: case 5: g = randomTree<E, D>(n); break;
			case 6: if constexpr (!D) g = randomGrowingGraph<E>(n, Real(p)); break;
			case 7: case 8: if constexpr (!D) { vector<Integer> d; auto x = randomGraph<NoData>(n, Real(p)); for (Integer q : x.getDegrees()) d.push_back(q); g = randomGraph<E>(d, i64(r.below(5))); } break;
			case 9: g.permutate(); break;
			case 10: g.permutateEdges(); break;
			case 11: g = g.subgraph(i64(r.below(u64(g.edgeCount()) + 2))); break;
			case 12: { g = clique<E, D>(std::min<i64>(n, 8)); break; }
			case 13: if constexpr (!D) { g = grid<E>(std::min<i64>(n, 6), std::min<i64>(m, 6)); } else { g.reverse(); } break;
			case 14: { g = completeTree<E, D>(1 + n % 4, 2); break; }
			case 15: { auto h = rado<E, D>(std::min<i64>(n, 10)); g = h; break; }
			case 16: if (g.nodeCount() > 1 && g.edgeCount()) { auto e = g.getEdgeById(Random::integer(g.edgeCount())); Integer a = e.from, b = e.to; g.eraseEdge(a, b); } break;
			case 17: if (g.nodeCount() < 30) { auto h = randomTree<E, D>(m); g.append(h); } break;
			case 18: { g.setMinId(id - 3); break; }
			default: if (g.nodeCount() < 30) { auto h = randomGraph<E, D>(n, Real(p)); h.setMinId(g.getMinId()); g.combine(h); } break;
		}
	} catch (const std::exception& e) { t.raw(778); if (t.verbose) t.cur << " throws " << e.what(); }
	t.put(g); Integer after = Random::integer(0, 1000000007); t.put(i64(after));
	if (t.verbose) std::printf("graph step %s:%s\n", name.c_str(), t.cur.str().c_str());
}
template<class E, bool D> void graphSession(vh::Rng& r, Trace& t, int n) { GraphDetail::GraphType<E, D> g(Integer(r.below(6))); for (int i = 0; i < n; i++) graphStep<E, D>(r, t, g); }
#endif
static u64 session(char kind, u64 seed, u64 k, bool verbose, u64& values) {
	vh::Rng r(vh::mix(seed * 1000003 + k * 2 + (kind == 'G'))); Trace t; t.verbose = verbose;
	Random::seed(r.chance(1, 6) ? k % 3 : r.next());
	if (kind == 'R') calls(r, t, 20, true);
#if GRAPHS
	else { switch (k % 4) { case 0: graphSession<NoData, false>(r, t, 8); break; case 1: graphSession<NoData, true>(r, t, 8); break; case 2: graphSession<Integer, false>(r, t, 8); break; default: graphSession<Integer, true>(r, t, 8); } }
#endif
	values += t.values; return t.h;
}
int main(int argc, char** argv) {
	Generator::init(1, argv);
	u64 seed = std::stoull(argv[1]), n = std::stoull(argv[2]); string only = argc > 3 ? argv[3] : "";
	if (!only.empty() && only != "-") { u64 v = 0; if (only[0] == 'U') { Trace t; t.verbose = true; vh::Rng r(4711); calls(r, t, 200, true); } else (void)session(only[0], seed, std::stoull(only.substr(1)), true, v); return 0; }
	u64 values = 0; vector<std::pair<string, u64>> res;
	{ Trace t; vh::Rng r(4711); calls(r, t, 200, true); std::printf("U0 %016llx\n", (unsigned long long)t.h); values += t.values; }   // nothing was seeded before this
	for (char kind : {'R', 'G'}) {
		if (kind == 'G' && !GRAPHS) continue;
		vector<u64> h;
		for (u64 k = 0; k < n; k++) { h.push_back(session(kind, seed, k, false, values)); std::printf("%c%llu %016llx\n", kind, (unsigned long long)k, (unsigned long long)h.back()); }
		u64 again = 0; for (u64 k = n; k--;) if (k % 3 == 0) { again++; if (session(kind, seed, k, false, values) != h[k]) std::printf("RESEED %c%llu\n", kind, (unsigned long long)k); }
		std::printf("# reseeded %llu\n", (unsigned long long)again);
	}
	std::printf("# values %llu\n", (unsigned long long)values);
	return 0;
}
