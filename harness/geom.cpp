// C17 polygon predicates, C22 random point sets
#include "vhv.h"
using vh::u64; using vh::i64;
using P = std::pair<Integer, Integer>;
struct PS { Integer x, y; bool operator==(const PS& o) const { return x == o.x && y == o.y; } };
using PC = std::complex<Integer>;
using PA = std::array<Integer, 2>;

static i64 crs(const P& o, const P& a, const P& b) { return (a.first - o.first) * (b.second - o.second) - (a.second - o.second) * (b.first - o.first); }
static int sg(i64 x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static std::string str(const std::vector<P>& v) { std::string s; for (auto& p : v) s += "(" + std::to_string(p.first) + "," + std::to_string(p.second) + ")"; return s; }

// counter-clockwise convex polygon with positive area, no repeated neighbours, walked exactly once:
// every vertex on or left of every edge line, and edge directions sorted by angle through exactly one full turn
static bool refConvex(const std::vector<P>& v) {
	std::size_t n = v.size(); if (n < 3) return false;
	bool area = false;
	for (std::size_t i = 0; i < n; i++) {
		const P &a = v[i], &b = v[(i + 1) % n];
		if (a == b) return false;
		for (auto& q : v) { i64 s = crs(a, b, q); if (s < 0) return false; if (s > 0) area = true; }
	}
	if (!area) return false;
	// the map vertex index -> position along the hull boundary must be strictly monotone cyclically: no vertex may repeat,
	std::set<P> st(v.begin(), v.end()); if (st.size() != n) return false;
	// and no edge may contain another vertex in its interior
	for (std::size_t i = 0; i < n; i++) for (std::size_t k = 0; k < n; k++) {
		const P &a = v[i], &b = v[(i + 1) % n], &q = v[k];
		if (q == a || q == b || crs(a, b, q) != 0) continue;
		if (std::min(a, b) < q && q < std::max(a, b)) return false;
	}
	return true;
}
static bool refStrict(const std::vector<P>& v) {
	if (!refConvex(v)) return false; std::size_t n = v.size();
	for (std::size_t i = 0; i < n; i++) if (crs(v[i], v[(i + 1) % n], v[(i + 2) % n]) == 0) return false;
	return true;
}
static bool onSeg(const P& a, const P& b, const P& q) { return crs(a, b, q) == 0 && std::min(a, b) <= q && q <= std::max(a, b); }
static bool touch(const P& a, const P& b, const P& c, const P& d) {
	if (onSeg(a, b, c) || onSeg(a, b, d) || onSeg(c, d, a) || onSeg(c, d, b)) return true;
	return sg(crs(a, b, c)) * sg(crs(a, b, d)) < 0 && sg(crs(c, d, a)) * sg(crs(c, d, b)) < 0;
}
static bool generic(const std::vector<P>& v) { std::size_t n = v.size(); for (std::size_t i = 0; i < n; i++) if (crs(v[i], v[(i + 1) % n], v[(i + 2) % n]) == 0) return false; return true; }
static bool refSimple(const std::vector<P>& v) {
	std::size_t n = v.size(); if (n < 3) return false;
	for (std::size_t i = 0; i < n; i++) for (std::size_t j = i + 2; j < n; j++) {
		if (i == 0 && j == n - 1) continue;
		if (touch(v[i], v[i + 1], v[j], v[(j + 1) % n])) return false;
	}
	return true;
}
// sign of the area in exact two-limb arithmetic (sum of 64-bit terms)
static int refArea(const std::vector<P>& v, bool& fits) {
	long double dummy = 0; (void)dummy;
	i64 hi = 0; u64 lo = 0;      // value = hi * 2^64 + lo
	std::size_t n = v.size();
	for (std::size_t i = 0; i < n; i++) {
		const P &a = v[i], &b = v[(i + 1) % n];
		i64 t = a.first * b.second - a.second * b.first;
		u64 nl = lo + u64(t); hi += (t < 0 ? -1 : 0) + (nl < lo ? 1 : 0); lo = nl;
	}
	fits = (hi == 0 && !(lo >> 63)) || (hi == -1 && (lo >> 63));
	return hi < 0 ? -1 : (hi > 0 || lo) ? 1 : 0;
}

static std::vector<P> circle(vh::Rng& r, int n, i64 rad) {   // random convex-ish polygon from sorted directions
	std::vector<P> d; i64 sx = 0, sy = 0;
	for (int i = 0; i < n; i++) { d.push_back({r.in(-rad, rad), r.in(-rad, rad)}); sx += d.back().first; sy += d.back().second; }
	d.push_back({-sx, -sy});
	std::vector<P> e; for (auto& q : d) if (q != P(0, 0)) e.push_back(q);
	auto half = [](const P& a) { return a.second < 0 || (a.second == 0 && a.first < 0); };
	std::sort(e.begin(), e.end(), [&](const P& a, const P& b) { if (half(a) != half(b)) return half(a) < half(b); return a.first * b.second - a.second * b.first > 0; });
	std::vector<P> v; P cur{0, 0}; for (auto& q : e) { v.push_back(cur); cur.first += q.first; cur.second += q.second; }
	return v;
}
static std::vector<P> twoOpt(vh::Rng& r, int n, i64 w) {   // random simple polygon
	std::vector<P> v; for (int i = 0; i < n; i++) v.push_back({r.in(-w, w), r.in(-w, w)});
	std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
	for (std::size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
	n = int(v.size());
	for (int round = 0; round < 400; round++) {
		bool ch = false;
		for (int i = 0; i < n && !ch; i++) for (int j = i + 2; j < n && !ch; j++) {
			if (i == 0 && j == n - 1) continue;
			if (touch(v[std::size_t(i)], v[std::size_t(i) + 1], v[std::size_t(j)], v[std::size_t((j + 1) % n)])) { std::reverse(v.begin() + i + 1, v.begin() + j + 1); ch = true; }
		}
		if (!ch) break;
	}
	return v;
}
static std::vector<P> genPoly(vh::Rng& r, const char*& kind) {
	std::vector<P> v; int n; const i64 B = 0x3FFFFFFF;
	switch (r.below(12)) {
		case 0: n = int(r.in(0, 7)); { i64 w = r.in(1, 4); for (int i = 0; i < n; i++) v.push_back({r.in(0, w), r.in(0, w)}); } kind = "small grid"; break;
		case 1: v = circle(r, int(r.in(2, 12)), r.in(1, 6)); kind = "convex with collinear points"; break;
		case 2: v = circle(r, int(r.in(2, 8)), 20000000); kind = "large convex"; break;
		case 3: v = twoOpt(r, int(r.in(3, 14)), r.in(2, 9)); kind = "2-opt on grid"; break;
		case 4: v = twoOpt(r, int(r.in(4, 24)), B); kind = "2-opt huge coordinates"; break;
		case 5: { n = int(r.in(2, 8)); i64 s = r.pick({i64(1), i64(1000), i64(B / 40)}); int turns = n; P p{0, 0}; i64 len = 1; static const int dx[] = {1, 0, -1, 0}, dy[] = {0, 1, 0, -1};
			std::vector<P> outer, inner; for (int t = 0; t < turns * 2; t++) { outer.push_back({p.first * s, p.second * s}); p.first += dx[t % 4] * len; p.second += dy[t % 4] * len; len += 2; if (std::abs(p.first) > 19 || std::abs(p.second) > 19) break; }
			// thicken the spiral: walk back with offset
			v = outer; for (std::size_t i = outer.size(); i-- > 0;) v.push_back({outer[i].first + s / 2 + 1, outer[i].second + (i % 2 ? s / 3 : -(s / 3)) - 1}); kind = "spiral"; break; }
		case 6: { auto q = circle(r, int(r.in(3, 7)), r.in(1, 5)); v = q; for (auto& p : q) v.push_back(p); kind = "walked twice"; break; }
		case 7: v = circle(r, int(r.in(3, 8)), r.in(1, 6)); if (v.size() > 2) { std::size_t i = r.below(v.size()), j = r.below(v.size()); std::swap(v[i], v[j]); } kind = "convex with two swapped"; break;
		case 8: v = circle(r, int(r.in(3, 8)), r.in(1, 6)); if (!v.empty()) { std::size_t i = r.below(v.size()); switch (r.below(3)) { case 0: v[i].first += r.in(-2, 2); break; case 1: v.insert(v.begin() + std::ptrdiff_t(i), v[i]); break; default: v.insert(v.begin() + std::ptrdiff_t(i), v[r.below(v.size())]); } } kind = "perturbed convex"; break;
		case 9: { static const std::vector<P> spike = {{4, 0}, {2, 0}, {2, -2}, {5, -2}, {5, 5}, {0, 5}, {0, 0}}; v = spike; i64 s = r.in(1, 50); for (auto& p : v) p = {p.first * s + r.in(0, 0), p.second * s}; if (r.chance(1, 2)) v[r.below(v.size())].first += r.in(-s, s); kind = "self-overlapping left turns"; break; }
		case 10: { n = int(r.in(3, 9)); for (int i = 0; i < n; i++) v.push_back({r.pick({-B, B, i64(0), B - 1, 1 - B}), r.pick({-B, B, i64(0), B - 1, 1 - B})}); kind = "extreme corners"; break; }
		default: { v = twoOpt(r, int(r.in(4, 12)), r.in(3, 8)); if (v.size() > 3) { std::size_t i = r.below(v.size()), j = r.below(v.size()); const P &a = v[j], &b = v[(j + 1) % v.size()]; v[i] = r.chance(1, 2) ? a : P((a.first + b.first) / 2, (a.second + b.second) / 2); } kind = "touching"; }
	}
	if (!v.empty()) { std::rotate(v.begin(), v.begin() + std::ptrdiff_t(r.below(v.size())), v.end()); if (r.chance(1, 4)) std::reverse(v.begin(), v.end()); }
	if (r.chance(1, 5)) for (auto& p : v) std::swap(p.first, p.second);
	return v;
}
#if !defined(VH_ONLY) || VH_ONLY == 17
template<class T> static std::vector<T> conv(const std::vector<P>& v) { std::vector<T> r; for (auto& p : v) r.push_back(T{p.first, p.second}); return r; }
static void judge(vh::Ctx& c, const std::vector<P>& v) {
	bool wc = refConvex(v), ws = refStrict(v); std::string in = str(v); c.note(in);
	VCHECK(c, isConvex(v) == wc, "C17.isConvex", "isConvex " << in << " = " << !wc << " expected " << wc);
	VCHECK(c, isStrictlyConvex(v) == ws, "C17.isStrictlyConvex", "isStrictlyConvex " << in << " = " << !ws << " expected " << ws);
	c.ev(ws ? "strictly convex" : wc ? "convex with collinear" : "not convex");
	if (v.size() >= 3 && generic(v)) { bool w = refSimple(v); bool g = isSimple(v); VCHECK(c, g == w, "C17.isSimple", "isSimple " << in << " = " << g << " expected " << w); c.ev(w ? "simple" : "not simple"); }
	bool fits; int a = refArea(v, fits);
	if (v.size() >= 2 && fits) { bool g = isCCW(v); VCHECK(c, g == (a > 0), "C17.isCCW", "isCCW " << in << " = " << g << " area sign " << a); c.ev(a > 0 ? "ccw" : a < 0 ? "cw" : "zero area"); }
}
GROUP(C17, polygons, 40000, 1500000) {
	const char* kind = ""; auto v = genPoly(c.r, kind); for (auto& p : v) if (std::abs(p.first) > 0x3FFFFFFF || std::abs(p.second) > 0x3FFFFFFF) { c.trivial(); return; }
	if (v.size() < 3) c.trivial(); c.fp(str(v)); c.ev(kind); if (c.wantSample()) c.sample(std::string(kind) + " " + str(v));
	judge(c, v);
	if (v.size() >= 3) { std::rotate(v.begin(), v.begin() + 1, v.end()); judge(c, v); }
}
GROUP(C17, tiny, 60, 600) {     // fewer than three points are no polygon
	int n = int(c.idx % 3); std::vector<P> v; for (int i = 0; i < n; i++) v.push_back({c.r.in(-3, 3), c.r.in(-3, 3)}); if (n == 2 && c.r.chance(1, 3)) v[1] = v[0]; c.fp(str(v)); c.note(str(v));
	VCHECK(c, !isConvex(v) && !isStrictlyConvex(v) && !isSimple(v) && !isCCW(v), "C17.tiny", "polygon predicate true for " << str(v)); c.ev("tiny polygons");
}
GROUP(C17, pointTypes, 4000, 100000) {
	const char* kind = ""; auto v = genPoly(c.r, kind); for (auto& p : v) if (std::abs(p.first) > 0x3FFFFFFF || std::abs(p.second) > 0x3FFFFFFF) { c.trivial(); return; }
	c.fp(str(v)); c.note(str(v)); if (v.size() < 3) c.trivial();
	auto s = conv<PS>(v); auto z = conv<PC>(v); auto a = conv<PA>(v); bool wc = refConvex(v), ws = refStrict(v);
	VCHECK(c, isConvex(s) == wc && isConvex(z) == wc && isConvex(a) == wc && isConvex(v.begin(), v.end()) == wc, "C17.isConvex", "point types " << str(v));
	VCHECK(c, isStrictlyConvex(s) == ws && isStrictlyConvex(z) == ws && isStrictlyConvex(a.begin(), a.end()) == ws, "C17.isStrictlyConvex", "point types " << str(v));
	if (v.size() >= 3 && generic(v)) { bool w = refSimple(v); VCHECK(c, isSimple(s) == w && isSimple(z) == w && isSimple(v.begin(), v.end()) == w, "C17.isSimple", "point types " << str(v)); }
	bool fits; int ar = refArea(v, fits); if (v.size() >= 2 && fits) VCHECK(c, isCCW(s) == (ar > 0) && isCCW(z) == (ar > 0) && isCCW(a) == (ar > 0), "C17.isCCW", "point types " << str(v));
	c.ev("point types");
}
GROUP(C17, gridExhaustive, 243, 2187) {   // all quadrilaterals/pentagons on the 3x3 grid (thorough: all hexagons too)
	u64 base = c.idx < 243 ? c.idx : c.idx; int len = c.idx < 9 ? 4 : c.idx < 90 ? 5 : 6; u64 pre = c.idx < 9 ? c.idx : c.idx < 90 ? c.idx - 9 : (c.idx - 90) % 729; int fixed = c.idx < 9 ? 1 : c.idx < 90 ? 2 : 3; (void)base;
	if (c.idx >= 90 && !vh::G().thorough && c.idx % 8) { c.trivial(); return; }
	c.fp(c.idx); u64 tot = 1; for (int i = fixed; i < len; i++) tot *= 9;
	for (u64 m = 0; m < tot; m++) {
		std::vector<P> v; u64 q = pre; for (int i = 0; i < fixed; i++, q /= 9) v.push_back({i64(q % 9 / 3), i64(q % 9 % 3)}); q = m; for (int i = fixed; i < len; i++, q /= 9) v.push_back({i64(q % 9 / 3), i64(q % 9 % 3)});
		bool wc = refConvex(v); VCHECK(c, isConvex(v) == wc, "C17.isConvex", "isConvex " << str(v) << " expected " << wc);
		if (generic(v)) { bool w = refSimple(v); VCHECK(c, isSimple(v) == w, "C17.isSimple", "isSimple " << str(v) << " expected " << w); c.ev(w ? "grid simple" : "grid not simple"); }
		bool fits; int a = refArea(v, fits); VCHECK(c, isCCW(v) == (a > 0), "C17.isCCW", "isCCW " << str(v));
	}
}
GROUP(C17, spirals, 60, 2000) {    // large simple spirals: partial areas exceed the final area many times
	auto& r = c.r; int turns = int(r.in(2, 40)); const i64 B = 0x3FFFFFFF; i64 step = B / (4 * turns + 4); if (step < 4) return;
	std::vector<P> o, in; i64 rad = B; 
	for (int t = 0; t < turns; t++) { i64 nr = rad - 2 * step; o.push_back({rad, -rad + (t ? 2 * step : 0)}); o.push_back({rad, rad}); o.push_back({-rad, rad}); o.push_back({-rad, -rad}); o.push_back({nr, -rad}); 
		i64 q = rad - step; in.push_back({q, -q + (t ? 2 * step : step)}); in.push_back({q, q}); in.push_back({-q, q}); in.push_back({-q, -q}); in.push_back({q - 2 * step, -q}); rad = nr; }
	std::vector<P> v = o; std::reverse(in.begin(), in.end()); v.insert(v.end(), in.begin(), in.end());
	if (r.chance(1, 2)) std::reverse(v.begin(), v.end()); std::rotate(v.begin(), v.begin() + std::ptrdiff_t(r.below(v.size())), v.end());
	c.note(str(v)); c.fp(str(v)); bool fits; int a = refArea(v, fits);
	if (fits) { VCHECK(c, isCCW(v) == (a > 0), "C17.isCCW", "spiral isCCW " << str(v) << " sign " << a); c.ev("spirals"); }
}
GROUP(C17, bounds, 2000, 40000) {
	auto& r = c.r; const i64 B = 0x3FFFFFFF; std::vector<P> v = {{0, 0}, {B, 0}, {B, B}, {-B, B}}; i64 bad = r.chance(1, 3) ? B + 1 : r.chance(1, 2) ? -B - 1 : r.wild();
	bool isBad = bad > B || bad < -B; std::size_t k = r.below(4); (r.chance(1, 2) ? v[k].first : v[k].second) = bad; c.fp(str(v)); c.note(str(v));
	if (!isBad) { (void)isConvex(v); (void)isCCW(v); c.ev("in bounds"); return; }
	VCHECK(c, vh::throwsStd([&] { (void)isConvex(v); }), "C17.bounds", "isConvex accepts " << str(v));
	VCHECK(c, vh::throwsStd([&] { (void)isStrictlyConvex(v); }), "C17.bounds", "isStrictlyConvex accepts " << str(v));
	VCHECK(c, vh::throwsStd([&] { (void)isCCW(v); }), "C17.bounds", "isCCW accepts " << str(v));
	VCHECK(c, vh::throwsStd([&] { (void)isSimple(v); }), "C17.bounds", "isSimple accepts " << str(v)); c.ev("out of bounds rejected");
}
GROUP(C17, vectors, 6000, 100000) {
	auto& r = c.r; i64 B = r.pick({i64(10), i64(1) << 30}); P p{r.in(-B, B), r.in(-B, B)}, a{r.in(-B, B), r.in(-B, B)}, b{r.in(-B, B), r.in(-B, B)}; c.fp(str({p, a, b})); c.note(str({p, a, b}));
	i64 d = a.first * b.first + a.second * b.second, x = a.first * b.second - a.second * b.first, x3 = B > 100 ? 0 : crs(p, a, b);
	VCHECK(c, dot(a, b) == d && cross(a, b) == x, "C17.vector", "dot/cross " << str({a, b}));
	PC za(a.first, a.second), zb(b.first, b.second), zp(p.first, p.second); PS sa{a.first, a.second}, sb{b.first, b.second}, sp{p.first, p.second}; PA aa{a.first, a.second}, ab{b.first, b.second};
	VCHECK(c, dot(za, zb) == d && cross(za, zb) == x && dot(sa, sb) == d && cross(sa, sb) == x && dot(aa, ab) == d && cross(aa, ab) == x, "C17.vector", "dot/cross of other point types " << str({a, b}));
	if (B <= 100) VCHECK(c, cross(p, a, b) == x3 && cross(zp, za, zb) == x3 && cross(sp, sa, sb) == x3, "C17.vector", "3-point cross " << str({p, a, b}));
	VCHECK(c, getX(a) == a.first && getY(a) == a.second && getX(za) == a.first && getY(za) == a.second && getX(sa) == a.first && getY(sa) == a.second && getX(aa) == a.first && getY(aa) == a.second, "C17.accessors", "getX/getY");
	auto cz = convert(a); auto cp = convert(za); VCHECK(c, cz == za && cp == a, "C17.accessors", "convert " << str({a}));
	getX(za) = 5; getY(za) = 6; getX(sa) = 5; getY(sa) = 6; getX(a) = 5; getY(a) = 6; VCHECK(c, za == PC(5, 6) && sa.x == 5 && sa.y == 6 && a == P(5, 6), "C17.accessors", "assignment through getX/getY");
	std::tuple<Integer, Integer, Integer> t3{1, 2, 3}; struct S3 { int x, y, z; } s3{1, 2, 3}; VCHECK(c, getZ(t3) == 3 && getZ(s3) == 3, "C17.accessors", "getZ"); c.ev("vector operations");
}
#endif
#if !defined(VH_ONLY) || VH_ONLY == 22
static bool refConvexFast(const std::vector<P>& v) {   // for longer lists: left turns only, one full turn, no reversal
	std::size_t n = v.size(); if (n < 3) return false; int changes = 0; bool area = false;
	auto up = [&](std::size_t i) { return v[i % n] < v[(i + 1) % n]; };
	for (std::size_t i = 0; i < n; i++) { if (v[i] == v[(i + 1) % n]) return false; i64 s = crs(v[i], v[(i + 1) % n], v[(i + 2) % n]); if (s < 0) return false; if (s) area = true; changes += up(i) != up(i + 1); }
	return area && changes == 2;
}
GROUP(C22, convex, 6000, 250000) {
	auto& r = c.r; i64 dim, n;
	switch (r.below(9)) {
		case 5: n = r.in(40, 400); dim = r.in((n + 3) / 4, n); break;                       // crowded: many steps of length 0
		case 6: n = r.in(12, 80); dim = r.in((n + 3) / 4, n); break;
		case 7: if (r.chance(1, 10)) { n = r.in(500, 4000); dim = r.in(n / 2, r.chance(1, 2) ? 4 * n : 0x3FFFFFFF); break; } [[fallthrough]];
		case 0: dim = r.in(2, 4); n = r.in(3, 8 * dim - 8); if (dim >= 4) n = std::min<i64>(n, 20); break;
		case 1: dim = r.in(2, 12); n = r.in(3, std::min<i64>(8 * dim - 8, 3 * dim)); break;
		case 2: dim = 0x3FFFFFFF - r.in(0, 3); n = r.in(3, 60); break;
		case 3: dim = r.in(20, 1000); n = r.in(3, 2 * dim > 300 ? 300 : 2 * dim); break;
		default: dim = r.in(4, 1ll << int(r.in(3, 30))); if (dim > 0x3FFFFFFF) dim = 0x3FFFFFFF; n = r.in(3, std::min<i64>(2 * dim, 60));
	}
	u64 seed = r.next(); Random::seed(seed); std::string in = "seed " + std::to_string(seed) + " convex(" + std::to_string(n) + "," + std::to_string(dim) + ")"; c.note(in); c.fp(in); if (c.wantSample()) c.sample(in);
	std::vector<P> v;
	if (r.chance(1, 5)) { for (auto& q : Random::convex<PC>(n, dim)) v.push_back({q.real(), q.imag()}); } else if (r.chance(1, 4)) { for (auto& q : Random::convex<PS>(n, dim)) v.push_back({q.x, q.y}); } else v = Random::convex(n, dim);
	VCHECK(c, i64(v.size()) == n, "C22.convex", in << " gave " << v.size() << " points");
	i64 x0 = INT64_MAX, x1 = INT64_MIN, y0 = INT64_MAX, y1 = INT64_MIN; for (auto& p : v) x0 = std::min(x0, p.first), x1 = std::max(x1, p.first), y0 = std::min(y0, p.second), y1 = std::max(y1, p.second);
	VCHECK(c, x0 > -dim && x1 < dim && y0 > -dim && y1 < dim, "C22.convex", in << " leaves (-dim,dim): " << str(v).substr(0, 600));
	VCHECK(c, x1 - x0 == 2 * dim - 2 && y1 - y0 == 2 * dim - 2, "C22.convex", in << " does not fill width/height: " << str(v).substr(0, 600));
	VCHECK(c, v.size() <= 40 ? refConvex(v) : refConvexFast(v), "C22.convex", in << " is not a ccw convex polygon: " << str(v).substr(0, 600));
	std::set<P> st(v.begin(), v.end()); VCHECK(c, st.size() == v.size(), "C22.convex", in << " repeats points");
	c.ev(generic(v) ? "strictly convex polygon" : "polygon with collinear points");
}
GROUP(C22, nonCollinear, 20000, 800000) {
	auto& r = c.r; i64 dim, n;
	switch (r.below(6)) {
		case 3: if (r.chance(1, 20)) { dim = r.in(60, 160); n = dim - 1 - r.in(0, 3); break; } [[fallthrough]];
		case 0: dim = r.in(1, 6); n = r.in(0, dim - 1); break;
		case 1: dim = r.in(2, 40); n = dim - 1 - r.in(0, 1); break;
		case 2: dim = 0x1FFFFFFF - r.in(0, 3); n = r.in(0, 30); break;
		default: dim = r.in(1, 1ll << int(r.in(2, 29))); if (dim > 0x1FFFFFFF) dim = 0x1FFFFFFF; n = r.in(0, std::min<i64>(dim - 1, 30));
	}
	u64 seed = r.next(); Random::seed(seed); std::string in = "seed " + std::to_string(seed) + " nonCollinearPoints(" + std::to_string(n) + "," + std::to_string(dim) + ")"; c.note(in); c.fp(in); if (n < 1) c.trivial(); if (c.wantSample()) c.sample(in);
	std::vector<P> v;
	try { if (r.chance(1, 5)) { for (auto& q : Random::nonCollinearPoints<PC>(n, dim)) v.push_back({q.real(), q.imag()}); } else v = Random::nonCollinearPoints(n, dim); }
	catch (const std::exception& e) { VFAIL(c, "C22.nonCollinear-throws", in << " rejected: " << e.what()); }
	VCHECK(c, i64(v.size()) == n, "C22.nonCollinear", in << " gave " << v.size() << " points");
	for (auto& p : v) VCHECK(c, p.first > -dim && p.first < dim && p.second > -dim && p.second < dim, "C22.nonCollinear", in << " point outside: " << str({p}));
	std::set<P> st(v.begin(), v.end()); VCHECK(c, st.size() == v.size(), "C22.nonCollinear-distinct", in << " repeats points: " << str(v));
	for (std::size_t i = 0; i < v.size(); i++) for (std::size_t j = 0; j < i; j++) for (std::size_t k = 0; k < j; k++) VCHECK(c, crs(v[i], v[j], v[k]) != 0, "C22.nonCollinear", in << " collinear: " << str({v[i], v[j], v[k]}));
	c.ev("point sets", 1); c.ev("triples checked", v.size() * (v.size() + 1) * (v.size() + 2) / 6);
}
GROUP(C22, reject, 600, 10000) {
	auto& r = c.r; Random::seed(r.next()); i64 dim = r.in(2, 1000), n;
	auto bad = [&](i64 n_, i64 d) { VCHECK(c, vh::throwsStd([&] { (void)Random::convex(n_, d); }), "C22.reject", "convex(" << n_ << "," << d << ") accepted"); c.fp(u64(n_)); c.fp(u64(d)); };
	auto bad2 = [&](i64 n_, i64 d) { VCHECK(c, vh::throwsStd([&] { (void)Random::nonCollinearPoints(n_, d); }), "C22.reject", "nonCollinearPoints(" << n_ << "," << d << ") accepted"); };
	n = r.in(-5, 2); bad(n, dim); bad(8 * dim - 7 + r.in(0, 5), dim); bad(5, r.in(-5, 1)); bad(5, 0x40000000 + r.in(0, 5)); bad(r.in(3, 9), INT64_MIN); bad(4, INT64_MAX);
	bad2(dim + r.in(0, 3), dim); bad2(-1 - r.in(0, 9), dim); bad2(3, 0x20000000 + r.in(0, 9)); bad2(0, 0); bad2(0, -5); bad2(1, INT64_MIN); c.ev("rejected requests", 12);
}
#endif
VHV_MAIN
