// C23 (container), C24 (transformations), C25 (families), C26 (random graphs) of graph_gen.h
#include "vhv.h"
#include "graph_gen.h"
using namespace vh;
#ifndef VH_ONLY
#define VH_ONLY 0
#endif
#define ON(n) (VH_ONLY == 0 || VH_ONLY == n)
using PII = std::pair<Integer, Integer>;

template<class E> std::string val(const E& e) {
	if constexpr (std::is_same_v<E, NoData>) return "";
	else if constexpr (std::is_same_v<E, std::string>) return e;
	else if constexpr (std::is_same_v<E, std::pair<Integer, Integer>>) return std::to_string(e.first) + "/" + std::to_string(e.second);
	else return std::to_string(e);
}
template<class E> E fresh(Rng& r) {
	static Integer ctr = 0; ctr++;
	if constexpr (std::is_same_v<E, NoData>) return {};
	else if constexpr (std::is_same_v<E, std::string>) return "e" + std::to_string(ctr) + std::string(r.below(30), 'x');
	else return ctr * 1000 + Integer(r.below(1000));
}
template<class E> constexpr bool hasData = !std::is_same_v<E, NoData>;

// abstract simple (di)graph
struct M {
	bool dir; Integer lo = 0, n = 0;
	std::map<PII, std::string> e;
	explicit M(bool d = false, Integer l = 0, Integer k = 0) : dir(d), lo(l), n(k) {}
	PII key(Integer a, Integer b) const { return dir || a < b ? PII(a, b) : PII(b, a); }
	bool has(Integer a, Integer b) const { return e.count(key(a, b)) > 0; }
	void add(Integer a, Integer b, std::string v = "") { e[key(a, b)] = std::move(v); }
	bool ok(Integer x) const { return x >= lo && x < lo + n; }
	std::string str() const {
		std::ostringstream os; os << (dir ? "di" : "un") << "[" << lo << "," << lo + n << "){";
		for (auto& [k, v] : e) os << k.first << "-" << k.second << (v.empty() ? "" : ":" + v) << " ";
		os << "}"; return os.str();
	}
};

template<class G> constexpr bool isDir = false;
template<class E> constexpr bool isDir<DiGraph<E>> = true;

// the complete observable state of a graph equals the model
template<class E, bool DIR> void expect(Ctx& c, const GraphDetail::GraphType<E, DIR>& g, const M& m, const std::string& key, const std::string& what, bool full = true) {
	auto bad = [&](const std::string& s) { VFAIL(c, key, what << ": " << s << "; expected " << m.str().substr(0, 600)); };
	if (g.nodeCount() != m.n || g.size() != std::size_t(m.n)) bad("vertex count " + std::to_string(g.nodeCount()));
	if (g.edgeCount() != Integer(m.e.size())) bad("edge count " + std::to_string(g.edgeCount()));
	if (g.getMinId() != m.lo || g.getNextId() != m.lo + m.n) bad("id range [" + std::to_string(g.getMinId()) + "," + std::to_string(g.getNextId()) + ")");
	std::set<PII> seen;
	for (const auto& e : g.getEdges()) {
		PII k = m.key(e.from, e.to);
		if (!seen.insert(k).second) bad("edge listed twice " + std::to_string(e.from) + " " + std::to_string(e.to));
		auto it = m.e.find(k);
		if (it == m.e.end()) bad("unexpected edge " + std::to_string(e.from) + " " + std::to_string(e.to));
		if constexpr (hasData<E>) if (val<E>(*e) != it->second) bad("data of edge " + std::to_string(e.from) + " " + std::to_string(e.to) + " is " + val<E>(*e));
	}
	if (seen.size() != m.e.size()) bad("edges listed: " + std::to_string(seen.size()));
	std::map<Integer, std::map<Integer, std::string>> adj;
	for (auto& [k, v] : m.e) { adj[k.first][k.second] = v; if (!DIR) adj[k.second][k.first] = v; }
	Integer idx = 0;
	for (auto d : g.getDegrees()) {
		if (Integer(d) != Integer(adj[m.lo + idx].size())) bad("degree view of " + std::to_string(m.lo + idx) + " is " + std::to_string(d));
		idx++;
	}
	if (idx != m.n) bad("degree view has " + std::to_string(idx) + " entries");
	for (Integer v = m.lo; v < m.lo + m.n; v++) {
		auto& a = adj[v];
		if (g.degree(v) != Integer(a.size())) bad("degree of " + std::to_string(v) + " is " + std::to_string(g.degree(v)));
		std::set<Integer> s;
		for (const auto& e : g[v]) {
			if (e.from != v || !s.insert(e.to).second || !a.count(e.to)) bad("adjacency of " + std::to_string(v) + " lists " + std::to_string(e.from) + " " + std::to_string(e.to));
			if constexpr (hasData<E>) if (val<E>(*e) != a[e.to]) bad("adjacent data of " + std::to_string(e.from) + " " + std::to_string(e.to) + " is " + val<E>(*e));
		}
		if (s.size() != a.size()) bad("adjacency of " + std::to_string(v) + " has " + std::to_string(s.size()) + " entries");
	}
	c.ev("graph states compared"); c.ev("edges compared", m.e.size());
	if (!full) return;
	for (std::size_t i = 0; i < m.e.size(); i++) {
		auto e = g.getEdgeById(i);
		seen.erase(m.key(e.from, e.to));
	}
	if (!seen.empty()) bad("getEdgeById does not enumerate the edges");
	auto pairCheck = [&](Integer a, Integer b) {
		bool want = a != b && m.has(a, b);
		if (g.hasEdge(a, b) != want) bad("hasEdge(" + std::to_string(a) + "," + std::to_string(b) + ") is " + std::to_string(!want));
		auto f = g.findEdge(a, b);
		if (f.has_value() != want) bad("findEdge(" + std::to_string(a) + "," + std::to_string(b) + ")");
		if (want) {
			if (f->from != a || f->to != b) bad("findEdge returns another edge");
			if constexpr (hasData<E>) if (val<E>(**f) != m.e.at(m.key(a, b))) bad("findEdge(" + std::to_string(a) + "," + std::to_string(b) + ") has data " + val<E>(**f));
		}
		c.ev("lookups compared");
	};
	if (m.n <= 9) { for (Integer a = m.lo; a < m.lo + m.n; a++) for (Integer b = m.lo; b < m.lo + m.n; b++) pairCheck(a, b); }
	else for (int i = 0; i < 40; i++) pairCheck(m.lo + c.r.below(m.n), m.lo + c.r.below(m.n));
	if (m.n > 9 && !m.e.empty()) {
		std::vector<PII> some; std::size_t step = 1 + m.e.size() / 30, at = 0, first = c.r.below(step);
		for (auto& [e, v] : m.e) if (at++ % step == first) some.push_back(e);
		for (auto [a, b] : some) { pairCheck(a, b); pairCheck(b, a); }
	}
	// printed form
	std::ostringstream o1, o2; OutputStream os(o2);
	o1 << g; os << g;
	for (std::string text : {o1.str(), o2.str()}) {
		std::istringstream is(text); std::string line; std::getline(is, line);
		if (line != std::to_string(m.n) + " " + std::to_string(m.e.size())) bad("printed header '" + line + "'");
		std::set<PII> pr; std::size_t lines = 0;
		while (std::getline(is, line)) {
			lines++;
			std::istringstream ls(line); Integer a, b; std::string v; char sp;
			ls >> a >> b; if (hasData<E>) { ls.get(sp); std::getline(ls, v); }
			std::string again = std::to_string(a) + " " + std::to_string(b) + (hasData<E> ? " " + v : "");
			if (again != line) bad("printed line '" + line + "'");
			auto it = m.e.find(m.key(a, b));
			if (it == m.e.end() || !pr.insert(it->first).second) bad("printed edge '" + line + "'");
			if constexpr (hasData<E>) if (it->second != v) bad("printed data '" + line + "'");
		}
		if (lines != m.e.size() || (!text.empty() && text.back() == '\n')) bad("printed " + std::to_string(lines) + " edges");
	}
}

// model of whatever the graph lists (used after operations whose result is only specified up to a choice)
template<class E, bool DIR> M readBack(const GraphDetail::GraphType<E, DIR>& g) {
	M m(DIR, g.getMinId(), g.nodeCount());
	for (const auto& e : g.getEdges()) { if constexpr (hasData<E>) m.add(e.from, e.to, val<E>(*e)); else m.add(e.from, e.to); }
	return m;
}

inline bool isomorphic(const M& a, const M& b) {
	if (a.n != b.n || a.e.size() != b.e.size() || a.lo != b.lo) return false;
	int n = int(a.n);
	auto mat = [&](const M& m) {
		std::vector<std::vector<std::string>> r(n, std::vector<std::string>(n, "-"));
		for (auto& [k, v] : m.e) { r[k.first - m.lo][k.second - m.lo] = "+" + v; if (!m.dir) r[k.second - m.lo][k.first - m.lo] = "+" + v; }
		return r;
	};
	auto A = mat(a), B = mat(b);
	auto sig = [&](const auto& X, int v) { std::vector<std::string> s; for (int w = 0; w < n; w++) { s.push_back("o" + X[v][w]); s.push_back("i" + X[w][v]); } std::sort(s.begin(), s.end()); return s; };
	std::vector<std::vector<std::string>> sa, sb;
	for (int v = 0; v < n; v++) { sa.push_back(sig(A, v)); sb.push_back(sig(B, v)); }
	std::vector<int> map(n, -1); std::vector<char> used(n);
	auto rec = [&](auto&& self, int v) -> bool {
		if (v == n) return true;
		for (int w = 0; w < n; w++) if (!used[w] && sa[v] == sb[w]) {
			bool ok = true;
			for (int u = 0; u < v && ok; u++) ok = A[u][v] == B[map[u]][w] && A[v][u] == B[w][map[u]];
			if (!ok) continue;
			map[v] = w; used[w] = 1;
			if (self(self, v + 1)) return true;
			used[w] = 0;
		}
		return false;
	};
	return rec(rec, 0);
}

// necessary for isomorphism (colour refinement, data included): used where the search above would be too slow
inline std::multiset<u64> refined(const M& m) {
	std::vector<u64> col(m.n, 1); std::vector<std::tuple<Integer, Integer, u64>> es; for (auto& [e, v] : m.e) es.emplace_back(e.first - m.lo, e.second - m.lo, hashStr(v));
	for (int r = 0; r < 8; r++) {
		std::vector<u64> nx(m.n); for (Integer i = 0; i < m.n; i++) nx[i] = mix(col[i] + 77);
		for (auto [a, b, h] : es) { nx[a] += mix(mix(col[b] ^ h) + 1); nx[b] += mix(mix(col[a] ^ h) + (m.dir ? 2 : 1)); }
		col = nx;
	}
	return {col.begin(), col.end()};
}

template<class E, bool DIR> std::pair<GraphDetail::GraphType<E, DIR>, M> randomPair(Ctx& c, Integer maxN, Integer lo, int density = -1) {
	Integer n = c.r.size(int(maxN));
	GraphDetail::GraphType<E, DIR> g(lo, lo + n); M m(DIR, lo, n);
	Integer tries = density >= 0 ? density : Integer(c.r.below(n * n + 1));
	for (Integer i = 0; i < tries && n > 1; i++) {
		Integer a = lo + c.r.below(n), b = lo + c.r.below(n);
		if (a == b) continue;
		E v = fresh<E>(c.r);
		g.addEdge(a, b, v); m.add(a, b, val<E>(v));
	}
	return {std::move(g), std::move(m)};
}

inline Integer someId(Ctx& c) { return c.r.pick<Integer>({0, 0, 1, 1, 5, -3, -1000000, 1000000007, 1ll << 40, -(1ll << 40), Integer(c.r.in(-20, 20))}); }

//============================================================================//
#if ON(23)
template<class E, bool DIR> void history(Ctx& c) {
	using G = GraphDetail::GraphType<E, DIR>;
	constexpr int S = 3;
	std::vector<G> g; std::vector<M> m; std::string log;
	Integer maxN = c.r.pick<Integer>({3, 6, 6, 6, 12});
	for (int i = 0; i < S; i++) {
		if (c.r.chance(1, 4)) { Integer n = c.r.below(maxN + 1); g.emplace_back(n); m.emplace_back(DIR, 0, n); }
		else { Integer lo = c.r.chance(1, 3) ? 0 : someId(c), n = c.r.below(maxN + 1); g.emplace_back(lo, lo + n); m.emplace_back(DIR, lo, n); }
	}
	int steps = 4 + int(c.r.below(c.thorough() ? 60 : 26));
	int bias = int(c.r.below(3));
	for (int s = 0; s < steps; s++) {
		int i = int(c.r.below(S)), j = int(c.r.below(S));
		if (bias == 0) i = 0;
		G& a = g[i]; M& b = m[i];
		std::ostringstream op; op << "g" << i << ".";
		auto id = [&] { return b.n ? b.lo + Integer(c.r.below(b.n)) : b.lo; };
		auto mustThrow = [&](auto&& f) { VCHECK(c, throwsStd(f), "C23.invalid", log << op.str() << " did not throw"); c.ev("rejected operations"); };
		int k = int(c.r.below(30));
		if (k < 9) {
			Integer x = id(), y = id();
			if (!b.ok(x) || x == y) { op << "addEdge(" << x << "," << y << ")"; mustThrow([&] { a.addEdge(x, y); }); }
			else {
				E v = fresh<E>(c.r); op << "addEdge(" << x << "," << y << "," << val<E>(v) << ")";
				bool def = hasData<E> && c.r.chance(1, 8);
				auto e = def ? a.addEdge(x, y) : a.addEdge(x, y, v);
				if (def) v = E{};
				b.add(x, y, val<E>(v));
				VCHECK(c, e.from == x && e.to == y, "C23.return", op.str() << " returned edge " << e.from << " " << e.to);
				if constexpr (hasData<E>) if (c.r.chance(1, 4)) { E w = fresh<E>(c.r); *e = w; b.add(x, y, val<E>(w)); op << " then *e=" << val<E>(w); }
			}
		} else if (k < 13) {
			Integer x = id(), y = id();
			if (!b.e.empty() && c.r.chance(2, 3)) { auto it = b.e.begin(); std::advance(it, c.r.below(b.e.size())); x = it->first.first; y = it->first.second; if (!DIR && c.r.chance(1, 2)) std::swap(x, y); }
			op << "eraseEdge(" << x << "," << y << ")";
			if (!b.ok(x)) mustThrow([&] { a.eraseEdge(x, y); });
			else {
				bool want = x != y && b.has(x, y), got;
				auto e = a.findEdge(x, y);
				if (e && c.r.chance(1, 2)) got = a.eraseEdge(*e); else got = a.eraseEdge(x, y);
				VCHECK(c, got == want, "C23.erase", log << op.str() << " returned " << got);
				if (want) b.e.erase(b.key(x, y));
			}
		} else if (k == 13) { op << "=g" << j; a = g[j]; m[i] = m[j]; }
		else if (k == 14) { op << "copy of g" << j; a = G(g[j]); M t = m[j]; m[i] = t; }
		else if (k == 15) { op << "copy()"; G t = a.copy(); if (b.n > 1) { t.addEdge(b.lo, b.lo + 1, fresh<E>(c.r)); t.eraseEdge(b.lo, b.lo + 1); } t.setMinId(77); }
		else if (k == 16) {
			Integer l = someId(c); op << "setMinId(" << l << ")";
			G* r = nullptr;
			if (c.r.chance(1, 4)) { l = 0; r = &a.normalize(); } else r = &a.setMinId(l);
			VCHECK(c, r == &a, "C23.return", op.str() << " must return the graph itself");
			M t(DIR, l, b.n); for (auto& [e, v] : b.e) t.add(e.first - b.lo + l, e.second - b.lo + l, v);
			b = t;
		} else if (k <= 18) {
			if (b.n > 40 || m[j].n > 40 || std::llabs(b.lo - m[j].lo) > 60) {
				op << "skip"; c.ev("skipped");
			} else {
				op << "combine(g" << j << ")";
				VCHECK(c, &a.combine(g[j]) == &a, "C23.return", op.str() << " must return the graph itself");
				Integer lo = std::min(b.lo, m[j].lo), hi = std::max(b.lo + b.n, m[j].lo + m[j].n);
				M t(DIR, lo, hi - lo); t.e = b.e; for (auto& [e, v] : m[j].e) t.add(e.first, e.second, v);
				b = t;
			}
		} else if (k <= 20) {
			if (b.n + m[j].n > 60) op << "skip";
			else {
				op << "append(g" << j << ")";
				VCHECK(c, &a.append(g[j]) == &a, "C23.return", op.str() << " must return the graph itself");
				Integer diff = b.lo + b.n - m[j].lo; M o = m[j];
				for (auto& [e, v] : o.e) b.add(e.first + diff, e.second + diff, v);
				b.n += o.n;
			}
		} else if (k == 21) {
			op << "permutateEdges()"; a.permutateEdges();
		} else if (k == 22) {
			op << "permutate()";
			a.permutate();
			M t = readBack(a);
			if (b.n <= 7) { VCHECK(c, isomorphic(b, t), "C23.permutate", log << op.str() << ": " << b.str() << " became " << t.str()); c.ev("isomorphisms verified"); }
			else { VCHECK(c, t.n == b.n && t.lo == b.lo && t.e.size() == b.e.size() && refined(b) == refined(t), "C23.permutate", log << op.str() << ": " << b.str() << " became " << t.str()); c.ev("isomorphisms refined"); }
			b = t;
		} else if (k == 23) {
			std::vector<Integer> p(b.n); std::iota(p.begin(), p.end(), b.lo);
			for (std::size_t x = p.size(); x > 1; x--) std::swap(p[x - 1], p[c.r.below(x)]);
			int breakIt = b.n ? int(c.r.below(6)) : 5;
			if (breakIt == 0) p.pop_back(); else if (breakIt == 1) p.push_back(b.lo + b.n); else if (breakIt == 2) p[c.r.below(p.size())] = b.lo - 1;
			op << "permutate(" << show(p) << ")";
			if (breakIt < 2) mustThrow([&] { a.permutate(p); });
			else if (breakIt == 2) mustThrow([&] { a.permutate(p); });
			else {
				a.permutate(p);
				M t(DIR, b.lo, b.n); for (auto& [e, v] : b.e) t.add(p[e.first - b.lo], p[e.second - b.lo], v);
				b = t;
			}
		} else if (k == 24) {
			Integer x = c.r.in(-1, Integer(b.e.size()) + 2); op << "subgraph(" << x << ") of g" << j;
			x = std::min<Integer>(x, Integer(m[j].e.size()) + 1);
			if (x < 0) { mustThrow([&] { a = g[j].subgraph(x); }); }
			else {
				G t = g[j].subgraph(x);
				M r = readBack(t);
				VCHECK(c, r.n == m[j].n && r.lo == m[j].lo && Integer(r.e.size()) == std::min<Integer>(x, m[j].e.size()) && t.edgeCount() == Integer(r.e.size()), "C23.subgraph", log << op.str() << ": " << r.str() << " from " << m[j].str());
				for (auto& [e, v] : r.e) { auto it = m[j].e.find(e); VCHECK(c, it != m[j].e.end() && it->second == v, "C23.subgraph", log << op.str() << ": " << r.str() << " from " << m[j].str()); }
				a = t; m[i] = r;
			}
		} else if (k == 25) {
			Integer f = m[j].lo + c.r.in(-2, m[j].n + 2), t = f + c.r.in(-1, m[j].n + 2);
			op << "range(" << f << "," << t << ") of g" << j;
			if (f > t) mustThrow([&] { (void)g[j].range(f, t); });
			else {
				M r(DIR, f, t - f);
				for (auto& [e, v] : m[j].e) if (r.ok(e.first) && r.ok(e.second)) r.add(e.first, e.second, v);
				G x = g[j].range(f, t);
				a = x; m[i] = r;
			}
		} else if (k == 26) {
			if constexpr (hasData<E>) {
				if (!b.e.empty()) {
					auto it = b.e.begin(); std::advance(it, c.r.below(b.e.size()));
					Integer x = it->first.first, y = it->first.second; if (!DIR && c.r.chance(1, 2)) std::swap(x, y);
					E v = fresh<E>(c.r); int way = int(c.r.below(4));
					op << "write data of " << x << " " << y << " via way " << way;
					if (way == 0) a.findEdge(x, y)->data = v;
					else if (way == 1) { for (auto e : a[x]) if (e.to == y) *e = v; }
					else if (way == 2) { for (auto e : a.getEdges()) if (b.key(e.from, e.to) == it->first) e.data = v; }
					else { for (Integer q = 0; q < a.edgeCount(); q++) { auto e = a.getEdgeById(q); if (b.key(e.from, e.to) == it->first) *e = v; } }
					it->second = val<E>(v);
				}
			}
		} else {
			Integer x = c.r.chance(1, 2) ? b.lo - 1 - Integer(c.r.below(3)) : b.lo + b.n + Integer(c.r.below(3)), y = id();
			if (c.r.chance(1, 8)) x = c.r.pick<Integer>({b.lo + (1ll << 33), b.lo - (1ll << 33)});
			bool sw = c.r.chance(1, 2);
			Integer p = sw ? y : x, q = sw ? x : y; int way = int(c.r.below(9));
			const G& ca = a;
			op << "invalid access " << way << " (" << p << "," << q << ")";
			mustThrow([&] {
				switch (way) {
					case 0: a.addEdge(p, q, fresh<E>(c.r)); break;
					case 1: a.eraseEdge(p, q); break;
					case 2: (void)a.hasEdge(p, q); break;
					case 3: (void)a.findEdge(p, q); break;
					case 4: (void)ca.findEdge(p, q); break;
					case 5: (void)a.degree(x); break;
					case 6: (void)a[x]; break;
					case 7: (void)ca[x]; break;
					default: if (sw) (void)a.getEdgeById(b.e.size() + c.r.below(3)); else (void)ca.getEdgeById(b.e.size() + c.r.below(3));
				}
			});
		}
		log += op.str() + "; "; c.fp(op.str()); c.note(log.size() > 3000 ? log.substr(log.size() - 3000) : log);
		c.ev("operations");
		for (int q = 0; q < S; q++) expect<E, DIR>(c, g[q], m[q], "C23.state", "after " + log + " g" + std::to_string(q), q == i || c.r.chance(1, 4));
	}
	if (c.wantSample()) c.sample(log);
}
GROUP(C23, none, 1500, 60000) { Random::seed(Integer(c.r.next() >> 1)); history<NoData, false>(c); }
GROUP(C23, noneDir, 1500, 60000) { Random::seed(Integer(c.r.next() >> 1)); history<NoData, true>(c); }
GROUP(C23, integer, 1200, 60000) { Random::seed(Integer(c.r.next() >> 1)); history<Integer, false>(c); }
GROUP(C23, integerDir, 1200, 60000) { Random::seed(Integer(c.r.next() >> 1)); history<Integer, true>(c); }
#if !defined(__clang__) && !defined(__i386__)
GROUP(C23, text, 800, 40000) { Random::seed(Integer(c.r.next() >> 1)); history<std::string, false>(c); }
GROUP(C23, textDir, 800, 40000) { Random::seed(Integer(c.r.next() >> 1)); history<std::string, true>(c); }
#endif

// larger graphs: every observer after long random add/erase histories
GROUP(C23, large, 24, 2000) {
	Random::seed(Integer(c.r.next() >> 1));
	Integer lo = someId(c), n = 20 + Integer(c.r.below(100));
	DiGraph<Integer> d(lo, lo + n); Graph<std::string> u(lo, lo + n); M md(true, lo, n), mu(false, lo, n);
	int steps = int(c.r.below(2500));
	for (int i = 0; i < steps; i++) {
		Integer a = lo + c.r.below(n), b = lo + c.r.below(n); if (a == b) continue;
		if (c.r.chance(2, 5)) { bool x = d.eraseEdge(a, b), y = u.eraseEdge(a, b); VCHECK(c, x == (md.e.erase({a, b}) > 0) && y == (mu.e.erase(mu.key(a, b)) > 0), "C23.erase", "erase returned wrong value"); }
		else { Integer v = i; d.addEdge(a, b, v); md.add(a, b, std::to_string(v)); u.addEdge(a, b, "s" + std::to_string(v)); mu.add(a, b, "s" + std::to_string(v)); }
	}
	c.fp(u64(n)); c.fp(u64(steps)); c.ev("operations", steps);
	expect(c, d, md, "C23.state", "large directed"); expect(c, u, mu, "C23.state", "large undirected");
	auto d2 = d; d2.permutateEdges(); expect(c, d2, md, "C23.state", "permutateEdges copy"); expect(c, d, md, "C23.state", "source of the copy");
	auto s = u.subgraph(u.edgeCount() / 2); M ms = readBack(s);
	VCHECK(c, Integer(ms.e.size()) == u.edgeCount() / 2, "C23.subgraph", "wrong number of edges");
	for (auto& [e, v] : ms.e) VCHECK(c, mu.e.count(e) && mu.e[e] == v, "C23.subgraph", "edge not in source");
	expect(c, s, ms, "C23.state", "subgraph");
}

// few operations on graphs with hundreds of vertices and thousands of edges (hubs, dense parts, long erase phases)
template<class E, bool DIR> void big(Ctx& c) {
	using G = GraphDetail::GraphType<E, DIR>;
	Random::seed(Integer(c.r.next() >> 1));
	Integer lo = someId(c), n = 30 + c.r.border(700); G g(lo, lo + n); M m(DIR, lo, n); std::string log = std::to_string(n) + " vertices";
	auto id = [&] { return m.lo + Integer(c.r.below(m.n)); };
	auto put = [&](Integer a, Integer b) { if (a == b) return; E v = fresh<E>(c.r); g.addEdge(a, b, v); m.add(a, b, val<E>(v)); };
	auto state = [&](const std::string& w) { log += "; " + w; c.fp(w); c.note(log); expect<E, DIR>(c, g, m, "C23.state", log); c.ev("operations"); };
	for (int s = 0; s < 8; s++) {
		if (m.n > 4000) break;
		int k = int(c.r.below(10));
		if (k == 0) { Integer t = c.r.border(3000); for (Integer i = 0; i < t; i++) put(id(), id()); state(std::to_string(t) + " random edges"); }
		else if (k == 1) { Integer h = id(); for (Integer i = 0; i < m.n; i++) if (c.r.chance(5, 6)) { if (c.r.chance(1, 2)) put(h, m.lo + i); else put(m.lo + i, h); } state("hub " + std::to_string(h)); }
		else if (k == 2) { Integer f = c.r.below(m.n), w = std::min<Integer>(m.n - f, 60); for (Integer i = 0; i < w; i++) for (Integer j = 0; j < w; j++) if (c.r.chance(3, 4)) put(m.lo + f + i, m.lo + f + j); state("dense part at " + std::to_string(m.lo + f)); }
		else if (k == 3) {   // erase in random order
			std::vector<PII> es; for (auto& [e, v] : m.e) es.push_back(e); for (std::size_t i = es.size(); i > 1; i--) std::swap(es[i - 1], es[c.r.below(i)]);
			std::size_t t = c.r.chance(1, 4) ? es.size() : c.r.below(es.size() + 1);
			for (std::size_t i = 0; i < t; i++) { auto [a, b] = es[i]; if (!DIR && c.r.chance(1, 2)) std::swap(a, b); VCHECK(c, g.eraseEdge(a, b) && !g.eraseEdge(a, b), "C23.erase", log << ": erasing " << a << " " << b); m.e.erase(m.key(a, b)); }
			state("erased " + std::to_string(t));
		} else if (k == 4) {
			std::vector<Integer> p(m.n); std::iota(p.begin(), p.end(), m.lo); for (std::size_t x = p.size(); x > 1; x--) std::swap(p[x - 1], p[c.r.below(x)]);
			g.permutate(p); M t(DIR, m.lo, m.n); for (auto& [e, v] : m.e) t.add(p[e.first - m.lo], p[e.second - m.lo], v); m = t; state("permutate(p)");
		} else if (k == 5) { g.permutate(); M t = readBack(g); VCHECK(c, t.n == m.n && t.lo == m.lo && t.e.size() == m.e.size() && refined(m) == refined(t), "C23.permutate", log << ": permutate() gives a graph that is not isomorphic"); m = t; state("permutate()"); }
		else if (k == 6) { Integer l = c.r.chance(1, 2) ? someId(c) : m.lo + 1; g.setMinId(l); M t(DIR, l, m.n); for (auto& [e, v] : m.e) t.add(e.first - m.lo + l, e.second - m.lo + l, v); m = t; state("setMinId(" + std::to_string(l) + ")"); }
		else if (k == 7) {
			Integer f = m.lo + Integer(c.r.below(m.n / 2 + 1)), t = f + m.n / 2 + Integer(c.r.below(m.n)); M r(DIR, f, t - f); for (auto& [e, v] : m.e) if (r.ok(e.first) && r.ok(e.second)) r.add(e.first, e.second, v);
			G x = g.range(f, t); expect<E, DIR>(c, x, r, "C23.state", log + "; range"); G y = g.subgraph(g.edgeCount() / 3); M sub = readBack(y);
			VCHECK(c, Integer(sub.e.size()) == g.edgeCount() / 3 && sub.n == m.n && sub.lo == m.lo, "C23.subgraph", log << ": wrong size"); for (auto& [e, v] : sub.e) { auto it = m.e.find(e); VCHECK(c, it != m.e.end() && it->second == v, "C23.subgraph", log << ": edge " << e.first << " " << e.second << " not in source"); }
			expect<E, DIR>(c, y, sub, "C23.state", log + "; subgraph"); if (c.r.chance(1, 2)) { g = x; m = r; } state("range(" + std::to_string(f) + "," + std::to_string(t) + ")");
		} else if (k == 8) {
			Integer f = m.lo - 3 + Integer(c.r.below(m.n)), q = 1 + c.r.border(400); G h(f, f + q); M o(DIR, f, q); for (Integer i = 0; i < 2 * q; i++) { Integer a = f + c.r.below(q), b = f + c.r.below(q); if (a == b) continue; E v = fresh<E>(c.r); h.addEdge(a, b, v); o.add(a, b, val<E>(v)); }
			if (c.r.chance(1, 2)) { g.append(h); Integer diff = m.lo + m.n - f; for (auto& [e, v] : o.e) m.add(e.first + diff, e.second + diff, v); m.n += q; state("append"); }
			else { g.combine(h); Integer a = std::min(m.lo, f), b = std::max(m.lo + m.n, f + q); M t(DIR, a, b - a); t.e = m.e; for (auto& [e, v] : o.e) t.add(e.first, e.second, v); m = t; state("combine"); }
			expect<E, DIR>(c, h, o, "C23.state", log + ": argument");
		} else { G h = g; h.permutateEdges(); expect<E, DIR>(c, h, m, "C23.state", log + "; permutateEdges of a copy"); if (m.n > 1) h.addEdge(m.lo, m.lo + 1, fresh<E>(c.r)); state("copied"); }
	}
	if (c.wantSample()) c.sample(log);
}
GROUP(C23, big, 24, 2000) { if (c.idx & 1) big<NoData, false>(c); else big<Integer, false>(c); }
GROUP(C23, bigDir, 24, 2000) { if (c.idx & 1) big<NoData, true>(c); else big<Integer, true>(c); }

// the Edge type and the API shapes users write
GROUP(C23, edges, 40, 1000) {
	Random::seed(Integer(c.r.next() >> 1));
	Graph<> g(3); auto e = g.addEdge(0, 2);
	std::ostringstream o; OutputStream os(o); o << e << "|"; os << e;
	VCHECK(c, o.str() == "0 2|0 2", "C23.print", "edge printed as " << o.str());
	(void)*e; const auto ce = e; (void)*ce;   // usable without data
	Graph<Integer> h(5, 8); auto f = h.addEdge(7, 5, 42); std::ostringstream o2; OutputStream os2(o2); o2 << f << "|"; os2 << f;
	VCHECK(c, o2.str() == "7 5 42|7 5 42", "C23.print", "edge printed as " << o2.str());
	const auto& ch = h; for (auto x : ch.getEdges()) VCHECK(c, *x == 42 && x.data == 42, "C23.print", "const access");
	Graph<> empty; VCHECK(c, empty.size() == 0 && empty.edgeCount() == 0 && empty.getMinId() == empty.getNextId(), "C23.state", "default constructed graph");
	VCHECK(c, throwsStd([] { Graph<> x(3, 2); }) && throwsStd([] { DiGraph<Integer> x(-1); }), "C23.invalid", "inverted range accepted");
	c.fp(c.idx);
}
#endif

//============================================================================//
#if ON(24)
template<class E, bool DIR> void transforms(Ctx& c, GraphDetail::GraphType<E, DIR>& g, const M& m) {
	using G = GraphDetail::GraphType<E, DIR>;
	const G& cg = g; Integer lo = m.lo, n = m.n;
	const std::string src = m.str(); c.fp(src); c.note(src);
	if (c.wantSample()) c.sample(src);
	auto W = [&](const char* s) { return std::string(s) + " of " + src; };
	std::string dflt = val<E>(E{});
	{	// complement
		M r(DIR, lo, n); for (Integer a = lo; a < lo + n; a++) for (Integer b = lo; b < lo + n; b++) if (a != b && (DIR || a < b) && !m.has(a, b)) r.add(a, b, dflt);
		expect<E, DIR>(c, cg.complement(), r, "C24.complement", W("complement"));
	}
	// distances
	const Integer INF = 1 << 28;
	std::vector<std::vector<Integer>> d(n, std::vector<Integer>(n, INF));
	for (Integer i = 0; i < n; i++) d[i][i] = 0;
	for (auto& [e, v] : m.e) { d[e.first - lo][e.second - lo] = 1; if (!DIR) d[e.second - lo][e.first - lo] = 1; }
	for (Integer k = 0; k < n; k++) for (Integer i = 0; i < n; i++) for (Integer j = 0; j < n; j++) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
	auto pw = [&](Integer k) { M r(DIR, lo, n); for (Integer i = 0; i < n; i++) for (Integer j = 0; j < n; j++) if (i != j && d[i][j] <= k && (DIR || i < j)) r.add(i + lo, j + lo, dflt); return r; };
	for (Integer k : {Integer(0), Integer(1), Integer(2), Integer(3), Integer(c.r.below(n + 3))}) expect<E, DIR>(c, cg.power(k), pw(k), "C24.power", W(("power(" + std::to_string(k) + ")").c_str()));
	expect<E, DIR>(c, cg.transitiveClosure(), pw(INF - 1), "C24.closure", W("transitiveClosure"));
	{	// line graph; vertex i is the edge with id i
		std::vector<PII> es; for (const auto& e : cg.getEdges()) es.emplace_back(e.from, e.to);
		M r(DIR, 0, Integer(es.size()));
		for (std::size_t i = 0; i < es.size(); i++) for (std::size_t j = 0; j < es.size(); j++) if (i != j) {
			if (DIR) { if (es[i].second == es[j].first) r.add(i, j); }
			else if (es[i].first == es[j].first || es[i].first == es[j].second || es[i].second == es[j].first || es[i].second == es[j].second) r.add(i, j);
		}
		auto l = cg.lineGraph(); M got = readBack(l);
		for (auto& [e, v] : got.e) v.clear();
		M copy = got; for (auto& [e, v] : r.e) v.clear();
		VCHECK(c, Integer(got.e.size()) == l.edgeCount() && got.n == r.n && got.lo == 0 && got.e == r.e, "C24.lineGraph", W("lineGraph") << ": " << got.str() << " expected " << r.str());
		M back = readBack(l); expect(c, l, back, "C24.lineGraph", W("lineGraph (self consistency)"));
	}
	if constexpr (DIR) {
		G t = cg; G& ref = t.reverse();
		M r(true, lo, n); for (auto& [e, v] : m.e) r.add(e.second, e.first, v);
		VCHECK(c, &ref == &t, "C24.reverse", "reverse() is in place");
		expect<E, DIR>(c, t, r, "C24.reverse", W("reverse"));
		t.reverse(); expect<E, DIR>(c, t, m, "C24.reverse", W("reverse twice"));
		auto u = cg.undirected();
		M w(false, lo, n); for (auto& [e, v] : m.e) w.add(e.first, e.second, v);
		M got = readBack(u);   // if both directions exist the data of either is kept
		for (auto& [e, v] : got.e) {
			auto i1 = m.e.find(e), i2 = m.e.find({e.second, e.first});
			if ((i1 != m.e.end() && i1->second == v) || (i2 != m.e.end() && i2->second == v)) w.e[e] = v;
		}
		expect(c, u, w, "C24.undirected", W("undirected"));
	} else {
		M r(true, lo, n); for (auto& [e, v] : m.e) { r.add(e.first, e.second, v); r.add(e.second, e.first, v); }
		expect(c, cg.directed(), r, "C24.directed", W("directed"));
		u64 salt = c.r.next(); int kind = int(c.r.below(3));
		auto pred = [salt, kind](Integer a, Integer b) { return kind == 0 ? a < b : kind == 1 ? a > b : bool(mix(mix(u64(a) ^ salt) + u64(b)) & 1); };
		M r2(true, lo, n); for (auto& [e, v] : m.e) { if (pred(e.first, e.second)) r2.add(e.first, e.second, v); if (pred(e.second, e.first)) r2.add(e.second, e.first, v); }
		expect(c, cg.directed([pred](Integer a, Integer b) { return pred(a, b); }), r2, "C24.directed", W("directed(pred)"));
		M r3(true, lo, n); auto p3 = [salt](const std::string& v) { return bool(hashStr(v + std::to_string(salt)) & 1); };
		for (auto& [e, v] : m.e) { if (pred(e.first, e.second) && p3(v)) r3.add(e.first, e.second, v); if (pred(e.second, e.first) && p3(v)) r3.add(e.second, e.first, v); }
		expect(c, cg.directed([pred, p3](Integer a, Integer b, const E& v) { return pred(a, b) && p3(val<E>(v)); }), r3, "C24.directed", W("directed(pred with data)"));
	}
	expect<E, DIR>(c, g, m, "C24.source", W("source after transformations"));
}
template<class E, bool DIR> void oneTransform(Ctx& c) {
	Random::seed(Integer(c.r.next() >> 1));
	Integer lo = c.r.chance(1, 2) ? 0 : someId(c);
	auto [g, m] = randomPair<E, DIR>(c, c.r.chance(1, 8) ? 14 : 7, lo);
	transforms<E, DIR>(c, g, m);
}
// up to 60 vertices: paths, cycles, trees, hubs, a few random edges (long distances, large powers)
template<class E, bool DIR> void bigTransform(Ctx& c) {
	Random::seed(Integer(c.r.next() >> 1));
	Integer lo = c.r.chance(1, 2) ? 0 : someId(c), n = 8 + Integer(c.r.below(50)); GraphDetail::GraphType<E, DIR> g(lo, lo + n); M m(DIR, lo, n);
	std::vector<Integer> id(n); std::iota(id.begin(), id.end(), lo); if (c.r.chance(1, 2)) for (std::size_t i = n; i > 1; i--) std::swap(id[i - 1], id[c.r.below(i)]);
	auto put = [&](Integer a, Integer b) { if (a == b) return; if (c.r.chance(1, 12)) std::swap(a, b); E v = fresh<E>(c.r); g.addEdge(id[a], id[b], v); m.add(id[a], id[b], val<E>(v)); };
	int kind = int(c.r.below(5));
	for (Integer i = 1; i < n; i++) { if (kind <= 1) put(i - 1, i); else if (kind == 2) put(Integer(c.r.below(i)), i); else if (kind == 3) put(c.r.chance(4, 5) ? 0 : i - 1, i); else put(Integer(c.r.below(n)), Integer(c.r.below(n))); }
	if (kind == 1) put(n - 1, 0);
	for (Integer i = Integer(c.r.below(6)); i > 0; i--) put(Integer(c.r.below(n)), Integer(c.r.below(n)));
	transforms<E, DIR>(c, g, m);
}
// distances of some hundreds: only power and the closure, along paths, cycles and trees of paths
template<bool DIR> void longTransform(Ctx& c) {
	Random::seed(Integer(c.r.next() >> 1));
	Integer lo = c.r.chance(1, 2) ? 0 : someId(c), n = 130 + Integer(c.r.below(270)); GraphDetail::GraphType<NoData, DIR> g(lo, lo + n); M m(DIR, lo, n);
	std::vector<Integer> id(n); std::iota(id.begin(), id.end(), lo); if (c.r.chance(1, 2)) for (std::size_t i = n; i > 1; i--) std::swap(id[i - 1], id[c.r.below(i)]);
	std::vector<std::vector<Integer>> adj(n); auto put = [&](Integer a, Integer b) { if (a == b) return; g.addEdge(id[a], id[b]); m.add(id[a], id[b], ""); adj[a].push_back(b); if (!DIR) adj[b].push_back(a); };
	int kind = int(c.r.below(4)); bool back = c.r.chance(1, 2);
	for (Integer i = 1; i < n; i++) { Integer p = kind < 2 ? i - 1 : kind == 2 ? (i % 61 == 0 ? Integer(c.r.below(i)) : i - 1) : (i == n / 2 ? -1 : i - 1); if (p >= 0) { if (back) put(i, p); else put(p, i); } }
	if (kind == 1) { if (back) put(0, n - 1); else put(n - 1, 0); }
	const std::string what = std::string(DIR ? "directed " : "") + "long graph, kind " + std::to_string(kind) + ", n=" + std::to_string(n) + ", ids from " + std::to_string(lo); c.note(what); c.fp(hashStr(what)); if (c.wantSample()) c.sample(what);
	std::vector<std::vector<Integer>> d(n, std::vector<Integer>(n, -1)); Integer far = 0;
	for (Integer s = 0; s < n; s++) { std::vector<Integer> q{s}; d[s][s] = 0; for (std::size_t i = 0; i < q.size(); i++) for (Integer w : adj[q[i]]) if (d[s][w] < 0) { d[s][w] = d[s][q[i]] + 1; far = std::max(far, d[s][w]); q.push_back(w); } }
	auto near = [&](const auto& r, Integer k, const char* fam) {
		std::vector<char> has(std::size_t(n * n)); std::vector<Integer> pos(n); for (Integer i = 0; i < n; i++) pos[id[i] - lo] = i;
		Integer cnt = 0; for (const auto& e : r.getEdges()) { Integer a = pos[e.from - lo], b = pos[e.to - lo]; VCHECK(c, a != b && !has[std::size_t(a * n + b)], fam, what << ": edge " << e.from << "," << e.to << " twice"); has[std::size_t(a * n + b)] = 1; if (!DIR) has[std::size_t(b * n + a)] = 1; cnt++; }
		VCHECK(c, r.size() == n && r.getMinId() == lo && r.edgeCount() == cnt, fam, what << ": size " << r.size() << " first id " << r.getMinId() << " " << r.edgeCount() << " edges");
		for (Integer a = 0; a < n; a++) for (Integer b = 0; b < n; b++) if (a != b && bool(has[std::size_t(a * n + b)]) != (d[a][b] >= 0 && d[a][b] <= k)) { VCHECK(c, false, fam, what << ": pair " << id[a] << "," << id[b] << " at distance " << d[a][b] << " with power " << k << ": edge " << int(has[std::size_t(a * n + b)])); return; } };
	const auto& cg = g; c.ev("distances beyond 128", far > 128);
	near(cg.transitiveClosure(), n, "C24.closure"); near(cg.power(n), n, "C24.power"); near(cg.power(far - 1), far - 1, "C24.power"); { Integer k = Integer(c.r.below(far + 3)); near(cg.power(k), k, "C24.power"); }
}
GROUP(C24, longPaths, 8, 300) { if (c.idx & 1) longTransform<false>(c); else longTransform<true>(c); }
GROUP(C24, big, 40, 3000) { if (c.idx & 1) bigTransform<NoData, false>(c); else bigTransform<Integer, false>(c); }
GROUP(C24, bigDir, 40, 3000) { if (c.idx & 1) bigTransform<NoData, true>(c); else bigTransform<Integer, true>(c); }
GROUP(C24, none, 500, 40000) { oneTransform<NoData, false>(c); }
GROUP(C24, noneDir, 500, 40000) { oneTransform<NoData, true>(c); }
GROUP(C24, integer, 300, 30000) { oneTransform<Integer, false>(c); }
GROUP(C24, integerDir, 300, 30000) { oneTransform<Integer, true>(c); }

// all graphs with up to 4 vertices (undirected) resp. 3 vertices (directed)
GROUP(C24, exhaustive, 96, 256) {
	Random::seed(1);
	u64 total = 96; if (c.thorough()) total = 256;
	(void)total;
	Integer lo = c.idx % 3 == 0 ? 0 : c.idx % 3 == 1 ? 1 : -2;
	for (Integer n = 0; n <= 5; n++) {
		std::vector<PII> ps; for (Integer a = 0; a < n; a++) for (Integer b = a + 1; b < n; b++) ps.emplace_back(a, b);
		for (u64 mask = 0; mask < (1ull << ps.size()); mask++) {
			if (mask % 96 != c.idx % 96) continue;
			if (n == 5 && !c.thorough() && mask % 3) continue;
			Graph<> g(lo, lo + n); M m(false, lo, n);
			for (std::size_t i = 0; i < ps.size(); i++) if (mask >> i & 1) { g.addEdge(lo + ps[i].first, lo + ps[i].second); m.add(lo + ps[i].first, lo + ps[i].second); }
			transforms<NoData, false>(c, g, m);
		}
		if (n > 3) continue;
		for (u64 mask = 0; mask < (1ull << (2 * ps.size())); mask++) {
			if (mask % 96 != c.idx % 96) continue;
			DiGraph<Integer> g(lo, lo + n); M m(true, lo, n);
			for (std::size_t i = 0; i < 2 * ps.size(); i++) if (mask >> i & 1) { auto [a, b] = ps[i / 2]; if (i & 1) std::swap(a, b); g.addEdge(lo + a, lo + b, Integer(i) + 5); m.add(lo + a, lo + b, std::to_string(i + 5)); }
			transforms<Integer, true>(c, g, m);
		}
	}
}

// products: the numbering may take either factor as the fast running one
template<class E, bool DIR> void checkProduct(Ctx& c, const GraphDetail::GraphType<E, DIR>& res, const M& a, const M& b, const char* what, bool cart, bool tens) {
	auto build = [&](bool aFast) {
		M r(DIR, 0, a.n * b.n);
		auto id = [&](Integer x, Integer y) { x -= a.lo; y -= b.lo; return aFast ? y * a.n + x : x * b.n + y; };
		std::string dflt = val<E>(E{});
		if (cart) {
			for (Integer y = b.lo; y < b.lo + b.n; y++) for (auto& [e, v] : a.e) r.add(id(e.first, y), id(e.second, y), dflt);
			for (Integer x = a.lo; x < a.lo + a.n; x++) for (auto& [e, v] : b.e) r.add(id(x, e.first), id(x, e.second), dflt);
		}
		if (tens) for (auto& [e, v] : a.e) for (auto& [f, w] : b.e) { r.add(id(e.first, f.first), id(e.second, f.second), dflt); r.add(id(e.first, f.second), id(e.second, f.first), dflt); }
		return r;
	};
	M got = readBack(res), m1 = build(true), m2 = build(false);
	bool one = got.e == m1.e, two = got.e == m2.e;
	VCHECK(c, got.n == m1.n && (one || two), std::string("C24.") + what, what << " of " << a.str() << " and " << b.str() << ": " << got.str() << " expected (one numbering) " << m1.str());
	expect<E, DIR>(c, res, one ? m1 : m2, std::string("C24.") + what, std::string(what) + " of " + a.str() + " and " + b.str());
}
template<class E> void products(Ctx& c) {
	Integer la = c.r.chance(1, 2) ? 0 : someId(c), lb = c.r.chance(1, 2) ? 0 : someId(c);
	bool bg = c.r.chance(1, 40); auto [g, mg] = randomPair<E, false>(c, bg ? 14 : 5, la); auto [h, mh] = randomPair<E, false>(c, bg ? 14 : 5, lb);
	auto [dg, mdg] = randomPair<E, true>(c, 5, la); auto [dh, mdh] = randomPair<E, true>(c, 5, lb);
	c.fp(mg.str()); c.fp(mh.str()); c.note(mg.str() + " x " + mh.str());
	if (c.wantSample()) c.sample(mg.str() + " x " + mh.str());
	checkProduct<E, false>(c, g.cartesian(h), mg, mh, "cartesian", true, false);
	checkProduct<E, true>(c, dg.cartesian(dh), mdg, mdh, "cartesian", true, false);
	checkProduct<E, false>(c, g.product(h), mg, mh, "product", false, true);
	checkProduct<E, false>(c, g.strongProduct(h), mg, mh, "strongProduct", true, true);
	checkProduct<E, false>(c, g.cartesian(g), mg, mg, "cartesian", true, false);
	checkProduct<E, false>(c, g.product(g), mg, mg, "product", false, true);
	checkProduct<E, false>(c, g.strongProduct(g), mg, mg, "strongProduct", true, true);
	expect<E, false>(c, g, mg, "C24.source", "first factor"); expect<E, false>(c, h, mh, "C24.source", "second factor");
	expect<E, true>(c, dg, mdg, "C24.source", "first factor"); expect<E, true>(c, dh, mdh, "C24.source", "second factor");
}
GROUP(C24, products, 400, 30000) { Random::seed(Integer(c.r.next() >> 1)); products<NoData>(c); }
GROUP(C24, productsData, 200, 15000) { Random::seed(Integer(c.r.next() >> 1)); products<Integer>(c); }
#endif

//============================================================================//
#if ON(25)
template<class F> void family(Ctx& c, const std::string& name, F&& f, const M& m) {
	c.fp(name); c.note(name); if (c.wantSample()) c.sample(name);
	auto g = f();
	expect(c, g, m, "C25." + name.substr(0, name.find('(')), name, m.n < 400);
}
#define P1(f, a) std::string(#f "(") + std::to_string(a) + ")" + (DIR ? " directed" : "")
#define P2(f, a, b) std::string(#f "(") + std::to_string(a) + "," + std::to_string(b) + ")" + (DIR ? " directed" : "")
template<class E, bool DIR> void families(Ctx& c, Integer n, Integer k) {
	std::string D = val<E>(E{});
	{ M m(DIR, 0, n); family(c, P1(independent, n), [&] { return independent<E, DIR>(n); }, m); }
	{ M m(DIR, 0, n); for (Integer i = 0; i < n; i++) for (Integer j = i + 1; j < n; j++) m.add(i, j, D); family(c, P1(clique, n), [&] { return clique<E, DIR>(n); }, m); }
	{ M m(DIR, 0, n + k); for (Integer i = 0; i < n; i++) for (Integer j = 0; j < k; j++) m.add(i, n + j, D); family(c, P2(bipartite, n, k), [&] { return bipartite<E, DIR>(n, k); }, m); }
	{ M m(DIR, 0, n + 1); for (Integer i = 1; i <= n; i++) m.add(0, i, D); family(c, P1(star, n), [&] { return star<E, DIR>(n); }, m); }
	{ M m(DIR, 0, n + 1); for (Integer i = 0; i < n; i++) m.add(i, i + 1, D); family(c, P1(path, n), [&] { return path<E, DIR>(n); }, m); }
	if (n >= 3) { M m(DIR, 0, n); for (Integer i = 0; i < n; i++) m.add(i, (i + 1) % n, D); family(c, P1(cycle, n), [&] { return cycle<E, DIR>(n); }, m); }
	{ M m(DIR, 0, n); for (Integer b = 0; b < n; b++) for (Integer a = 0; a < 62; a++) if (b >> a & 1) m.add(a, b, D); family(c, P1(rado, n), [&] { return rado<E, DIR>(n); }, m); }
	if (n <= 9) { M m(DIR, 0, 1ll << n); for (Integer a = 0; a < m.n; a++) for (Integer b = 0; b < m.n; b++) if ((a & b) == b && __builtin_popcountll(a) == __builtin_popcountll(b) + 1) m.add(a, b, D); family(c, P1(booleanLattice, n), [&] { return booleanLattice<E, DIR>(n); }, m); }
	{	// complete trees, preorder numbering; level counts the edges on a path from the root to a leaf
		Integer level = n % 7, ch = k % 5; while (ch > 1 && level > 1 && std::pow(double(ch), double(level)) > 1200) level--;
		M m(DIR, 0, 0);
		auto rec = [&](auto&& self, Integer d) -> Integer { Integer me = m.n++; if (d > 0) for (Integer i = 0; i < ch; i++) { Integer x = self(self, d - 1); m.add(me, x, D); } return me; };
		rec(rec, level);
		family(c, P2(completeTree, level, ch), [&] { return completeTree<E, DIR>(level, ch); }, m);
		if (ch == 2) family(c, P1(completeTree, level), [&] { return completeTree<E, DIR>(level); }, m);
	}
	if constexpr (!DIR) {
		if (n >= 3) { M m(false, 0, n + 1); for (Integer i = 0; i < n; i++) { m.add(0, i + 1, D); m.add(i + 1, (i + 1) % n + 1, D); } family(c, P1(wheel, n), [&] { return wheel<E>(n); }, m); }
		if (k >= 1) { M m(false, 0, n + k); for (Integer i = 0; i < n; i++) m.add(i, i + 1, D); for (Integer i = 0; i < k; i++) for (Integer j = 0; j < i; j++) m.add(n + i, n + j, D); family(c, P2(lolly, n, k), [&] { return lolly<E>(n, k); }, m); }
		{ M m(false, 0, n + k + 1); for (Integer i = 0; i < n; i++) m.add(i, i + 1, D); for (Integer i = 1; i <= k; i++) m.add(n, n + i, D); family(c, P2(broom, n, k), [&] { return broom<E>(n, k); }, m); }
		if (n >= 1 && k >= 1) {
			auto build = [&](Integer a, Integer b) { M m(false, 0, a * b); for (Integer y = 0; y < b; y++) for (Integer x = 0; x < a; x++) { if (x + 1 < a) m.add(y * a + x, y * a + x + 1, D); if (y + 1 < b) m.add(y * a + x, (y + 1) * a + x, D); } return m; };
			family(c, P2(grid, n, k), [&] { return grid<E>(n, k); }, build(n, k));
			if (n <= 14) family(c, P1(grid, n), [&] { return grid<E>(n); }, build(n, n));
		}
		if (n <= 8) { M m(false, 0, 1ll << n); for (Integer a = 0; a < m.n; a++) for (Integer b = 0; b < n; b++) m.add(a, a ^ (1ll << b), D); family(c, P1(hypercube, n), [&] { return hypercube<E>(n); }, m); }
	}
}
GROUP(C25, none, 324, 1600) { Integer q = c.thorough() ? 40 : 18; families<NoData, false>(c, Integer(c.idx) / q, Integer(c.idx) % q); }
GROUP(C25, noneDir, 324, 1600) { Integer q = c.thorough() ? 40 : 18; families<NoData, true>(c, Integer(c.idx) / q, Integer(c.idx) % q); }
GROUP(C25, integer, 60, 400) { families<Integer, false>(c, Integer(c.r.below(16)), Integer(c.r.below(16))); }
GROUP(C25, integerDir, 60, 400) { families<Integer, true>(c, Integer(c.r.below(16)), Integer(c.r.below(16))); }
GROUP(C25, text, 30, 200) { families<std::string, false>(c, Integer(c.r.below(12)), Integer(c.r.below(12))); families<std::string, true>(c, Integer(c.r.below(12)), Integer(c.r.below(12))); }
GROUP(C25, bigger, 16, 200) {
	Integer n = 100 + Integer(c.r.below(200)), k = 1 + Integer(c.r.below(40)); constexpr bool DIR = false;
	{ M m(true, 0, n); for (Integer b = 0; b < n; b++) for (Integer a = 0; a < 62; a++) if (b >> a & 1) m.add(a, b); family(c, P1(rado, n), [&] { return rado<NoData, true>(n); }, m); }
	{ M m(false, 0, n + 1); for (Integer i = 0; i < n; i++) { m.add(0, i + 1); m.add(i + 1, (i + 1) % n + 1); } family(c, P1(wheel, n), [&] { return wheel(n); }, m); }
	{ M m(true, 0, n); for (Integer i = 0; i < n; i++) m.add(i, (i + 1) % n); family(c, P1(cycle, n), [&] { return cycle<NoData, true>(n); }, m); }
	{ M m(false, 0, n * k); for (Integer y = 0; y < k; y++) for (Integer x = 0; x < n; x++) { if (x + 1 < n) m.add(y * n + x, y * n + x + 1); if (y + 1 < k) m.add(y * n + x, (y + 1) * n + x); } family(c, P2(grid, n, k), [&] { return grid(n, k); }, m); }
}

// few, but much larger instances of every family
template<bool DIR> void largeFamilies(Ctx& c) {
	using E = NoData; std::string D;
	Integer n = c.idx % 2 ? 150 + Integer(c.r.below(120)) : 600 + Integer(c.r.below(3000)), k = 30 + Integer(c.r.below(90));
	switch ((c.idx / 2) % 9) {
		case 0: { M m(DIR, 0, n); for (Integer b = 0; b < n; b++) for (Integer a = 0; a < 62; a++) if (b >> a & 1) m.add(a, b, D); family(c, P1(rado, n), [&] { return rado<E, DIR>(n); }, m); } break;
		case 1: for (Integer l : {10, 11, 12}) { M m(DIR, 0, 1ll << l); for (Integer a = 0; a < m.n; a++) for (Integer b = 0; b < l; b++) if (a >> b & 1) m.add(a, a ^ (1ll << b), D); family(c, P1(booleanLattice, l), [&] { return booleanLattice<E, DIR>(l); }, m); } break;
		case 2: if constexpr (!DIR) for (Integer l : {9, 10, 11, 12}) { M m(false, 0, 1ll << l); for (Integer a = 0; a < m.n; a++) for (Integer b = 0; b < l; b++) m.add(a, a ^ (1ll << b), D); family(c, P1(hypercube, l), [&] { return hypercube<E>(l); }, m); } break;
		case 3: for (auto [level, ch] : std::vector<PII>{{11, 2}, {7, 3}, {5, 5}, {2, 60}, {1, n}, {n % 700, 1}}) {
			M m(DIR, 0, 0);
			auto rec = [&](auto&& self, Integer d) -> Integer { Integer me = m.n++; if (d > 0) for (Integer i = 0; i < ch; i++) { Integer x = self(self, d - 1); m.add(me, x, D); } return me; };
			rec(rec, level); family(c, P2(completeTree, level, ch), [&] { return completeTree<E, DIR>(level, ch); }, m);
		} break;
		case 4: { Integer q = 100 + n % 50; M m(DIR, 0, q); for (Integer i = 0; i < q; i++) for (Integer j = i + 1; j < q; j++) m.add(i, j, D); family(c, P1(clique, q), [&] { return clique<E, DIR>(q); }, m); } break;
		case 5: { M m(DIR, 0, 110 + k); for (Integer i = 0; i < 110; i++) for (Integer j = 0; j < k; j++) m.add(i, 110 + j, D); family(c, P2(bipartite, 110, k), [&] { return bipartite<E, DIR>(110, k); }, m); } break;
		case 6: { M m(DIR, 0, n + 1); for (Integer i = 1; i <= n; i++) m.add(0, i, D); family(c, P1(star, n), [&] { return star<E, DIR>(n); }, m); } { M m(DIR, 0, n + 1); for (Integer i = 0; i < n; i++) m.add(i, i + 1, D); family(c, P1(path, n), [&] { return path<E, DIR>(n); }, m); } break;
		case 7: { M m(DIR, 0, n); for (Integer i = 0; i < n; i++) m.add(i, (i + 1) % n, D); family(c, P1(cycle, n), [&] { return cycle<E, DIR>(n); }, m); } break;
		default: if constexpr (!DIR) {
			{ M m(false, 0, n + k); for (Integer i = 0; i < n; i++) m.add(i, i + 1, D); for (Integer i = 0; i < k; i++) for (Integer j = 0; j < i; j++) m.add(n + i, n + j, D); family(c, P2(lolly, n, k), [&] { return lolly<E>(n, k); }, m); }
			{ M m(false, 0, n + k + 1); for (Integer i = 0; i < n; i++) m.add(i, i + 1, D); for (Integer i = 1; i <= k; i++) m.add(n, n + i, D); family(c, P2(broom, n, k), [&] { return broom<E>(n, k); }, m); }
			{ Integer a = k, b = 20 + n % 60; M m(false, 0, a * b); for (Integer y = 0; y < b; y++) for (Integer x = 0; x < a; x++) { if (x + 1 < a) m.add(y * a + x, y * a + x + 1, D); if (y + 1 < b) m.add(y * a + x, (y + 1) * a + x, D); } family(c, P2(grid, a, b), [&] { return grid<E>(a, b); }, m); }
			{ M m(false, 0, n + 1); for (Integer i = 0; i < n; i++) { m.add(0, i + 1, D); m.add(i + 1, (i + 1) % n + 1, D); } family(c, P1(wheel, n), [&] { return wheel<E>(n); }, m); }
		}
	}
}
GROUP(C25, largest, 36, 720) { if (c.idx % 36 < 18) largeFamilies<false>(c); else largeFamilies<true>(c); }

// Pruefer codes: reference decoding by repeatedly removing the smallest leaf
inline M prueferRef(const std::vector<Integer>& code, const std::string& D) {
	Integer n = Integer(code.size()) + 2; M m(false, 0, n);
	std::vector<Integer> deg(n, 1); for (Integer x : code) deg[x]++;
	std::set<Integer> leaves; for (Integer i = 0; i < n; i++) if (deg[i] == 1) leaves.insert(i);
	for (Integer x : code) { Integer l = *leaves.begin(); leaves.erase(leaves.begin()); m.add(l, x, D); if (--deg[x] == 1) leaves.insert(x); }
	Integer a = *leaves.begin(), b = *leaves.rbegin(); m.add(a, b, D);
	return m;
}
GROUP(C25, pruefer, 1500, 100000) {
	Integer n = 2 + c.r.size(40); if (c.r.chance(1, 60)) n = 500;
	std::vector<Integer> code(n - 2); int kind = int(c.r.below(4)); Integer fix = c.r.below(n);
	for (auto& x : code) x = kind == 0 ? fix : kind == 1 ? Integer(c.r.below(std::min<Integer>(n, 3))) : kind == 2 ? n - 1 - Integer(c.r.below(std::min<Integer>(n, 3))) : Integer(c.r.below(n));
	if (kind == 3 && c.r.chance(1, 3)) std::sort(code.begin(), code.end());
	for (auto x : code) c.fp(u64(x));
	c.note(show(code, 600)); if (c.wantSample()) c.sample(show(code));
	auto g = pruefer(code); expect(c, g, prueferRef(code, ""), "C25.pruefer", "pruefer " + show(code, 100), n < 60);
	if (c.r.chance(1, 5)) { auto h = pruefer<Integer>(code); expect(c, h, prueferRef(code, "0"), "C25.pruefer", "pruefer<Integer> " + show(code, 100), n < 60); }
}
GROUP(C25, prueferAll, 40, 200) {   // all codes for n <= 6 (7 thorough), spread over the cases; the trees must be pairwise different
	Integer top = c.thorough() ? 7 : 6;
	Integer n = 2 + Integer(c.idx) % (top - 1); u64 total = 1; for (Integer i = 0; i < n - 2; i++) total *= u64(n);
	std::set<std::map<PII, std::string>> all;
	for (u64 x = 0; x < total; x++) {
		std::vector<Integer> code(n - 2); u64 y = x; for (auto& q : code) { q = Integer(y % u64(n)); y /= u64(n); }
		auto g = pruefer(code); M ref = prueferRef(code, "");
		expect(c, g, ref, "C25.pruefer", "pruefer " + show(code), false); all.insert(readBack(g).e);
	}
	VCHECK(c, all.size() == total, "C25.pruefer", "codes for n=" << n << " give only " << all.size() << " of " << total << " trees");
	c.fp(u64(n));
}
GROUP(C25, flows, 130, 130) {
	Integer n = Integer(c.idx) - 2; c.fp(u64(n)); c.note("n=" + std::to_string(n));
	if (n < 1 || n > 63) VCHECK(c, throwsStd([&] { ffWorstcase(n); }), "C25.ffWorstcase", "n=" << n << " accepted");
	else {
		std::vector<std::tuple<Integer, Integer, Integer>> want{{n - 1, n, 1}}, got;
		for (Integer k = 1; k < n; k++) { Integer c2 = 1ll << (k - 1), u = n - 1 - k, v = n + k; want.emplace_back(u, u + 1, c2); want.emplace_back(u, v - 1, c2); want.emplace_back(u + 1, v, c2); want.emplace_back(v - 1, v, c2); }
		auto g = ffWorstcase(n); for (auto e : g.getEdges()) got.emplace_back(e.from, e.to, *e);
		VCHECK(c, got == want && g.nodeCount() == 2 * n, "C25.ffWorstcase", "n=" << n << ": wrong edges, weights or order");
		M m(true, 0, 2 * n); for (auto [a, b, w] : want) m.add(a, b, std::to_string(w));
		expect(c, g, m, "C25.ffWorstcase", "ffWorstcase(" + std::to_string(n) + ")");
	}
	if (n < 1 || n > 60) VCHECK(c, throwsStd([&] { mcmfWorstcase(n); }), "C25.mcmfWorstcase", "n=" << n << " accepted");
	else {
		std::map<PII, PII> want, got; Integer s = 0, t = 2 * n + 1, inf = n >= 2 ? 5ll << (n - 2) : 2;
		for (Integer i = 1; i <= n; i++) {
			want[{s, i}] = {i == 1 ? 1 : i == 2 ? 3 : 5ll << (i - 3), 0};
			want[{n + i, t}] = {i <= 2 ? 2 : 5ll << (i - 3), 0};
			for (Integer j = 1; j <= n; j++) if (i != j) want[{i, n + j}] = {inf, (1ll << (std::max(i, j) - 1)) - 1};
		}
		want[{1, n + 1}] = {inf, 0};
		auto g = mcmfWorstcase(n); for (auto e : g.getEdges()) got[{e.from, e.to}] = *e;
		VCHECK(c, got == want && g.nodeCount() == 2 * n + 2 && g.edgeCount() == Integer(want.size()), "C25.mcmfWorstcase", "n=" << n << ": wrong edges, capacities or costs");
		VCHECK(c, g.degree(s) == n && g.degree(t) == 0, "C25.mcmfWorstcase", "n=" << n << ": degrees");
	}
}
#endif

//============================================================================//
#if ON(26)
inline bool isTreeM(const M& m) {
	if (Integer(m.e.size()) != m.n - 1) return false;
	std::map<Integer, std::vector<Integer>> adj; for (auto& [e, v] : m.e) { adj[e.first].push_back(e.second); adj[e.second].push_back(e.first); }
	std::set<Integer> seen{m.lo}; std::vector<Integer> st{m.lo};
	while (!st.empty()) { Integer x = st.back(); st.pop_back(); for (Integer y : adj[x]) if (seen.insert(y).second) st.push_back(y); }
	return Integer(seen.size()) == m.n;
}
template<class G> M consistent(Ctx& c, const G& g, const std::string& what, Integer n) {
	M m = readBack(g);
	VCHECK(c, g.getMinId() == 0 && g.nodeCount() == n, "C26.vertices", what << ": vertices [" << g.getMinId() << "," << g.getNextId() << ")");
	for (auto& [e, v] : m.e) VCHECK(c, e.first != e.second && m.ok(e.first) && m.ok(e.second), "C26.simple", what << ": edge " << e.first << " " << e.second);
	expect(c, g, m, "C26.consistent", what, n < 40);   // also: no edge twice
	return m;
}
template<class E> void trees(Ctx& c) {
	Integer n = 1 + (c.r.chance(1, 80) ? c.r.border(4096) : c.r.size(c.r.chance(1, 40) ? 2000 : 60));
	Random::seed(Integer(c.r.next() >> 1)); c.fp(u64(n)); c.fp(c.idx); c.note("randomTree " + std::to_string(n));
	{ auto g = randomTree<E>(n); M m = consistent(c, g, "randomTree(" + std::to_string(n) + ")", n); VCHECK(c, isTreeM(m), "C26.tree", "randomTree(" << n << ") is no tree: " << m.str()); }
	{
		auto g = randomTree<E, true>(n); M m = consistent(c, g, "directed randomTree(" + std::to_string(n) + ")", n);
		std::vector<int> in(n); for (auto& [e, v] : m.e) in[e.second]++;
		bool ok = isTreeM(m) && in[0] == 0; for (Integer i = 1; i < n; i++) ok &= in[i] == 1;
		VCHECK(c, ok, "C26.tree", "directed randomTree(" << n << ") is not rooted at 0: " << m.str());
	}
	c.ev("trees", 2);
}
GROUP(C26, trees, 400, 30000) { trees<NoData>(c); }
GROUP(C26, treesData, 100, 6000) { trees<Integer>(c); }

template<class E, bool DIR> void gnm(Ctx& c) {
	Integer n = c.r.chance(1, 60) ? c.r.border(1024) : c.r.size(c.r.chance(1, 30) ? 300 : 14), lim = DIR ? n * (n - 1) : n * (n - 1) / 2;
	Integer m = c.r.pick<Integer>({0, lim, lim, std::max<Integer>(lim - 1, 0), Integer(c.r.below(lim + 1)), Integer(c.r.below(lim + 1)), std::min<Integer>(lim, n)});
	if (lim > 4000) m = std::min<Integer>(m, 4000);
	Random::seed(Integer(c.r.next() >> 1)); std::string what = "randomGraph(" + std::to_string(n) + "," + std::to_string(m) + ")" + (DIR ? " directed" : "");
	c.fp(what); c.fp(c.idx); c.note(what); if (c.wantSample()) c.sample(what);
	auto g = randomGraph<E, DIR>(n, m); M r = consistent(c, g, what, n);
	VCHECK(c, g.edgeCount() == m && Integer(r.e.size()) == m, "C26.edges", what << " has " << g.edgeCount() << " edges");
	VCHECK(c, throwsStd([&] { randomGraph<E, DIR>(n, lim + 1 + Integer(c.r.below(5))); }) && throwsStd([&] { randomGraph<E, DIR>(n, Integer(-1) - Integer(c.r.below(5))); }), "C26.reject", what << ": impossible edge count accepted");
	Real p = c.r.pick<Real>({0.0_real, 1.0_real, 0.5_real, Real(c.r.unit())});
	if (n > 60 && p > 0.01_real) p = 0.01_real;
	auto h = randomGraph<E, DIR>(n, p); M q = consistent(c, h, "randomGraph(n,p)", n);
	if (p == 0.0_real) VCHECK(c, q.e.empty(), "C26.p", "p=0 gives edges");
	if (p == 1.0_real) VCHECK(c, Integer(q.e.size()) == lim, "C26.p", "p=1, n=" << n << " gives " << q.e.size() << " edges");
	VCHECK(c, throwsStd([&] { randomGraph<E, DIR>(n, -0.25_real); }) && throwsStd([&] { randomGraph<E, DIR>(n, 1.25_real); }), "C26.reject", "p outside [0,1] accepted");
}
GROUP(C26, gnm, 400, 30000) { gnm<NoData, false>(c); }
GROUP(C26, gnmDir, 400, 30000) { gnm<NoData, true>(c); }
GROUP(C26, gnmData, 100, 6000) { gnm<Integer, false>(c); gnm<Integer, true>(c); }

template<class E, bool DIR> void bip(Ctx& c) {
	Integer n = c.r.size(c.r.chance(1, 30) ? 100 : 8), k = c.r.size(c.r.chance(1, 30) ? 100 : 8), lim = n * k * (DIR ? 2 : 1);
	Integer m = c.r.pick<Integer>({0, lim, lim, std::max<Integer>(lim - 1, 0), Integer(c.r.below(lim + 1)), Integer(c.r.below(lim + 1))});
	if (lim > 4000) m = std::min<Integer>(m, 4000);
	Random::seed(Integer(c.r.next() >> 1)); std::string what = "randomBipartite(" + std::to_string(n) + "," + std::to_string(k) + "," + std::to_string(m) + ")" + (DIR ? " directed" : "");
	c.fp(what); c.fp(c.idx); c.note(what); if (c.wantSample()) c.sample(what);
	auto g = randomBipartite<E, DIR>(n, k, m); M r = consistent(c, g, what, n + k);
	VCHECK(c, g.edgeCount() == m, "C26.edges", what << " has " << g.edgeCount() << " edges");
	for (auto& [e, v] : r.e) VCHECK(c, (e.first < n) != (e.second < n), "C26.bipartite", what << " has edge " << e.first << " " << e.second);
	VCHECK(c, throwsStd([&] { randomBipartite<E, DIR>(n, k, lim + 1 + Integer(c.r.below(5))); }) && throwsStd([&] { randomBipartite<E, DIR>(n, k, Integer(-1)); }), "C26.reject", what << ": impossible edge count accepted");
	Real p = c.r.pick<Real>({0.0_real, 1.0_real, Real(c.r.unit())});
	if (lim > 4000 && p > 0.1_real) p = 0.1_real;
	auto h = randomBipartite<E, DIR>(n, k, p); M q = consistent(c, h, "randomBipartite(n,m,p)", n + k);
	for (auto& [e, v] : q.e) VCHECK(c, (e.first < n) != (e.second < n), "C26.bipartite", what << " (p) has edge " << e.first << " " << e.second);
	if (p == 0.0_real) VCHECK(c, q.e.empty(), "C26.p", "p=0 gives edges");
	if (p == 1.0_real) VCHECK(c, Integer(q.e.size()) == lim, "C26.p", "p=1 " << what << " gives " << q.e.size() << " edges");
}
GROUP(C26, bip, 400, 30000) { bip<NoData, false>(c); }
GROUP(C26, bipDir, 400, 30000) { bip<NoData, true>(c); }
GROUP(C26, bipData, 80, 5000) { bip<Integer, false>(c); bip<Integer, true>(c); }

// every admissible pair occurs over many draws (n <= 4: 200 single edge graphs each)
GROUP(C26, support, 12, 200) {
	Integer n = 2 + Integer(c.idx % 3), k = 1 + Integer(c.r.below(3)); Random::seed(Integer(c.r.next() >> 1)); c.fp(u64(n)); c.fp(u64(k));
	std::set<PII> u, d, b, bd;
	for (int i = 0; i < 1000; i++) {
		{ auto g = randomGraph(n, Integer(1)); auto e = g.getEdgeById(0); u.insert(std::minmax<Integer>(e.from, e.to)); }
		{ auto g = randomGraph<NoData, true>(n, Integer(1)); auto e = g.getEdgeById(0); d.insert({e.from, e.to}); }
		{ auto g = randomBipartite(n, k, Integer(1)); auto e = g.getEdgeById(0); b.insert(std::minmax<Integer>(e.from, e.to)); }
		{ auto g = randomBipartite<NoData, true>(n, k, Integer(1)); auto e = g.getEdgeById(0); bd.insert({e.from, e.to}); }
	}
	VCHECK(c, Integer(u.size()) == n * (n - 1) / 2 && Integer(d.size()) == n * (n - 1) && Integer(b.size()) == n * k && Integer(bd.size()) == 2 * n * k, "C26.support", "n=" << n << " k=" << k << ": only " << u.size() << "/" << d.size() << "/" << b.size() << "/" << bd.size() << " different edges in 1000 draws");
	c.ev("single edge graphs", 4000);
}

// every admissible edge is equally likely: frequencies of all edges in many draws (tolerance 6.5 standard deviations)
inline void fair(Ctx& c, const std::map<PII, u64>& got, const std::vector<PII>& all, double draws, double p, const std::string& what) {
	double sd = std::sqrt(draws * p * (1 - p));
	for (const PII& e : all) {
		auto it = got.find(e); double x = it == got.end() ? 0 : double(it->second);
		VCHECK(c, std::abs(x - draws * p) <= 6.5 * sd + 1, "C26.fair", what << ": edge " << e.first << " " << e.second << " occurs in " << x << " of " << draws << " graphs, expected " << draws * p);
	}
	c.ev("edge frequencies", all.size());
}
GROUP(C26, fair, 24, 300) {
	Random::seed(Integer(c.r.next() >> 1)); c.fp(c.idx);
	Integer n = c.r.in(2, 8), k = c.r.in(1, 6); int draws = 3000;
	std::vector<PII> u, d, b, bd;
	for (Integer i = 0; i < n; i++) for (Integer j = 0; j < n; j++) { if (i < j) u.emplace_back(i, j); if (i != j) d.emplace_back(i, j); }
	for (Integer i = 0; i < n; i++) for (Integer j = n; j < n + k; j++) { b.emplace_back(i, j); bd.emplace_back(i, j); bd.emplace_back(j, i); }
	auto run = [&](auto&& f, const std::vector<PII>& all, bool dir, double p, const std::string& what) {
		std::map<PII, u64> got;
		for (int t = 0; t < draws; t++) { auto g = f(); for (auto e : g.getEdges()) got[dir ? PII(e.from, e.to) : PII(std::minmax<Integer>(e.from, e.to))]++; }
		fair(c, got, all, draws, p, what);
	};
	std::string N = std::to_string(n), K = std::to_string(k); c.note("n=" + N + " k=" + K);
	auto edges = [&](const std::vector<PII>& all) { return Integer(1 + c.r.below(all.size())); };
	Integer m = edges(u); run([&] { return randomGraph(n, m); }, u, false, double(m) / double(u.size()), "randomGraph(" + N + "," + std::to_string(m) + ")");
	m = edges(d); run([&] { return randomGraph<NoData, true>(n, m); }, d, true, double(m) / double(d.size()), "directed randomGraph(" + N + "," + std::to_string(m) + ")");
	m = edges(b); run([&] { return randomBipartite(n, k, m); }, b, false, double(m) / double(b.size()), "randomBipartite(" + N + "," + K + "," + std::to_string(m) + ")");
	m = edges(bd); run([&] { return randomBipartite<NoData, true>(n, k, m); }, bd, true, double(m) / double(bd.size()), "directed randomBipartite(" + N + "," + K + "," + std::to_string(m) + ")");
	double p = 0.02 + 0.96 * double(c.r.unit()); std::string P = std::to_string(p);
	run([&] { return randomGraph(n, Real(p)); }, u, false, p, "randomGraph(" + N + "," + P + ")");
	run([&] { return randomGraph<NoData, true>(n, Real(p)); }, d, true, p, "directed randomGraph(" + N + "," + P + ")");
	run([&] { return randomBipartite(n, k, Real(p)); }, b, false, p, "randomBipartite(" + N + "," + K + "," + P + ")");
	run([&] { return randomBipartite<NoData, true>(n, k, Real(p)); }, bd, true, p, "directed randomBipartite(" + N + "," + K + "," + P + ")");
	{	// all labelled trees with 2..4 vertices are equally likely; a vertex of a growing graph prefers no earlier vertex
		Integer q = c.r.in(2, 4), total = q == 2 ? 1 : q == 3 ? 3 : 16; std::map<std::set<PII>, u64> t, td; int times = 1600 * int(total);
		for (int i = 0; i < times; i++) {
			{ auto g = randomTree(q); std::set<PII> s; for (auto e : g.getEdges()) s.insert(std::minmax<Integer>(e.from, e.to)); t[s]++; }
			{ auto g = randomTree<NoData, true>(q); std::set<PII> s; for (auto e : g.getEdges()) s.insert({e.from, e.to}); td[s]++; }
		}
		for (auto* x : {&t, &td}) {
			VCHECK(c, Integer(x->size()) == total, "C26.fair", "randomTree(" << q << "): only " << x->size() << " of " << total << " trees occur");
			for (auto& [s, cnt] : *x) VCHECK(c, std::abs(double(cnt) - 1600) <= 6.5 * 40, "C26.fair", "randomTree(" << q << "): a tree occurs " << cnt << " times in " << times << " draws");
		}
	}
	{
		Integer q = c.r.in(3, 7); Real gp = c.r.pick<Real>({1.0_real, 0.9_real, 0.6_real, Real(0.3 + 0.7 * c.r.unit())}); std::map<PII, u64> got; std::vector<double> deg(q);
		for (int i = 0; i < draws; i++) { auto g = randomGrowingGraph(q, gp); for (auto e : g.getEdges()) { auto pr = std::minmax<Integer>(e.from, e.to); got[pr]++; deg[pr.second]++; } }
		for (Integer x = 1; x < q; x++) {
			// the number of earlier neighbours is floor(p * uniform in [0, x+1))
			double mean = 0, top = double(gp) * double(x + 1); for (Integer j = 1; double(j) < top; j++) mean += (top - double(j)) / top;
			VCHECK(c, std::abs(deg[x] / draws - mean) <= 6.5 * double(x + 1) / std::sqrt(double(draws)) , "C26.fair", "randomGrowingGraph(" << q << "," << double(gp) << "): vertex " << x << " has " << deg[x] / draws << " earlier neighbours on average, expected " << mean);
			std::vector<PII> all; for (Integer y = 0; y < x; y++) all.emplace_back(y, x);
			fair(c, got, all, draws, mean / double(x), "randomGrowingGraph(" + std::to_string(q) + "," + std::to_string(double(gp)) + ")");
		}
	}
}

inline bool erdosGallai(std::vector<Integer> d) {
	Integer sum = 0, n = Integer(d.size());
	for (Integer x : d) { if (x < 0 || x >= std::max<Integer>(n, 1)) return false; sum += x; }
	if (sum % 2) return false;
	std::sort(d.rbegin(), d.rend()); Integer left = 0;
	for (Integer k = 1; k <= n; k++) { left += d[k - 1]; Integer right = k * (k - 1); for (Integer i = k; i < n; i++) right += std::min(d[i], k); if (left > right) return false; }
	return true;
}
template<class E> void degrees(Ctx& c) {
	Integer n = c.r.chance(1, 100) ? c.r.border(300) : c.r.size(c.r.chance(1, 30) ? 80 : 12); std::vector<Integer> d(n);
	int kind = int(c.r.below(5));
	if (kind <= 1 && n > 1) {   // degrees of a random graph: realisable
		Integer t = c.r.below(n * n); std::set<PII> es; for (Integer i = 0; i < t; i++) { Integer a = c.r.below(n), b = c.r.below(n); if (a != b && es.insert(std::minmax(a, b)).second) { d[a]++; d[b]++; } }
		if (kind == 1) { d[c.r.below(n)] += c.r.pick<Integer>({1, -1, 2}); if (c.r.chance(1, 2)) d[c.r.below(n)] += c.r.pick<Integer>({1, -1, 2}); }
	} else if (kind == 2) { for (auto& x : d) x = 0; }
	else if (kind == 3) { for (auto& x : d) x = n - 1 - Integer(c.r.below(2)); }
	else for (auto& x : d) x = c.r.in(0, std::max<Integer>(n, 1));
	if (n && c.r.chance(1, 25)) d[c.r.below(n)] = c.r.pick<Integer>({-1, -2, -(1ll << 62), 1ll << 40});
	Integer flips = c.r.pick<Integer>({0, 1, 10, 10, 30});
	std::string what = "randomGraph(degrees " + show(d) + "," + std::to_string(flips) + ")"; c.fp(what); c.note(what); if (c.wantSample()) c.sample(what);
	Random::seed(Integer(c.r.next() >> 1));
	bool can = erdosGallai(d); c.ev(can ? "realisable" : "unrealisable");
	if (!can) { VCHECK(c, throwsStd([&] { randomGraph<E>(d, flips); }), "C26.degrees", what << " is not realisable but accepted"); return; }
	auto g = flips == 10 && c.r.chance(1, 2) ? randomGraph<E>(d) : randomGraph<E>(d, flips);
	consistent(c, g, what, n);
	for (Integer i = 0; i < n; i++) VCHECK(c, g.degree(i) == d[i], "C26.degrees", what << ": vertex " << i << " has degree " << g.degree(i));
}
GROUP(C26, degrees, 900, 60000) { degrees<NoData>(c); }
GROUP(C26, degreesData, 150, 8000) { degrees<Integer>(c); }

GROUP(C26, growing, 300, 20000) {
	Integer n = c.r.size(60, 260); Real p = c.r.pick<Real>({0.0_real, 1.0_real, 0.5_real, Real(c.r.unit())}); Random::seed(Integer(c.r.next() >> 1));
	std::string what = "randomGrowingGraph(" + std::to_string(n) + "," + std::to_string((double)p) + ")"; c.fp(what); c.fp(c.idx); c.note(what);
	auto g = randomGrowingGraph(n, p); M m = consistent(c, g, what, n);
	std::vector<Integer> down(n); for (auto& [e, v] : m.e) down[std::max(e.first, e.second)]++;
	for (Integer i = 0; i < n; i++) VCHECK(c, down[i] <= i && down[i] <= Integer(std::floor(p * Real(i + 1))), "C26.growing", what << ": vertex " << i << " has " << down[i] << " earlier neighbours");
	VCHECK(c, throwsStd([&] { randomGrowingGraph(n, -0.1_real); }) && throwsStd([&] { randomGrowingGraph(n, 1.1_real); }), "C26.reject", "p outside [0,1] accepted");
}
#endif

VHV_MAIN
