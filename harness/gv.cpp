// C27 (undirected), C28 (directed): graph_val.h after every inserted edge
#include "vhv.h"
#include "graph_val.h"
using namespace vh;
using PII = std::pair<Integer, Integer>;

struct Ref {   // multigraph on [lo, lo+n)
	Integer lo, n; std::vector<PII> es;
	std::string str() const { std::ostringstream os; os << "[" << lo << "," << lo + n << ")"; for (auto [a, b] : es) os << " " << a << ">" << b; return os.str(); }
	std::vector<int> comp() const {   // undirected components by flooding
		std::vector<int> l(n, -1); int k = 0;
		std::vector<std::vector<int>> adj(n); for (auto [a, b] : es) { adj[a - lo].push_back(int(b - lo)); adj[b - lo].push_back(int(a - lo)); }
		for (int s = 0; s < n; s++) if (l[s] < 0) { std::vector<int> st{s}; l[s] = k; while (!st.empty()) { int x = st.back(); st.pop_back(); for (int y : adj[x]) if (l[y] < 0) { l[y] = k; st.push_back(y); } } k++; }
		return l;
	}
};

template<class S> bool sameSet(const S& s, const std::set<Integer>& t) { return s.size() == t.size() && std::equal(t.begin(), t.end(), s.begin()); }

inline void judge(Ctx& c, Graph& g, const Ref& r, bool all) {
	const Graph& cg = g; Integer n = r.n, lo = r.lo;
	auto l = r.comp(); int k = l.empty() ? 0 : *std::max_element(l.begin(), l.end()) + 1;
	bool con = k == 1, forest = Integer(r.es.size()) == n - k;
	std::vector<std::vector<int>> adj(n); for (auto [a, b] : r.es) { adj[a - lo].push_back(int(b - lo)); adj[b - lo].push_back(int(a - lo)); }
	bool bip = true; std::vector<int> col(n, -1);
	for (int s = 0; s < n; s++) if (col[s] < 0) { col[s] = 0; std::vector<int> st{s}; while (!st.empty()) { int x = st.back(); st.pop_back(); for (int y : adj[x]) { if (col[y] < 0) { col[y] = 1 - col[x]; st.push_back(y); } else if (col[y] == col[x]) bip = false; } } }
	auto T = [&](const char* key, bool got, bool want) { VCHECK(c, got == want, std::string("C27.") + key, key << " is " << got << " for " << r.str()); c.ev(want ? "true verdicts" : "false verdicts"); };
	if (n > 0) { T("isConnected", cg.isConnected(), con); T("isTree", cg.isTree(), con && forest); }
	T("isForest", cg.isForest(), forest); T("isBipartite", cg.isBipartite(), bip);
	VCHECK(c, cg.size() == std::size_t(n) && cg.nodeCount() == n && cg.edgeCount() == Integer(r.es.size()), "C27.count", "counts for " << r.str());
	std::map<PII, int> mult; std::set<Integer> loops; std::vector<std::set<Integer>> nb(n);
	for (auto [a, b] : r.es) { mult[std::minmax(a, b)]++; if (a == b) loops.insert(a); nb[a - lo].insert(b); nb[b - lo].insert(a); }
	bool multi = false; for (auto& [e, q] : mult) multi |= q > 1;
	auto sl = cg.hasSelfloop(); auto me = cg.hasMultiedge();
	T("hasSelfloop", sl.has_value(), !loops.empty()); T("hasMultiedge", me.has_value(), multi);
	if (sl) VCHECK(c, loops.count(*sl), "C27.hasSelfloop", "witness " << *sl << " for " << r.str());
	if (me) { auto it = mult.find(std::minmax(me->first, me->second)); VCHECK(c, it != mult.end() && it->second > 1, "C27.hasMultiedge", "witness " << me->first << " " << me->second << " for " << r.str()); }
	for (Integer i = 0; i < n; i++) {
		if (!all && !c.r.chance(1, std::max<Integer>(8, n / 30))) continue;
		Integer v = lo + i;
		VCHECK(c, sameSet(cg[v], nb[i]), "C27.neighbours", "neighbours of " << v << " are " << show(cg[v]) << " for " << r.str());
		VCHECK(c, cg.degree(v) == Integer(nb[i].size()), "C27.degree", "degree of " << v << " is " << cg.degree(v) << " for " << r.str());
		for (Integer j = 0; j < n; j++) {
			if (!all && !c.r.chance(1, std::max<Integer>(8, n / 30))) continue;
			VCHECK(c, cg.hasEdge(v, lo + j) == (nb[i].count(lo + j) > 0), "C27.hasEdge", "hasEdge(" << v << "," << lo + j << ") for " << r.str());
			VCHECK(c, g.areConnected(v, lo + j) == (l[i] == l[j]), "C27.areConnected", "areConnected(" << v << "," << lo + j << ") for " << r.str());
		}
	}
	c.ev("graph states judged");
}

inline void judge(Ctx& c, DiGraph& dg, const Ref& r, bool all) {
	const DiGraph& g = dg; Integer n = r.n, lo = r.lo;
	auto T = [&](const char* key, bool got, bool want) { VCHECK(c, got == want, std::string("C28.") + key, key << " is " << got << " for " << r.str()); c.ev(want ? "true verdicts" : "false verdicts"); };
	std::map<PII, int> mult; std::set<Integer> loops; std::vector<std::set<Integer>> out(n), in(n);
	for (auto [a, b] : r.es) { mult[{a, b}]++; if (a == b) loops.insert(a); out[a - lo].insert(b); in[b - lo].insert(a); }
	bool multi = false; for (auto& [e, q] : mult) multi |= q > 1;
	// acyclic: repeatedly remove vertices without incoming edges
	std::vector<int> deg(n); for (auto& [e, q] : mult) deg[e.second - lo]++;
	std::vector<Integer> st; std::size_t gone = 0; for (Integer i = 0; i < n; i++) if (!deg[i]) st.push_back(i);
	while (!st.empty()) { Integer x = st.back(); st.pop_back(); gone++; for (Integer y : out[x]) if (--deg[y - lo] == 0) st.push_back(y - lo); }
	bool acyclic = gone == std::size_t(n);
	auto ord = g.isDAG(); T("isDAG", ord.has_value(), acyclic);
	if (ord) {
		std::map<Integer, std::size_t> pos; for (std::size_t i = 0; i < ord->size(); i++) pos[(*ord)[i]] = i;
		bool ok = pos.size() == std::size_t(n) && ord->size() == std::size_t(n);
		for (auto& [v, i] : pos) ok &= v >= lo && v < lo + n;
		for (auto [a, b] : r.es) ok = ok && pos[a] < pos[b];
		VCHECK(c, ok, "C28.order", "order " << show(*ord) << " for " << r.str());
	}
	std::optional<Integer> root;
	if (n > 0 && Integer(r.es.size()) == n - 1) for (Integer s = 0; s < n && !root; s++) {
		if (!in[s].empty()) continue;
		std::vector<char> seen(n); seen[s] = 1; std::vector<Integer> q{s}; Integer cnt = 1;
		while (!q.empty()) { Integer x = q.back(); q.pop_back(); for (Integer y : out[x]) if (!seen[y - lo]) { seen[y - lo] = 1; cnt++; q.push_back(y - lo); } }
		if (cnt == n) root = lo + s;
	}
	auto got = g.isTree(); T("isTree", got.has_value(), root.has_value());
	if (got) VCHECK(c, got == root, "C28.root", "root " << *got << " for " << r.str());
	VCHECK(c, g.size() == std::size_t(n) && g.nodeCount() == n && g.edgeCount() == Integer(r.es.size()), "C28.count", "counts for " << r.str());
	auto sl = g.hasSelfloop(); auto me = g.hasMultiedge();
	T("hasSelfloop", sl.has_value(), !loops.empty()); T("hasMultiedge", me.has_value(), multi);
	if (sl) VCHECK(c, loops.count(*sl), "C28.hasSelfloop", "witness " << *sl << " for " << r.str());
	if (me) { auto it = mult.find(*me); VCHECK(c, it != mult.end() && it->second > 1, "C28.hasMultiedge", "witness " << me->first << " " << me->second << " for " << r.str()); }
	for (Integer i = 0; i < n; i++) {
		if (!all && !c.r.chance(1, std::max<Integer>(8, n / 30))) continue;
		Integer v = lo + i;
		VCHECK(c, sameSet(g[v], out[i]) && sameSet(g.inEdges(v), in[i]), "C28.neighbours", "neighbours of " << v << " are " << show(g[v]) << "/" << show(g.inEdges(v)) << " for " << r.str());
		VCHECK(c, g.outDegree(v) == Integer(out[i].size()) && g.inDegree(v) == Integer(in[i].size()), "C28.degree", "degrees of " << v << " are " << g.outDegree(v) << "/" << g.inDegree(v) << " for " << r.str());
		for (Integer j = 0; j < n; j++) {
			if (!all && !c.r.chance(1, std::max<Integer>(8, n / 30))) continue;
			VCHECK(c, g.hasEdge(v, lo + j) == (out[i].count(lo + j) > 0), "C28.hasEdge", "hasEdge(" << v << "," << lo + j << ") for " << r.str());
			VCHECK(c, g.hasReverse(v, lo + j) == (in[i].count(lo + j) > 0), "C28.hasReverse", "hasReverse(" << v << "," << lo + j << ") for " << r.str());
		}
	}
	c.ev("graph states judged");
}

inline Integer offset(Ctx& c) { return c.r.pick<Integer>({0, 0, 1, 1, 2, 7, -1, -5, 1000000007, -(1ll << 40), (1ll << 62)}); }
// edge sequences: random, mostly trees (with occasional repetitions and loops), random DAGs, cycles
inline std::vector<PII> sequence(Ctx& c, Integer lo, Integer n, std::size_t mx) {
	std::vector<PII> es; if (n == 0) return es;
	std::vector<Integer> id(n); std::iota(id.begin(), id.end(), lo); for (std::size_t i = n; i > 1; i--) std::swap(id[i - 1], id[c.r.below(i)]);
	auto sh = [&](std::vector<PII>& v) { for (std::size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[c.r.below(i)]); };
	switch (c.r.below(6)) {
		case 0: for (std::size_t k = c.r.below(mx + 1); k--;) es.emplace_back(id[c.r.below(n)], id[c.r.below(n)]); break;
		case 1: case 2: {   // out tree in random insertion order, maybe one edge flipped / replaced / added
			for (Integer i = 1; i < n; i++) es.emplace_back(id[c.r.chance(1, 2) ? i - 1 : Integer(c.r.below(i))], id[i]);
			sh(es);
			if (!es.empty()) switch (c.r.below(6)) {
				case 0: { auto& e = es[c.r.below(es.size())]; std::swap(e.first, e.second); break; }
				case 1: { auto& e = es[c.r.below(es.size())]; e = {id[c.r.below(n)], id[c.r.below(n)]}; break; }
				case 2: es.insert(es.begin() + c.r.below(es.size() + 1), {id[c.r.below(n)], id[c.r.below(n)]}); break;
				case 3: { auto e = es[c.r.below(es.size())]; if (c.r.chance(1, 2)) std::swap(e.first, e.second); es.insert(es.begin() + c.r.below(es.size() + 1), e); break; }
				default: break;
			}
			break;
		}
		case 3: for (std::size_t k = c.r.below(mx + 1); k-- && n > 1;) { Integer a = c.r.below(n), b = c.r.below(n); if (a == b) continue; if (a > b) std::swap(a, b); es.emplace_back(id[a], id[b]); } if (c.r.chance(1, 3)) es.emplace_back(id[n - 1], id[0]); break;
		case 4: for (Integer i = 0; i < n; i++) es.emplace_back(id[i], id[(i + 1) % n]); sh(es); if (c.r.chance(1, 2)) es.emplace_back(id[0], id[n / 2]); break;
		default: {   // bipartite plus one odd edge
			Integer h = 1 + c.r.below(n); for (std::size_t k = c.r.below(mx + 1); k-- && h < n;) { Integer a = id[c.r.below(h)], b = id[h + c.r.below(n - h)]; if (c.r.chance(1, 2)) std::swap(a, b); es.emplace_back(a, b); }
			if (c.r.chance(1, 2)) es.insert(es.begin() + c.r.below(es.size() + 1), {id[c.r.below(n)], id[c.r.below(n)]});
		}
	}
	return es;
}
template<class G> void run(Ctx& c, Integer maxN, std::size_t mx, bool every) {
	Integer n = c.r.size(int(maxN)), lo = offset(c);
	auto es = sequence(c, lo, n, mx);
	Ref r{lo, n, {}}; G g = lo == 0 && c.r.chance(1, 2) ? G(n) : G(lo, lo + n);
	judge(c, g, r, n <= 12);
	std::size_t i = 0;
	for (auto e : es) {
		r.es.push_back(e); c.fp(u64(e.first)); c.fp(u64(e.second)); c.note(r.str());
		g.addEdge(e.first, e.second); i++;
		if (every || i == es.size() || c.r.chance(1, 40)) judge(c, g, r, n <= 12);
		if (c.r.chance(1, 30)) {   // a copy is a graph of its own; sometimes go on with it
			G h = g; judge(c, h, r, n <= 12); Ref q = r; PII x(lo + Integer(c.r.below(u64(n))), lo + Integer(c.r.below(u64(n))));
			q.es.push_back(x); h.addEdge(x.first, x.second); judge(c, g, r, n <= 12); judge(c, h, q, n <= 12); c.ev("copies continued");
			if (c.r.chance(1, 3)) { g = h; r = q; }
		}
	}
	c.ev("edges inserted", es.size());
	if (c.wantSample()) c.sample(r.str());
}
GROUP(C27, small, 9000, 800000) { run<Graph>(c, 8, 20, true); }
GROUP(C27, large, 40, 3000) { run<Graph>(c, 200, 600, false); }
// thousands of vertices, judged at the end and a few times before (long paths and cycles, hubs, dense parts)
template<class G> void huge(Ctx& c) {
	Integer n = 400 + c.r.border(4096) + (c.idx % 10 == 9 ? c.r.pick({32768, 65536, 140000}) : 0), lo = offset(c); std::size_t mx = std::size_t(c.r.border(8192));
	auto es = sequence(c, lo, n, mx);
	switch (c.r.below(4)) {   // a hub, or a chain inserted in order, reverse or doubling order
		case 0: { Integer h = lo + c.r.below(n), k = c.r.border(int(n)); bool d = c.r.chance(1, 2); es.resize(es.size() / 2); for (Integer i = 0; i < k; i++) { PII e(h, lo + i); if (lo + i == h) continue; if (d) std::swap(e.first, e.second); es.push_back(e); } break; }
		case 1: { es.clear(); for (Integer i = 1; i < n; i++) es.emplace_back(lo + i - 1, lo + i); if (c.r.chance(1, 2)) std::reverse(es.begin(), es.end()); if (c.r.chance(1, 2)) es.insert(c.r.chance(1, 2) ? es.begin() : es.end(), {lo + n - 1, lo + Integer(c.r.below(2)) * (n / 2)}); break; }
		case 2: { es.clear(); for (Integer s = 1; s < n; s *= 2) for (Integer i = 0; i + s < n; i += 2 * s) { Integer a = i + c.r.below(std::min(s, n - i)), b = i + s + c.r.below(std::min(s, n - i - s)); if (c.r.chance(1, 2)) std::swap(a, b); es.emplace_back(lo + a, lo + b); } if (c.r.chance(1, 2)) es.emplace_back(lo + c.r.below(n), lo + c.r.below(n)); break; }
		default: break;
	}
	Ref r{lo, n, {}}; G g(lo, lo + n); std::size_t i = 0; c.fp(u64(n)); c.fp(u64(es.size())); c.fp(c.idx);
	c.note("[" + std::to_string(lo) + "," + std::to_string(lo + n) + ") with " + std::to_string(es.size()) + " edges");
	for (auto e : es) { r.es.push_back(e); g.addEdge(e.first, e.second); i++; if (i == es.size() || c.r.chance(1, 2000)) judge(c, g, r, false); }
	c.ev("edges inserted", es.size());
}
GROUP(C27, huge, 40, 3000) { huge<Graph>(c); }
GROUP(C28, huge, 40, 3000) { huge<DiGraph>(c); }
GROUP(C28, small, 9000, 800000) { run<DiGraph>(c, 8, 20, true); }
GROUP(C28, large, 40, 3000) { run<DiGraph>(c, 200, 600, false); }

// all insertion sequences of length <= 3 (4) on 3 vertices, all of length <= 2 on 4 vertices
template<class G> void exhaustive(Ctx& c) {
	for (Integer n = 1; n <= 4; n++) {
		Integer pairs = n * n, len = n <= 2 ? 4 : n == 3 ? (c.thorough() ? 5 : 4) : (c.thorough() ? 4 : 3); u64 total = 1; for (Integer i = 0; i < len; i++) total *= u64(pairs);
		for (u64 x = c.idx; x < total; x += 48) {
			Integer lo = Integer(x % 3) - 1; Ref r{lo, n, {}}; G g(lo, lo + n); u64 y = x;
			for (Integer i = 0; i < len; i++) { Integer p = Integer(y % u64(pairs)); y /= u64(pairs); PII e(lo + p / n, lo + p % n); r.es.push_back(e); g.addEdge(e.first, e.second); if (i + 1 == len || (x / 48) % 16 == 0) judge(c, g, r, true); }
		}
		c.fp(u64(n));
	}
	c.fp(c.idx);
}
GROUP(C27, exhaustive, 48, 48) { exhaustive<Graph>(c); }
GROUP(C28, exhaustive, 48, 48) { exhaustive<DiGraph>(c); }

GROUP(C27, unionFind, 3000, 200000) {
	Integer n = 1 + c.r.size(c.r.chance(1, 20) ? 120 : 12); UnionFind u(n); const UnionFind& cu = u;
	std::vector<Integer> lab(n); std::iota(lab.begin(), lab.end(), 0); std::string log;
	int kind = int(c.r.below(3)); Integer steps = Integer(c.r.below(2 * n + 6));
	for (Integer s = 0; s < steps; s++) {
		Integer a = c.r.below(n), b = kind == 0 ? Integer(c.r.below(n)) : kind == 1 ? (a + 1) % n : a / 2;
		if (c.r.chance(1, 2)) std::swap(a, b);
		bool want = lab[a] != lab[b]; log += std::to_string(a) + "+" + std::to_string(b) + " "; c.note(log);
		VCHECK(c, u.unionSets(a, b) == want, "C27.unionSets", "n=" << n << " unions " << log << "returned " << !want);
		if (want) { Integer x = lab[a], y = lab[b]; for (auto& q : lab) if (q == x) q = y; }
		bool all = n <= 13 && c.r.chance(1, 2);
		std::map<Integer, Integer> rep;
		for (Integer i = 0; i < n; i++) {
			if (!all && !c.r.chance(1, 6)) continue;
			Integer f = cu.findSet(i);
			VCHECK(c, f >= 0 && f < n && lab[f] == lab[i] && rep.emplace(lab[i], f).first->second == f && cu.findSet(f) == f, "C27.findSet", "n=" << n << " findSet(" << i << ")=" << f << " after " << log);
			Integer j = c.r.below(n);
			VCHECK(c, cu.connected(i, j) == (lab[i] == lab[j]), "C27.connected", "n=" << n << " connected(" << i << "," << j << ") after " << log);
			c.ev("set queries");
		}
	}
	c.fp(log); c.fp(u64(n)); if (c.wantSample()) c.sample(log);
}
GROUP(C27, unionFindDeep, 6, 60) {   // long chains must stay shallow (recursion) and fast
	Integer n = 200000; UnionFind u(n); int kind = int(c.idx % 3); c.fp(c.idx);
	for (Integer i = 1; i < n; i++) VCHECK(c, kind == 0 ? u.unionSets(i - 1, i) : kind == 1 ? u.unionSets(i, i - 1) : u.unionSets(i, i - (i & -i)), "C27.unionSets", "chain " << kind << " at " << i);
	for (int q = 0; q < 1000; q++) VCHECK(c, u.connected(c.r.below(n), c.r.below(n)) && !u.unionSets(c.r.below(n), c.r.below(n)), "C27.connected", "chain not connected");
}
VHV_MAIN
