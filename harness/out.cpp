// C12: printed output vs an independent renderer
#ifdef VH_PREC
namespace Settings { constexpr int DEFAULT_PRECISION = VH_PREC; }
#else
#define VH_PREC 6
#endif
#include <iterator>
#include "vhv.h"
using vh::Ctx; using vh::i64; using vh::u64; using std::string; using std::vector;

static string ren(bool x) { return x ? "true" : "false"; }
static string ren(char x) { return string(1, x); }
static string ren(const string& x) { return x; }
static string ren(const char* x) { return x; }
static string ren(std::string_view x) { return string(x); }
static string ren(int x) { return std::to_string(x); }
static string ren(i64 x) { return std::to_string(x); }
static string ren(u64 x) { return std::to_string(x); }
static string ren(long double x) { char b[8000]; std::snprintf(b, sizeof b, "%.*Lf", VH_PREC, x); return b; }
static string ren(double x) { return ren((long double)x); }
static string ren(float x) { return ren((long double)x); }
template<class A, class B> string ren(const std::pair<A, B>& p);
template<class... A> string ren(const std::tuple<A...>& t);
template<class T> auto ren(const T& c) -> decltype(c.begin(), string());
template<class T, std::size_t N> string renArr(const T (&a)[N]);
template<class It> string renJoin(It b, It e, char sep) { string s; bool f = true; for (; b != e; ++b) { if (!f && sep) s += sep; f = false; s += ren(*b); } return s; }
template<class T, std::size_t N> string renArr(const T (&a)[N]) { return renJoin(a, a + N, ' '); }
template<class Tup, std::size_t... I> string renTup(const Tup& t, char sep, std::index_sequence<I...>) { string s; ((s += string(I && sep ? 1 : 0, sep) + ren(std::get<I>(t))), ...); return s; }
template<class A, class B> string ren(const std::pair<A, B>& p) { return ren(p.first) + " " + ren(p.second); }
template<class... A> string ren(const std::tuple<A...>& t) { return renTup(t, ' ', std::index_sequence_for<A...>{}); }
template<class T> auto ren(const T& c) -> decltype(c.begin(), string()) { return renJoin(c.begin(), c.end(), ' '); }

template<class T> static string printed(const T& x) { std::ostringstream os; OutputStream o(os); o << x; return os.str(); }
template<class T> static void same(Ctx& c, const char* what, const string& got, const T& want) { c.fp(string(what)); c.fp(string(want)); c.note(string(what) + " " + vh::esc(want)); VCHECK(c, got == want, string("C12.") + what, what << " printed \"" << vh::esc(got) << "\" instead of \"" << vh::esc(string(want)) << "\""); c.ev("renderings compared"); }

static string word(vh::Rng& r) { string s; int n = r.chance(1, 150) ? r.border(5000) : int(r.below(6)); for (int i = 0; i < n; i++) s += char(r.below(256)); return s; }
static long double real(vh::Rng& r) { switch (r.below(7)) { case 0: return r.pick({0.0L, -0.0L, 0.5L, 0.0000005L, 0.0000015L, 999999.9999995L, 1e18L, -1e30L, 1e-30L}); case 1: return (long double)r.in(-100, 100); case 2: return (long double)r.in(-1000, 1000) / 64; case 3: return (long double)r.wild(); default: return ((long double)r.unit() - 0.5L) * std::pow(10.0L, (long double)r.in(-8, 12)); } }
template<class F> static auto vec(vh::Rng& r, int mx, F f) { vector<decltype(f())> v; int n = r.size(mx, 900); for (int i = 0; i < n; i++) v.push_back(f()); return v; }
static char sepOf(vh::Rng& r) { switch (r.below(6)) { case 0: return ' '; case 1: return '\n'; case 2: return '\0'; case 3: return ','; case 4: return '\xff'; default: return char(r.below(256)); } }

GROUP(C12, scalars, 15000, 2000000) {
	vh::Rng& r = c.r;
	switch (r.below(10)) {
		case 0: { i64 x = r.wild(); same(c, "Integer", printed(x), ren(x)); break; }
		case 1: { long double x = real(r); same(c, "Real", printed(x), ren(x)); break; }
		case 2: { double x = double(real(r)); same(c, "double", printed(x), ren(x)); break; }
		case 3: { bool x = r.chance(1, 2); same(c, "bool", printed(x), ren(x)); break; }
		case 4: { string x = word(r); same(c, "string", printed(x), x); same(c, "string_view", printed(std::string_view(x)), x); break; }
		case 5: { char x = char(r.below(256)); same(c, "char", printed(x), ren(x)); break; }
		case 6: { u64 x = r.next(); same(c, "unsigned", printed(x), ren(x)); break; }
		case 7: { string x = word(r); x.erase(std::remove(x.begin(), x.end(), '\0'), x.end()); const char* p = x.c_str(); same(c, "char pointer", printed(p), x); break; }
		case 8: { std::ostringstream os; OutputStream o(os); o << "lit" << 5 << std::endl << true << ' ' << 2.5 << NEWLINE << string("x") << std::flush; same(c, "chain", os.str(), "lit5\ntrue " + ren(2.5) + "\nx"); break; }
		default: { float x = float(r.in(-1000, 1000)) / 8; same(c, "float", printed(x), ren(x)); break; }
	}
}
GROUP(C12, containers, 20000, 2000000) {
	vh::Rng& r = c.r;
	auto I = [&] { return r.wild(); }; auto R = [&] { return real(r); }; auto W = [&] { return word(r); }; auto B = [&] { return r.chance(1, 2); };
	switch (r.below(22)) {
		case 0: { auto v = vec(r, 12, I); same(c, "vector<Integer>", printed(v), ren(v)); same(c, "set", printed(std::set<i64>(v.begin(), v.end())), ren(std::set<i64>(v.begin(), v.end()))); same(c, "list", printed(std::list<i64>(v.begin(), v.end())), ren(v)); same(c, "deque", printed(std::deque<i64>(v.begin(), v.end())), ren(v)); same(c, "multiset", printed(std::multiset<i64>(v.begin(), v.end())), ren(std::multiset<i64>(v.begin(), v.end()))); break; }
		case 1: { auto v = vec(r, 12, R); same(c, "vector<Real>", printed(v), ren(v)); break; }
		case 2: { auto v = vec(r, 12, W); same(c, "vector<string>", printed(v), ren(v)); break; }
		case 3: { auto v = vec(r, 12, B); same(c, "vector<bool>", printed(v), ren(v)); vector<bool> w(v); std::ostringstream os; OutputStream o(os); o << w; same(c, "vector<bool>", os.str(), ren(v)); break; }
		case 4: { auto v = vec(r, 5, [&] { return vec(r, 5, I); }); same(c, "nested", printed(v), ren(v)); break; }
		case 5: { auto v = vec(r, 4, [&] { return vec(r, 3, [&] { return vec(r, 3, B); }); }); same(c, "nested3", printed(v), ren(v)); break; }
		case 6: { auto v = vec(r, 8, [&] { return std::make_pair(r.wild(), real(r)); }); same(c, "vector<pair>", printed(v), ren(v)); break; }
		case 7: { auto v = vec(r, 8, [&] { return std::make_tuple(r.wild(), word(r), B(), 'x'); }); same(c, "vector<tuple>", printed(v), ren(v)); break; }
		case 8: { std::map<i64, string> m; for (auto x : vec(r, 6, I)) m[x] = word(r); same(c, "map", printed(m), ren(m)); break; }
		case 9: { std::map<string, vector<std::pair<i64, i64>>> m; for (auto x : vec(r, 5, W)) m[x] = vec(r, 3, [&] { return std::make_pair(r.in(-9, 9), r.in(-9, 9)); }); same(c, "map of vectors", printed(m), ren(m)); break; }
		case 10: { std::array<i64, 4> a{r.wild(), r.wild(), 0, 1}; same(c, "array", printed(a), ren(a)); std::array<std::array<bool, 2>, 3> b{}; b[1][0] = true; same(c, "nested array", printed(b), ren(b)); std::array<int, 0> z{}; same(c, "empty array", printed(z), ""); break; }
		case 11: { int a[5] = {1, int(r.in(-9, 9)), 3, 4, -5}; same(c, "C array", printed(a), renArr(a)); int b[2][3] = {{1, 2, 3}, {4, 5, int(r.in(0, 9))}}; same(c, "nested C array", printed(b), ren(b[0][0]) + " 2 3 4 5 " + ren(b[1][2])); break; }
		case 12: { auto p = std::make_pair(vec(r, 4, I), std::make_pair(B(), word(r))); same(c, "pair of containers", printed(p), ren(p.first) + " " + ren(p.second)); break; }
		case 13: { auto t = std::make_tuple(1, std::make_pair(2, true), vec(r, 3, R), word(r), std::make_tuple('a', 2.5)); same(c, "nested tuple", printed(t), ren(t)); std::tuple<> e; same(c, "empty tuple", printed(e), ""); same(c, "1-tuple", printed(std::make_tuple(7)), "7"); break; }
		case 14: { std::unordered_set<i64> s; for (auto x : vec(r, 6, I)) s.insert(x); same(c, "unordered_set", printed(s), ren(s)); break; }
		case 15: { auto v = vec(r, 6, [&] { return std::array<long double, 2>{real(r), real(r)}; }); same(c, "vector<array>", printed(v), ren(v)); break; }
		case 16: { std::set<std::pair<i64, bool>> s; for (auto x : vec(r, 6, I)) s.insert({x, B()}); same(c, "set<pair>", printed(s), ren(s)); break; }
		case 17: { vector<const char*> v{"a", "", "xyz"}; v.resize(r.below(4), "q"); same(c, "vector<char*>", printed(v), ren(v)); break; }
		case 18: { vector<char> v; for (auto& w : vec(r, 3, W)) v.insert(v.end(), w.begin(), w.end()); same(c, "vector<char>", printed(v), ren(v)); break; }
		case 19: { std::initializer_list<int> l{1, 2, 3}; same(c, "initializer_list", printed(l), "1 2 3"); break; }
		case 20: { vector<vector<string>> v = vec(r, 4, [&] { return vec(r, 3, W); }); same(c, "vector<vector<string>>", printed(v), ren(v)); break; }
		default: { std::forward_list<int> l; for (auto x : vec(r, 6, I)) l.push_front(int(x)); same(c, "forward_list", printed(l), ren(l)); }
	}
	if (c.wantSample()) { auto v = vec(r, 5, [&] { return std::make_pair(r.in(0, 9), real(r)); }); c.sample(printed(v)); }
}
static const int SEQ18[18] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18};
template<class J> static void joined(Ctx& c, const char* what, J&& j, const string& want) {   // printing twice and converting must agree
	std::ostringstream os; OutputStream o(os); o << j; same(c, what, os.str(), want);
	same(c, what, j.asString(), want); same(c, what, std::string(j), want);
	std::ostringstream o2; OutputStream p(o2); p << "<" << j << ">" << j; same(c, what, o2.str(), "<" + want + ">" + want);
}
template<class J> static void joinedOnce(Ctx& c, const char* what, J&& j, const string& want) { std::ostringstream os; OutputStream o(os); o << j; same(c, what, os.str(), want); }
GROUP(C12, join, 25000, 2000000) {
	vh::Rng& r = c.r; char s = sepOf(r); bool d = r.chance(1, 5); if (d) s = ' ';
	auto I = [&] { return r.wild(); }; auto R = [&] { return real(r); }; auto W = [&] { return word(r); }; auto B = [&] { return r.chance(1, 2); };
	auto cont = [&](const char* nm, auto v) {
		const auto& k = v; string want = renJoin(k.begin(), k.end(), s);
		using std::begin; using std::end;
		if (d) { joined(c, nm, join(v), want); joined(c, nm, join(k), want); joined(c, nm, join(v.begin(), v.end()), want); joined(c, nm, join(decltype(v)(v)), want); }
		else { joined(c, nm, join(v, s), want); joined(c, nm, join(k, s), want); joined(c, nm, join(v.begin(), v.end(), s), want); joined(c, nm, join(k.begin(), k.end(), s), want); joined(c, nm, join(decltype(v)(v), s), want); }
		auto tmp = join(decltype(v)(v), s); vector<string> noise(20, string(100, 'z'));   // the temporary is owned
		joined(c, nm, tmp, want);
		joined(c, nm, join(std::move(v), s), want);
	};
	switch (r.below(17)) {
		case 0: cont("join vector<Integer>", vec(r, 10, I)); break;
		case 1: cont("join vector<Real>", vec(r, 10, R)); break;
		case 2: cont("join vector<string>", vec(r, 10, W)); break;
		case 3: cont("join vector<bool>", vec(r, 10, B)); break;
		case 4: { auto v = vec(r, 10, I); cont("join set", std::set<i64>(v.begin(), v.end())); cont("join list", std::list<i64>(v.begin(), v.end())); break; }
		case 5: cont("join nested", vec(r, 5, [&] { return vec(r, 4, I); })); break;
		case 6: cont("join vector<pair>", vec(r, 6, [&] { return std::make_pair(r.wild(), word(r)); })); break;
		case 7: cont("join vector<tuple>", vec(r, 6, [&] { return std::make_tuple(B(), real(r), r.in(0, 3)); })); break;
		case 8: { string w = word(r); cont("join string", w); std::string_view sv(w); joined(c, "join string_view", join(sv, s), renJoin(w.begin(), w.end(), s)); break; }
		case 9: { std::map<i64, i64> m; for (auto x : vec(r, 6, I)) m[x] = r.wild(); cont("join map", m); break; }
		case 10: { auto p = std::make_pair(r.wild(), vec(r, 3, I)); string want = ren(p.first) + string(s ? 1 : 0, s) + ren(p.second); joined(c, "join pair", join(p, s), want); const auto& k = p; joined(c, "join const pair", join(k, s), want); joined(c, "join temporary pair", join(decltype(p)(p), s), want); auto t = join(decltype(p)(p), s); joined(c, "join owned pair", t, want); break; }
		case 11: { auto t = std::make_tuple(r.wild(), word(r), B(), real(r), std::make_pair(1, 2)); string want = renTup(t, s, std::make_index_sequence<5>{}); joined(c, "join tuple", join(t, s), want); const auto& k = t; joined(c, "join const tuple", join(k, s), want); joined(c, "join temporary tuple", join(decltype(t)(t), s), want); auto e = std::make_tuple(5); joined(c, "join 1-tuple", join(e, s), "5");
			auto l = std::make_tuple(1, word(r), B(), real(r), r.wild(), 'c', word(r), 8, 9, 10, word(r), r.in(0, 5), 13, 14, B(), 16, 17, word(r)); joined(c, "join long tuple", join(l, s), renTup(l, s, std::make_index_sequence<18>{})); same(c, "long tuple", printed(l), renTup(l, ' ', std::make_index_sequence<18>{})); break; }
		case 12: { std::array<i64, 3> a{r.wild(), 2, r.wild()}; string want = renJoin(a.begin(), a.end(), s); joined(c, "join array", join(a, s), want); const auto& k = a; joined(c, "join const array", join(k, s), want); joined(c, "join temporary array", join(decltype(a)(a), s), want);
			std::array<i64, 70> g; for (auto& y : g) y = r.wild() >> r.below(64); joined(c, "join long array", join(g, s), renJoin(g.begin(), g.end(), s)); same(c, "long array", printed(g), renJoin(g.begin(), g.end(), ' ')); break; }
		case 13: { i64 x = r.wild(); string w = word(r); bool b = B(); string S(s ? 1 : 0, s); joinedOnce(c, "join braces", join({x, w, b}, s), ren(x) + S + w + S + ren(b)); joinedOnce(c, "join braces", join({x, x + 0, i64(3)}, s), ren(x) + S + ren(x) + S + "3"); same(c, "join braces", join({w, 2.5, 'c', 7}, s).asString(), w + S + ren(2.5) + S + "c" + S + "7"); joinedOnce(c, "join braces", join({std::make_pair(x, b), w}, s), ren(x) + " " + ren(b) + S + w);
			{ auto l = std::make_tuple(x, w, 3, 4, string("five"), b, 7, 8, 9, 'x', 11, w, 13, x, 15, 16, 17, w, 19); joinedOnce(c, "join long braces", join({x, w, 3, 4, string("five"), b, 7, 8, 9, 'x', 11, w, 13, x, 15, 16, 17, w, 19}, s), renTup(l, s, std::make_index_sequence<19>{})); joinedOnce(c, "join equal braces", join({1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18}, s), renJoin(&SEQ18[0], &SEQ18[18], s)); } break; }
		case 15: {   // single-pass ranges
			auto v = vec(r, 8, I); std::ostringstream t; for (auto x : v) t << x << ' ';
			{ std::istringstream is(t.str()); joinedOnce(c, "join istream_iterator", join(std::istream_iterator<i64>(is), std::istream_iterator<i64>(), s), renJoin(v.begin(), v.end(), s)); }
			string w = word(r); std::istringstream is(w); joinedOnce(c, "join istreambuf_iterator", join(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>(), s), renJoin(w.begin(), w.end(), s)); break; }
		case 14: { string S(s ? 1 : 0, s); joined(c, "join literal", join("abc", s), "a" + S + "b" + S + "c"); char buf[] = "xy"; joined(c, "join char array", join(buf, s), "x" + S + "y"); const char cb[] = "q"; joined(c, "join const char array", join(cb, s), "q"); joined(c, "join empty literal", join("", s), ""); char z[] = {'1', '\0', '2', '\0'}; joined(c, "join char array with NUL", join(z, s), "1" + S + string(1, '\0') + S + "2"); break; }
		default: { int a[4] = {int(r.in(-9, 9)), 2, 3, int(r.in(-9, 9))}; string want = renJoin(a, a + 4, s); joined(c, "join C array", join(a, s), want); const auto& k = a; joined(c, "join const C array", join(k, s), want); joined(c, "join pointers", join(a, a + 4, s), want); joined(c, "join empty", join(a, a, s), ""); break; }
	}
}
GROUP(C12, to_file, 150, 3000) {     // the stream opened by path delivers the same bytes
	string path = "vh-out-" + std::to_string(getpid()) + ".txt"; string want;
	{ OutputStream o(std::filesystem::path(path), std::ios::out); int n = 1 + int(c.r.below(200)); for (int i = 0; i < n; i++) { auto v = vec(c.r, 8, [&] { return c.r.wild(); }); auto w = std::make_tuple(c.r.chance(1, 2), real(c.r), vec(c.r, 3, [&] { return real(c.r); }));
		switch (c.r.below(4)) { case 0: o << v << '\n'; want += ren(v) + "\n"; break; case 1: o << join(v, ';') << std::endl; want += renJoin(v.begin(), v.end(), ';') + "\n"; break; case 2: o << w << '\n'; want += ren(w) + "\n"; break; default: o << join(w, ',') << '\n'; want += renTup(w, ',', std::make_index_sequence<3>{}) + "\n"; } }
		OutputStream p = std::move(o); p << "end" << true << 1.5; want += "endtrue" + ren(1.5);
		OutputStream q; q = std::move(p); auto x = real(c.r); q << ' ' << x << false; want += " " + ren(x) + "false"; }
	std::ifstream f(path, std::ios::binary); string got((std::istreambuf_iterator<char>(f)), {}); unlink(path.c_str());
	same(c, "file", got, want);
	VCHECK(c, vh::throwsStd([&] { OutputStream o(std::filesystem::path("vh-missing-dir/x"), std::ios::out); }), "C12.file", "unwritable file accepted");
	OutputStream null; null << 5 << "x" << std::endl;   // discards
}
VHV_MAIN
