// C13 sequence predicates, C14 text/range/container helpers
#include "vhv.h"
using vh::u64; using vh::i64;
#ifdef VH_UPPER
#define VH_LOWER 0
#else
#define VH_LOWER 1
#endif

#if !defined(VH_ONLY) || VH_ONLY == 13
template<class T> static T rndT(vh::Rng& r, i64 lo, i64 hi) { return T(r.in(lo, hi)); }

// ---- isPerm with offset, for several integral element types ----
template<class T> static void permOffset(vh::Ctx& c, const char* tn) {
	auto& r = c.r;
	const i64 tmin = std::is_signed_v<T> ? i64(std::numeric_limits<T>::min()) : 0;
	const u64 tmax = u64(std::numeric_limits<T>::max());
	int mx = sizeof(T) == 1 ? 90 : 60;
	int n = r.size(mx, sizeof(T) == 1 ? 256 : 5000);
	i64 off;    // offset such that offset+n-1 is representable
	switch (r.below(5)) {
		case 0: off = 0; break;
		case 1: off = tmin; break;
		case 2: off = i64(std::min<u64>(tmax, u64(INT64_MAX)) - u64(n)) + (n && r.chance(1, 2)); break;   // the largest value is the last but one or last of the type
		default: off = std::is_signed_v<T> ? r.in(-20, 20) : r.in(0, 20);
	}
	if (n && tmax < u64(INT64_MAX) && off > i64(tmax) - n + 1) off = i64(tmax) - n + 1;
	if (off < tmin) off = tmin;
	std::vector<T> v; for (int i = 0; i < n; i++) v.push_back(T(off + i));
	for (int i = n - 1; i > 0; i--) std::swap(v[std::size_t(i)], v[r.below(u64(i) + 1)]);
	const char* kind = "permutation";
	if (n && r.chance(3, 4)) {
		std::size_t p = r.below(u64(n));
		switch (r.below(5)) {
			case 0: v[p] = T(u64(off) + u64(n)); kind = "one too large"; break;
			case 1: v[p] = T(u64(off) - 1); kind = "one too small"; break;
			case 2: v[p] = v[r.below(u64(n))]; kind = "duplicate"; break;
			case 3: v[p] = r.chance(1, 2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min(); kind = "extreme value"; break;
			default: v[p] = T(r.wild()); kind = "wild value";
		}
	}
	T o = T(off);
	std::multiset<T> cnt(v.begin(), v.end());
	bool want = true;
	auto inRange = [&](T x) { return x >= o && (u64(x) - u64(o)) < u64(n); };
	for (T x : cnt) if (!inRange(x) || cnt.count(x) > 1) want = false;
	std::ostringstream os; os << "isPerm<" << tn << ">("; for (T x : v) os << +x << ","; os << " offset " << +o << ")";
	c.note(os.str()); c.fp(os.str()); if (n == 0) c.trivial();
	if (c.wantSample() && !want) c.sample(os.str());
	auto judge = [&](const boolean<T>& b, const char* form) {
		VCHECK(c, bool(b) == want, "C13.isPerm", os.str() << " (" << form << ") = " << bool(b) << " expected " << want);
		if (!want) {
			VCHECK(c, b.hasReason(), "C13.isPerm-witness", os.str() << " has no witness");
			VCHECK(c, cnt.count(*b.reason) && (cnt.count(*b.reason) > 1 || !inRange(*b.reason)), "C13.isPerm-witness", os.str() << " witness " << +*b.reason);
		}
	};
	judge(isPerm(v, o), "container"); judge(isPerm(v.begin(), v.end(), o), "iterators");
	std::deque<T> d(v.begin(), v.end()); judge(isPerm(d, o), "deque");
	std::list<T> l(v.begin(), v.end()); judge(isPerm(l.begin(), l.end(), o), "list");
	if (o == 0) { judge(isPerm(v), "container0"); judge(isPerm(v.begin(), v.end()), "iterators0"); }
	c.ev(want ? "permutation true" : kind);
}
GROUP(C13, isPermOffset, 24000, 800000) {
	switch (c.r.below(7)) {
		case 0: permOffset<int>(c, "int"); break;
		case 1: permOffset<short>(c, "short"); break;
		case 2: permOffset<signed char>(c, "schar"); break;
		case 3: permOffset<unsigned>(c, "unsigned"); break;
		case 4: permOffset<unsigned char>(c, "uchar"); break;
		default: permOffset<Integer>(c, "Integer");
	}
}
template<class T, class G> static void permTwo(vh::Ctx& c, G gen) {
	int n = c.r.size(40, 3000), m = c.r.chance(1, 5) ? c.r.size(40) : n;
	std::vector<T> a, b; for (int i = 0; i < n; i++) a.push_back(gen());
	b = a; for (std::size_t i = b.size(); i > 1; i--) std::swap(b[i - 1], b[c.r.below(i)]);
	while (int(b.size()) > m) b.pop_back();
	while (int(b.size()) < m) b.push_back(gen());
	if (!b.empty() && c.r.chance(1, 2)) { if (c.r.chance(1, 2)) b[c.r.below(b.size())] = gen(); else b[c.r.below(b.size())] = b[c.r.below(b.size())]; }
	if (n + m == 0) c.trivial();
	bool want = std::is_permutation(a.begin(), a.end(), b.begin(), b.end());
	std::string in = "isPerm(" + vh::show(a) + "," + vh::show(b) + ")"; c.note(in); c.fp(in); if (c.wantSample()) c.sample(in);
	auto judge = [&](const boolean<T>& g, const char* form) {
		VCHECK(c, bool(g) == want, "C13.isPerm2", in << " (" << form << ") = " << bool(g));
		if (!want && n == m) VCHECK(c, g.hasReason() && std::count(a.begin(), a.end(), *g.reason), "C13.isPerm2-witness", in << " bad witness");
		if (!want && n != m && g.hasReason()) VCHECK(c, std::count(a.begin(), a.end(), *g.reason), "C13.isPerm2-witness", in << " bad witness");
	};
	judge(isPerm(a, b), "containers"); judge(isPerm(a.begin(), a.end(), b.begin(), b.end()), "iterators");
	std::list<T> l(b.begin(), b.end()); judge(isPerm(a, l), "mixed");
	c.ev(want ? "two sequences: permutation" : n != m ? "two sequences: different length" : "two sequences: different content");
}
// two sequences whose element types differ: equality is the one of the values
template<class T, class U> static void permMixed(vh::Ctx& c, std::vector<T> a, std::vector<U> b) {
	bool want = std::is_permutation(a.begin(), a.end(), b.begin(), b.end(), [](const auto& x, const auto& y) { return x == y; });
	std::string in = "isPerm of different types (" + vh::show(a) + "," + vh::show(b) + ")"; c.note(in); c.fp(in); if (c.wantSample()) c.sample(in);
	VCHECK(c, bool(isPerm(a, b)) == want, "C13.isPerm2", in << " is " << !want); VCHECK(c, bool(isPerm(b, a)) == want, "C13.isPerm2", in << " swapped is " << !want);
	VCHECK(c, bool(isPerm(a.begin(), a.end(), b.begin(), b.end())) == want, "C13.isPerm2", in << " (iterators) is " << !want);
	c.ev(want ? "two element types: permutation" : "two element types: no permutation");
}
GROUP(C13, isPermMixed, 6000, 200000) {
	auto& r = c.r; int n = 1 + r.size(8, 600); std::vector<i64> v; for (int i = 0; i < n; i++) v.push_back(r.in(-4, 6));
	auto w = v; for (std::size_t i = w.size(); i > 1; i--) std::swap(w[i - 1], w[r.below(i)]);
	int what = int(r.below(5)); auto& spoil = w[r.below(w.size())];
	switch (r.below(5)) {
		case 0: if (what == 0) spoil += i64(1) << r.in(32, 62); else if (what == 1) spoil ^= 1; permMixed<int, i64>(c, std::vector<int>(v.begin(), v.end()), w); break;
		case 1: if (what == 0) spoil += i64(1) << r.in(8, 62); permMixed<signed char, i64>(c, std::vector<signed char>(v.begin(), v.end()), w); break;
		case 2: { std::vector<double> d(w.begin(), w.end()); if (what == 0) d[r.below(d.size())] += 0.5; permMixed<i64, double>(c, v, d); break; }
		case 3: { std::vector<double> d(w.begin(), w.end()); if (what == 0) d[r.below(d.size())] += 1e-12; permMixed<float, double>(c, std::vector<float>(v.begin(), v.end()), d); break; }
		default: { std::vector<std::string> a, b; for (auto x : v) a.push_back(std::string(x + 4, 'a')); for (auto x : w) b.push_back(std::string(x + 4, 'a')); if (what == 0) b[r.below(b.size())] += 'a'; permMixed<std::string, std::string_view>(c, a, std::vector<std::string_view>(b.begin(), b.end())); }
	}
}
GROUP(C13, isPermTwo, 8000, 300000) {
	auto& r = c.r; int k = int(r.below(3));
	if (k == 0) permTwo<Integer>(c, [&] { return r.chance(1, 10) ? r.wild() : r.in(-3, 8); });
	else if (k == 1) permTwo<std::string>(c, [&] { return std::string(r.below(3), char('a' + r.below(2))); });
	else permTwo<double>(c, [&] { return double(r.in(-4, 4)) / 2; });
}
template<class T, class G> static void distinctT(vh::Ctx& c, G gen) {
	int n = c.r.size(50, 5000); std::vector<T> a; std::set<T> s;
	bool force = c.r.chance(1, 2);
	for (int i = 0; i < n; i++) { T x = gen(); if (force && s.count(x)) continue; a.push_back(x); s.insert(x); }
	if (force && !a.empty() && c.r.chance(1, 2)) a.push_back(a[c.r.below(a.size())]);
	for (std::size_t i = a.size(); i > 1; i--) std::swap(a[i - 1], a[c.r.below(i)]);
	s = std::set<T>(a.begin(), a.end()); bool want = s.size() == a.size();
	std::string in = "areDistinct(" + vh::show(a) + ")"; c.note(in); c.fp(in); if (a.empty()) c.trivial(); if (c.wantSample()) c.sample(in);
	auto judge = [&](const boolean<T>& g) {
		VCHECK(c, bool(g) == want, "C13.areDistinct", in << " = " << bool(g));
		if (!want) VCHECK(c, g.hasReason() && std::count(a.begin(), a.end(), *g.reason) > 1, "C13.areDistinct-witness", in << " bad witness");
	};
	judge(areDistinct(a)); judge(areDistinct(a.begin(), a.end())); std::list<T> l(a.begin(), a.end()); judge(areDistinct(l));
	c.ev(want ? "distinct" : "duplicates");
}
GROUP(C13, areDistinct, 12000, 400000) {
	auto& r = c.r; int k = int(r.below(4));
	i64 w = r.pick({3, 60, 1000, 1000000000});
	if (k == 0) distinctT<std::string>(c, [&] { return std::string(r.below(5), char('a' + r.below(3))); });
	else if (k == 1) distinctT<double>(c, [&] { return double(r.in(-w, w)) / 4; });
	else if (k == 2) distinctT<Integer>(c, [&] { return r.wild(); });
	else distinctT<Integer>(c, [&] { return r.in(0, w); });
}

template<class T> static void adjacency(vh::Ctx& c, const std::vector<T>& v) {
	std::string in = vh::show(v); c.note(in); c.fp(in); if (v.size() < 2) c.trivial();
	if (c.wantSample()) c.sample(in);
	// witness of the first adjacent pair satisfying p: number of elements of the prefix before the violation
	auto firstTrue = [&](auto p) { for (std::size_t i = 0; i + 1 < v.size(); i++) if (p(v[i], v[i + 1])) return i64(i + 1); return i64(-1); };
	auto judge = [&](boolean<Integer> g, bool want, i64 witness, const char* what) {
		VCHECK(c, bool(g) == want, std::string("C13.") + what, what << in << " = " << bool(g) << " expected " << want);
		if (!want && witness >= 0) { VCHECK(c, g.hasReason() && *g.reason == witness, std::string("C13.") + what + "-witness", what << in << " witness " << (g.hasReason() ? *g.reason : -999) << " expected " << witness); }
		c.ev(want ? "adjacency true" : "adjacency false");
	};
	T pivot = v.empty() ? T() : v[c.r.below(v.size())];
	int mode = int(c.r.below(5));
	auto p = [&](const T& a, const T& b) { switch (mode) { case 0: return a < b; case 1: return a == b; case 2: return a != b; case 3: return b < a; default: return a == pivot || b == pivot; } };
	auto np = [&](const T& a, const T& b) { return !p(a, b); };
	i64 t = firstTrue(p), f = firstTrue(np);
	std::list<T> l(v.begin(), v.end()); const std::deque<T> d(v.begin(), v.end());
	judge(anyAdjacent(v, p), t >= 0, -1, "anyAdjacent"); judge(anyAdjacent(l.begin(), l.end(), p), t >= 0, -1, "anyAdjacent");
	judge(noneAdjacent(v, p), t < 0, t, "noneAdjacent"); judge(noneAdjacent(l.begin(), l.end(), p), t < 0, t, "noneAdjacent");
	judge(allAdjacent(v, p), f < 0, f, "allAdjacent"); judge(allAdjacent(l.begin(), l.end(), p), f < 0, f, "allAdjacent"); judge(allAdjacent(d, p), f < 0, f, "allAdjacent");
	auto mono = [&](const char* name, auto cmp, auto fc, auto fi) {
		i64 w = firstTrue([&](const T& a, const T& b) { return !cmp(a, b); });
		judge(fc(v), w < 0, w, name); judge(fi(v.begin(), v.end()), w < 0, w, name); judge(fc(l), w < 0, w, name); judge(fi(d.begin(), d.end()), w < 0, w, name);
	};
	mono("areIncreasing", [](const T& a, const T& b) { return a < b; }, [](const auto& x) { return areIncreasing(x); }, [](auto a, auto b) { return areIncreasing(a, b); });
	mono("areNonDecreasing", [](const T& a, const T& b) { return a <= b; }, [](const auto& x) { return areNonDecreasing(x); }, [](auto a, auto b) { return areNonDecreasing(a, b); });
	mono("areDecreasing", [](const T& a, const T& b) { return b < a; }, [](const auto& x) { return areDecreasing(x); }, [](auto a, auto b) { return areDecreasing(a, b); });
	mono("areNonIncreasing", [](const T& a, const T& b) { return b <= a; }, [](const auto& x) { return areNonIncreasing(x); }, [](auto a, auto b) { return areNonIncreasing(a, b); });
}
GROUP(C13, adjacency, 8000, 250000) {
	auto& r = c.r; int n = r.size(40, 5000);
	int shape = int(r.below(4));
	auto arrange = [&](auto& v) {
		if (shape == 0) std::sort(v.begin(), v.end());
		if (shape == 1) std::sort(v.rbegin(), v.rend());
		if (shape <= 1 && r.chance(1, 2)) v.erase(std::unique(v.begin(), v.end()), v.end());
		if (shape <= 1 && v.size() > 1 && r.chance(1, 2)) { std::size_t i = r.below(v.size() - 1); std::swap(v[i], v[i + 1]); }
		if (shape <= 1 && v.size() > 1 && r.chance(1, 3)) { std::size_t i = r.below(v.size() - 1); v[i] = v[i + 1]; }
	};
	switch (r.below(3)) {
		case 0: { std::vector<Integer> v; for (int i = 0; i < n; i++) v.push_back(r.chance(1, 5) || n > 60 ? r.wild() : r.in(-5, 40)); arrange(v); adjacency(c, v); break; }
		case 1: { std::vector<std::string> v; if (n > 60) n = 60; for (int i = 0; i < n; i++) v.push_back(std::string(r.below(4), char('a' + r.below(3)))); arrange(v); adjacency(c, v); break; }
		default: { std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(double(r.in(-20, 20)) / 4); arrange(v); adjacency(c, v); }
	}
}

#endif
#if !defined(VH_ONLY) || VH_ONLY == 14
// ---- C14 ----
static bool refClass(int k, unsigned char u) {
	bool lo = u >= 'a' && u <= 'z', up = u >= 'A' && u <= 'Z', di = u >= '0' && u <= '9';
	bool vo = (lo || up) && std::string("aeiouAEIOU").find(char(u)) != std::string::npos;
	switch (k) { case 0: return lo; case 1: return up; case 2: return lo || up; case 3: return di; case 4: return vo; default: return (lo || up) && !vo; }
}
static bool libClass(int k, char u) { switch (k) { case 0: return isLower(u); case 1: return isUpper(u); case 2: return isLetter(u); case 3: return isDigit(u); case 4: return isVowel(u); default: return isConsonant(u); } }
static const char* CN[] = {"isLower", "isUpper", "isLetter", "isDigit", "isVowel", "isConsonant"};
GROUP(C14, allChars, 1, 1) {
	for (int u = 0; u < 256; u++) {
		char ch = char(u); bool lo = u >= 'a' && u <= 'z', up = u >= 'A' && u <= 'Z';
		for (int k = 0; k < 6; k++) VCHECK(c, libClass(k, ch) == refClass(k, (unsigned char)u), "C14.charclass", CN[k] << "(" << u << ")");
		char l = up ? char(u + 32) : ch, U = lo ? char(u - 32) : ch;
		VCHECK(c, toLower(ch) == l && toUpper(ch) == U && toDefaultCase(ch) == (VH_LOWER ? l : U), "C14.charcase", "case conversion of char " << u);
		c.ev("char values"); c.fp(u64(u));
	}
	c.sample("all 256 char values x 6 classes x 3 conversions");
}
GROUP(C14, alphabets, 1, 1) {
	struct A { const char* name; std::string_view v; int up, lo, dg; };   // 0: none, 1: all, 2: vowels, 3: consonants
	const A all[] = {{"LETTER", LETTER, 1, 1, 0}, {"UPPER", UPPER, 1, 0, 0}, {"LOWER", LOWER, 0, 1, 0}, {"VOWEL", VOWEL, 2, 2, 0}, {"UPPER_VOWELS", UPPER_VOWELS, 2, 0, 0}, {"LOWER_VOWELS", LOWER_VOWELS, 0, 2, 0},
		{"CONSONANT", CONSONANT, 3, 3, 0}, {"UPPER_CONSONANT", UPPER_CONSONANT, 3, 0, 0}, {"LOWER_CONSONANT", LOWER_CONSONANT, 0, 3, 0}, {"ALPHA_NUMERIC", ALPHA_NUMERIC, 1, 1, 1}, {"UPPER_ALPHA_NUMERIC", UPPER_ALPHA_NUMERIC, 1, 0, 1}, {"LOWER_ALPHA_NUMERIC", LOWER_ALPHA_NUMERIC, 0, 1, 1}, {"DIGITS", DIGITS, 0, 0, 1}};
	for (const A& a : all) for (int u = 0; u < 256; u++) {
		bool up = u >= 'A' && u <= 'Z', lo = u >= 'a' && u <= 'z', v = std::string("aeiouAEIOU").find(char(u)) != std::string::npos;
		auto in = [&](bool cs, int k) { return cs && (k == 1 || (k == 2 && v) || (k == 3 && !v)); };
		bool want = in(up, a.up) || in(lo, a.lo) || (u >= '0' && u <= '9' && a.dg);
		VCHECK(c, std::count(a.v.begin(), a.v.end(), char(u)) == want, "C14.alphabet", a.name << " contains character " << u << " not exactly " << want << " times"); c.ev("alphabet members"); c.fp(u64(u)); c.fp(std::string(a.name));
	}
	std::string br = "()[]{}<>"; for (char x : br) VCHECK(c, BRACKETS.find(x) != BRACKETS.npos && BRACKETS.size() == 8, "C14.alphabet", "BRACKETS");
	c.sample("13 alphabets x 256 characters");
}
template<class B> static void classString(vh::Ctx& c, int k, const std::string& s, B g) {
	bool want = true; for (char x : s) want = want && refClass(k, (unsigned char)x);
	std::string in = std::string(CN[k]) + "(\"" + vh::esc(s) + "\")";
	VCHECK(c, bool(g) == want, "C14.stringclass", in << " = " << bool(g));
	if constexpr (std::is_same_v<B, boolean<char>>) {
		if (!want) VCHECK(c, g.hasReason() && s.find(*g.reason) != s.npos && !refClass(k, (unsigned char)*g.reason), "C14.stringclass-witness", in << " bad witness");
	} else VFAIL(c, "C14.stringclass-witness", in << " cannot give a witness");
	c.ev(want ? "class holds" : "class violated");
}
GROUP(C14, strings, 20000, 500000) {
	auto& r = c.r; int n = r.size(30, 9000); int base = int(r.below(7)); std::string s;
	static const std::string pools[] = {"abcxyz", "ABCXYZ", "abcXYZ", "0123456789", "aeiouAEIOU", "bcdfghjklmnpqrstvwxyzBCDFGHJKLMNPQRSTVWXYZ"};
	for (int i = 0; i < n; i++) s += base < 6 ? pools[base][r.below(pools[base].size())] : char(r.below(256));
	if (n && r.chance(1, 2)) s[r.below(u64(n))] = r.chance(1, 2) ? char(r.below(256)) : r.pick({'@', '[', '`', '{', '/', ':', 'a', 'Z', 'e', 'Y', '\0', '\x80'});
	c.fp(s); c.note(vh::esc(s)); if (n == 0) c.trivial(); if (c.wantSample()) c.sample(vh::esc(s));
	std::string_view v = s;
	classString(c, 0, s, isLower(v)); classString(c, 1, s, isUpper(v)); classString(c, 2, s, isLetter(v)); classString(c, 3, s, isDigit(v)); classString(c, 4, s, isVowel(v)); classString(c, 5, s, isConsonant(v));
	std::string l = s, u = s, d = s, wl = s, wu = s; toLower(l); toUpper(u); toDefaultCase(d);
	for (char& x : wl) if (x >= 'A' && x <= 'Z') x = char(x + 32);
	for (char& x : wu) if (x >= 'a' && x <= 'z') x = char(x - 32);
	VCHECK(c, l == wl && u == wu && d == (VH_LOWER ? wl : wu), "C14.stringcase", "case conversion of \"" << vh::esc(s) << "\"");
}
GROUP(C14, range, 20000, 500000) {
	auto& r = c.r; i64 from, to, step;
	switch (r.below(5)) {
		case 4: from = r.wild(); step = r.chance(1, 2) ? r.wild() : r.in(-3, 3); { u64 k = r.chance(1, 40) ? 65534 + r.below(5) : r.below(r.chance(1, 8) ? 2000 : 40); to = i64(u64(from) + k * u64(step) + u64(r.in(-2, 2))); } break;
		case 0: from = r.in(-30, 30); to = r.in(-30, 30); step = r.in(-9, 9); break;
		case 1: from = r.in(-3, 3); to = r.in(-400, 400); step = r.pick({1, -1, 2, -2, 3, -7}); break;
		default: from = r.wild(); to = r.chance(1, 3) ? from + 0 : r.wild(); step = r.wild();
	}
	std::string in = "range(" + std::to_string(from) + "," + std::to_string(to) + "," + std::to_string(step) + ")"; c.note(in);
	if (step == 0) { VCHECK(c, vh::throwsStd([&] { (void)range(from, to, step); }), "C14.range", in << " accepted"); c.ev("zero step"); return; }
	bool up = step > 0; u64 dist_ = up ? u64(to) - u64(from) : u64(from) - u64(to); u64 st = up ? u64(step) : 0 - u64(step);
	bool empty = up ? to <= from : to >= from;
	u64 n = empty ? 0 : (dist_ - 1) / st + 1;
	if (n > 2000 && !(n < 140000 && r.chance(1, 20))) { c.trivial(); return; }
	c.fp(in); if (n == 0) c.trivial(); if (c.wantSample()) c.sample(in);
	auto g = range(from, to, step);
	VCHECK(c, g.size() == n, "C14.range", in << " has " << g.size() << " elements, expected " << n);
	for (u64 i = 0; i < n; i++) VCHECK(c, g[i] == i64(u64(from) + i * u64(step)), "C14.range", in << "[" << i << "]=" << g[i]);
	if (step == 1) VCHECK(c, range(from, to) == g, "C14.range", "two argument " << in);
	if (step == 1 && from == 0) VCHECK(c, range(to) == g, "C14.range", "one argument " << in);
	auto z = range(r.in(-5, 1)); VCHECK(c, z.size() <= 1, "C14.range", "range(<=1)");
	i64 up1 = r.in(0, 40); auto y = range(up1); VCHECK(c, i64(y.size()) == up1, "C14.range", "range(" << up1 << ")"); for (i64 i = 0; i < up1; i++) VCHECK(c, y[std::size_t(i)] == i, "C14.range", "range(" << up1 << ")");
	c.ev(n == 0 ? "empty range" : up ? "ascending range" : "descending range"); c.ev("range elements", n);
}
GROUP(C14, thueMorse, 3000, 60000) {
	auto& r = c.r; i64 lo = r.chance(1, 2) ? r.in(0, 200) : std::max<i64>(0, r.wild()); if (lo > INT64_MAX - 400) lo -= 400;
	i64 hi = lo + r.in(1, 300); if (r.chance(1, 100) && lo < INT64_MAX - 80000) hi = lo + std::max(1, r.border(70000)); c.fp(u64(lo)); c.fp(u64(hi));
	if (r.chance(1, 10)) { i64 bad = r.pick({i64(-1), i64(-1000), INT64_MIN}); VCHECK(c, vh::throwsStd([&] { (void)thueMorse(bad, bad + 5); }), "C14.thueMorse", "negative lower accepted"); VCHECK(c, vh::throwsStd([&] { (void)thueMorse(hi, lo); }), "C14.thueMorse", "empty range accepted"); c.ev("rejected"); }
	if (r.chance(1, 5)) lo = 0, hi = r.in(1, 1000);
	auto g = lo == 0 ? thueMorse(hi) : thueMorse(lo, hi); std::string in = "thueMorse(" + std::to_string(lo) + "," + std::to_string(hi) + ")"; if (c.wantSample()) c.sample(in);
	VCHECK(c, i64(g.size()) == hi - lo, "C14.thueMorse", in << " size " << g.size());
	for (i64 i = lo; i < hi; i++) { int p = 0; for (u64 x = u64(i); x; x >>= 1) p ^= int(x & 1); VCHECK(c, g[std::size_t(i - lo)] == p, "C14.thueMorse", in << " index " << i); }
	c.ev("Thue-Morse elements", u64(hi - lo));
}
GROUP(C14, append, 6000, 150000) {
	auto& r = c.r; int n = r.size(30, 3000), m = r.size(30, 3000); std::vector<Integer> a, b; for (int i = 0; i < n; i++) a.push_back(r.wild()); for (int i = 0; i < m; i++) b.push_back(r.in(-9, 9));
	c.fp(vh::show(a) + vh::show(b)); if (n + m == 0) c.trivial(); if (c.wantSample()) c.sample("append " + vh::show(a) + " " + vh::show(b));
	auto w = a; w.insert(w.end(), b.begin(), b.end());
	auto x = a; append(x, b); VCHECK(c, x == w, "C14.append", "vector append");
	std::deque<Integer> d(a.begin(), a.end()); append(d, b); VCHECK(c, std::equal(d.begin(), d.end(), w.begin(), w.end()), "C14.append", "deque append vector");
	std::list<Integer> l(a.begin(), a.end()); append(l, d); auto w2 = a; w2.insert(w2.end(), w.begin(), w.end()); VCHECK(c, std::equal(l.begin(), l.end(), w2.begin(), w2.end()), "C14.append", "list append deque");
	auto s = a; if (r.chance(1, 2)) s.shrink_to_fit(); else s.reserve(s.size() * 2); append(s, s); auto ws = a; ws.insert(ws.end(), a.begin(), a.end()); VCHECK(c, s == ws, "C14.append-self", "self append of " << vh::show(a) << " gives " << vh::show(s)); c.ev("self append");
	std::list<Integer> sl(a.begin(), a.end()); append(sl, sl); VCHECK(c, std::equal(sl.begin(), sl.end(), ws.begin(), ws.end()), "C14.append-self", "list self append"); 
	std::deque<Integer> sd(a.begin(), a.end()); append(sd, sd); VCHECK(c, std::equal(sd.begin(), sd.end(), ws.begin(), ws.end()), "C14.append-self", "deque self append");
	std::vector<std::string> ss; for (int i = 0; i < n; i++) ss.push_back(std::string(r.below(40), char('a' + i % 26))); auto ss2 = ss; append(ss, ss); VCHECK(c, ss.size() == 2 * ss2.size() && std::equal(ss2.begin(), ss2.end(), ss.begin()) && std::equal(ss2.begin(), ss2.end(), ss.begin() + n), "C14.append-self", "string self append");
	auto y = a; append(y, {Integer(1), Integer(2), Integer(3)}); auto wy = a; wy.insert(wy.end(), {1, 2, 3}); VCHECK(c, y == wy, "C14.append", "array append");
	// contains, asFunction, comparators
	std::set<Integer> st(b.begin(), b.end()); std::map<Integer, int> mp; for (auto q : b) mp[q] = 1;
	for (i64 k = -10; k <= 10; k++) { bool has = std::count(b.begin(), b.end(), k) > 0; VCHECK(c, contains(st, k) == has && contains(mp, k) == has, "C14.contains", "contains " << k); }
	if (m) { auto f = asFunction(b); auto g = asFunction(std::vector<Integer>(b)); for (int i = 0; i < m; i++) VCHECK(c, f(i) == b[std::size_t(i)] && g(i) == b[std::size_t(i)], "C14.asFunction", "asFunction"); b[0] += 5; VCHECK(c, f(0) == b[0] && g(0) == b[0] - 5, "C14.asFunction", "reference/value capture"); auto h = asFunction({Integer(4), Integer(7)}); VCHECK(c, h(0) == 4 && h(1) == 7, "C14.asFunction", "brace list"); c.ev("asFunction"); }
	std::string sa(std::size_t(n), 'x'); VCHECK(c, shorter{}(sa, b) == (n < m) && longer{}(sa, b) == (n > m) && shorter{}(b, sa) == (m < n), "C14.length", "shorter/longer " << n << "," << m);
}
GROUP(C14, flatten, 4000, 100000) {
	auto& r = c.r; std::vector<std::vector<std::vector<Integer>>> v(r.below(6)); std::vector<Integer> w; std::vector<std::vector<Integer>> mid;
	for (auto& x : v) { x.resize(r.below(5)); for (auto& y : x) { int k = r.size(6, 1500); for (int i = 0; i < k; i++) { y.push_back(r.wild()); w.push_back(y.back()); } mid.push_back(y); } }
	c.fp(vh::show(w)); if (w.empty()) c.trivial();
	auto keep = v;
	VCHECK(c, flatten(v) == w, "C14.flatten", "3-level flatten"); VCHECK(c, v == keep, "C14.flatten", "flatten changed its argument");
	VCHECK(c, (flatten<std::vector<Integer>>(v) == mid), "C14.flatten", "partial flatten"); VCHECK(c, v == keep, "C14.flatten", "partial flatten changed its argument");
	auto tmp = v; VCHECK(c, flatten(std::move(tmp)) == w, "C14.flatten", "rvalue flatten");
	std::vector<std::string> sv; std::vector<char> chars; for (int i = 0, n = r.size(6); i < n; i++) { sv.push_back(std::string(r.below(30), char('a' + i))); for (char x : sv.back()) chars.push_back(x); }
	VCHECK(c, flatten(sv) == chars, "C14.flatten", "string flatten"); auto sv2 = sv; VCHECK(c, flatten<std::string>(std::vector<std::vector<std::string>>{sv2, sv2}).size() == 2 * sv.size(), "C14.flatten", "string list flatten");
	auto sv3 = sv; std::vector<std::vector<std::string>> nest{sv3}; auto res = flatten<std::string>(nest); VCHECK(c, res == sv && nest[0] == sv, "C14.flatten", "lvalue strings must be copied");
	std::list<std::deque<int>> ls; std::vector<int> lw; for (int i = 0, n = int(r.below(4)); i < n; i++) { ls.emplace_back(); for (int k = 0; k < 3; k++) ls.back().push_back(int(r.below(9))); for (int x : ls.back()) lw.push_back(x); }
	VCHECK(c, flatten(ls) == lw, "C14.flatten", "list of sets"); int arr[2][3] = {{1, 2, 3}, {4, 5, 6}}; VCHECK(c, (flatten(arr) == std::vector<int>{1, 2, 3, 4, 5, 6}), "C14.flatten", "array");
	c.ev("flattened values", w.size()); if (c.wantSample()) c.sample("flatten to " + vh::show(w));
}
GROUP(C14, queues, 3000, 60000) {
	auto& r = c.r; MinPQ<Integer> mn; MaxPQ<Integer> mx; std::multiset<Integer> ref; struct Abs { bool operator()(Integer a, Integer b) const { return std::llabs(a) < std::llabs(b); } };
	MinPQ<Integer, Abs> ma; MaxPQ<Integer, Abs> xa; std::multiset<Integer> ra;
	int ops = 5 + r.size(60, 1500);
	for (int i = 0; i < ops; i++) {
		if (ref.empty() || r.chance(2, 3)) { i64 x = r.in(-20, 20); mn.push(x); ref.insert(x); c.fp(u64(x)); }
		else { VCHECK(c, mn.top() == *ref.begin(), "C14.MinPQ", "MinPQ top " << mn.top() << " expected " << *ref.begin()); mn.pop(); ref.erase(ref.begin()); c.ev("pops"); }
		i64 x = r.in(-50, 50); mx.push(x); ma.push(x); xa.push(x); ra.insert(x);
		VCHECK(c, mx.top() == *ra.rbegin(), "C14.MaxPQ", "MaxPQ top");
		i64 lo = 1000, hi = 0; for (i64 y : ra) lo = std::min<i64>(lo, std::llabs(y)), hi = std::max<i64>(hi, std::llabs(y));
		VCHECK(c, std::llabs(ma.top()) == lo && std::llabs(xa.top()) == hi, "C14.MinPQ", "custom comparator queues");
	}
}
#endif
VHV_MAIN
