// C09: command line queries vs a token-list model
#include "vhv.h"
using vh::Ctx; using vh::i64; using vh::u64; using std::string; using std::vector; using std::string_view;

struct Argv { vector<string> s; vector<vector<char>> b; vector<char*> p; Argv(const vector<string>& a) : s(a) { for (auto& x : s) { b.emplace_back(x.begin(), x.end()); b.back().push_back(0); } for (auto& x : b) p.push_back(x.data()); p.push_back(nullptr); } };
static bool isCmd(const string& s) { return s.size() > 2 && s[0] == '-' && s[1] == '-'; }
static bool refTok(const string& s) { if (s.empty()) return false; for (char c : s) if (c == ' ' || (c >= 9 && c <= 13)) return false; return true; }
enum Conv { BAD, GOOD, OPEN };
static Conv refInt(const string& s, i64& v) {
	std::size_t i = 0; bool neg = false;
	if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
	if (i == s.size()) return BAD;
	u64 x = 0; const u64 lim = (u64(1) << 63) - (neg ? 0 : 1);
	for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return BAD; u64 d = u64(s[i] - '0'); if (x > (lim - d) / 10) return BAD; x = x * 10 + d; }
	v = neg ? i64(0 - x) : i64(x); return GOOD;
}
static Conv refReal(const string& s, long double& v) {
	std::size_t i = 0, d = 0; bool pt = false, nz = false;
	if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
	std::size_t b = i;
	if (b < s.size() && (std::isspace((unsigned char)s[0]) || std::strchr("iInN", s[b]))) return OPEN;   // inf, nan, leading blanks: not claimed
	if (b + 1 < s.size() && s[b] == '0' && (s[b + 1] | 32) == 'x') return OPEN;
	if (s.empty()) return BAD;
	while (i < s.size() && (std::isdigit((unsigned char)s[i]) || (s[i] == '.' && !pt))) { if (s[i] == '.') pt = true; else { d++; nz |= s[i] != '0'; } i++; }
	if (!d) return BAD;
	if (i < s.size()) {
		if ((s[i] | 32) != 'e') return BAD;
		i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
		if (i == s.size()) return BAD;
		for (; i < s.size(); i++) if (!std::isdigit((unsigned char)s[i])) return BAD;
	}
	v = std::strtold(s.c_str(), nullptr);
	if (!std::isfinite(v) || (nz && std::fabs(v) < 1e-4900L) ) return OPEN;
	return GOOD;
}
template<class F> static bool thr(F&& f) { try { f(); } catch (const std::exception&) { return true; } return false; }

static const vector<string> names = {"--a", "--ab", "--b", "---", "----", "--5", "--a=1", "--\xc3\xa4", "--A", "--x y", "--n"};
static string token(vh::Rng& r) {
	switch (r.below(9)) {
		case 0: return r.pick(names);
		case 1: return r.pick<const char*>({"", "-", "--", "a", "ab", "-a", " --a", "prog", "a b", "\n", "--", "+", "b", "n"});
		case 2: return std::to_string(r.wild());
		case 3: return std::to_string(r.in(-9, 9));
		case 4: return r.pick<const char*>({"+5", "+-5", "-+5", "--5x", "++5", "007", "-0", "5 ", " 5", "5x", "x5", "0x10", "1e3", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "+0", "1.0", "1.", ".5", "-.5e-3", "+1.25e2", "1e", "e1", ".", "1e+", "1..2", "+-1.5", "-+1.5", "nan", "inf", "1,5", "1.5f", "0.1", "1e400", "--1.5"});
		case 5: { char b[64]; std::snprintf(b, 64, "%.*g", int(r.below(18)) + 1, (r.unit() - 0.5) * std::pow(10.0, double(r.in(-20, 20)))); return b; }
		case 6: { string s; int n = int(r.below(6)); for (int i = 0; i < n; i++) s += char(1 + r.below(255)); return s; }
		case 7: return string(r.below(200), 'q');
		default: return std::to_string(r.in(-1000, 1000)) + "." + std::to_string(r.below(1000));
	}
}
template<class P> static void single(Ctx& c, const P& p, const string* t, const string& in) {   // conversions of one (optional) parameter
	if (!t) {
		VCHECK(c, thr([&] { (void)p.asString(); }) && thr([&] { (void)p.asInteger(); }) && thr([&] { (void)p.asReal(); }), "C09.missing", "missing parameter converted: " << in);
		VCHECK(c, p.asString("dflt") == "dflt" && p.asInteger(-77) == -77 && p.asReal(2.5L) == 2.5L, "C09.default", "default not used: " << in);
		c.ev("missing parameters"); return;
	}
	VCHECK(c, p.asString() == *t && p.asString("dflt") == *t, "C09.asString", "asString gives \"" << vh::esc(p.asString()) << "\": " << in);
	i64 v = 0; Conv k = refInt(*t, v);
	if (k == GOOD) { VCHECK(c, !thr([&] { (void)p.asInteger(); }) && p.asInteger() == v && p.asInteger(5) == v, "C09.asInteger", "asInteger of \"" << vh::esc(*t) << "\" is not " << v << ": " << in); c.ev("integers converted"); }
	else { VCHECK(c, thr([&] { (void)p.asInteger(); }) && thr([&] { (void)p.asInteger(5); }), "C09.asInteger", "asInteger accepts \"" << vh::esc(*t) << "\": " << in); c.ev("malformed integers"); }
	long double w = 0; k = refReal(*t, w);
	if (k == GOOD) { VCHECK(c, !thr([&] { (void)p.asReal(); }) && p.asReal() == w && p.asReal(5) == w, "C09.asReal", "asReal of \"" << vh::esc(*t) << "\" wrong: " << in); c.ev("reals converted"); }
	else if (k == BAD) { VCHECK(c, thr([&] { (void)p.asReal(); }) && thr([&] { (void)p.asReal(5); }), "C09.asReal", "asReal accepts \"" << vh::esc(*t) << "\": " << in); c.ev("malformed reals"); }
}
static void command(Ctx& c, const Command& k, bool found, const vector<string>& ps, const string& in) {
	VCHECK(c, k.exists() == found && bool(k) == found, "C09.found", "found=" << k.exists() << ": " << in);
	VCHECK(c, k.parameterCount() == Integer(ps.size()), "C09.count", "parameterCount=" << k.parameterCount() << " instead of " << ps.size() << ": " << in);
	single(c, k, ps.empty() ? nullptr : &ps[0], in);
	vector<i64> idx{-1, 0, 1, 2, i64(ps.size()) - 1, i64(ps.size()), i64(ps.size()) + 1, INT64_MAX, INT64_MIN, c.r.wild()};
	for (i64 i : idx) {
		bool ex = i >= 0 && i < i64(ps.size());
		Parameter p = k[i]; VCHECK(c, p.exists() == ex && bool(p) == ex, "C09.index", "parameter " << i << " exists=" << p.exists() << ": " << in);
		single(c, p, ex ? &ps[std::size_t(i)] : nullptr, in + " parameter " + std::to_string(i));
	}
	VCHECK(c, k.asStrings() == ps, "C09.asStrings", "asStrings = " << vh::show(k.asStrings()) << ": " << in);
	vector<i64> vi; vector<long double> vr; bool gi = true, gr = true, open = false;
	for (auto& t : ps) { i64 v; if (refInt(t, v) == GOOD) vi.push_back(v); else gi = false; long double w; Conv q = refReal(t, w); if (q == GOOD) vr.push_back(w); else if (q == OPEN) open = true; else gr = false; }
	if (gi) VCHECK(c, k.asIntegers() == vi, "C09.asIntegers", "asIntegers: " << in); else VCHECK(c, thr([&] { (void)k.asIntegers(); }), "C09.asIntegers", "asIntegers accepts malformed parameters: " << in);
	if (!gr) VCHECK(c, open || thr([&] { (void)k.asReals(); }), "C09.asReals", "asReals accepts malformed parameters: " << in); else if (!open) VCHECK(c, k.asReals() == vr, "C09.asReals", "asReals: " << in);
	// fixed sized tuples: the first N
	auto tup = [&](auto n) {
		constexpr Integer N = decltype(n)::value;
		bool enough = ps.size() >= std::size_t(N);
		auto chk = [&](auto&& get, auto conv, const char* what) {
			bool good = enough, op = false; for (Integer i = 0; i < N && enough; i++) { auto q = conv(ps[std::size_t(i)]); good &= q.first == GOOD; op |= q.first == OPEN; }
			if (op) return;
			if (!good) { VCHECK(c, thr([&] { (void)get(); }), "C09.tuple", what << "<" << N << "> does not throw: " << in); return; }
			auto t = get(); std::size_t i = 0; bool same = true;
			std::apply([&](auto&... x) { ((same &= x == conv(ps[i++]).second), ...); }, t);
			VCHECK(c, same, "C09.tuple", what << "<" << N << "> differs: " << in); c.ev("tuples converted");
		};
		chk([&] { return k.asStrings<N>(); }, [](const string& s) { return std::make_pair(GOOD, s); }, "asStrings");
		chk([&] { return k.asIntegers<N>(); }, [](const string& s) { i64 v = 0; Conv q = refInt(s, v); return std::make_pair(q, v); }, "asIntegers");
		chk([&] { return k.asReals<N>(); }, [](const string& s) { long double v = 0; Conv q = refReal(s, v); return std::make_pair(q, v); }, "asReals");
	};
	tup(std::integral_constant<Integer, 0>{}); tup(std::integral_constant<Integer, 1>{}); tup(std::integral_constant<Integer, 2>{}); tup(std::integral_constant<Integer, 3>{});
}
static void check(Ctx& c, const vector<string>& args) {
	string in = "argv " ; for (auto& a : args) in += "\"" + vh::esc(a, 80) + "\" ";
	c.note(in); c.fp(in);
	Argv av(args); std::map<string, int> cnt; bool dup = false;
	for (auto& a : args) if (isCmd(a) && ++cnt[a] > 1) dup = true;
	if (dup) { VCHECK(c, thr([&] { CommandParser p(int(args.size()), av.p.data()); }), "C09.duplicate", "duplicated command accepted: " << in); c.ev("duplicated commands"); return; }
	CommandParser first(int(args.size()), av.p.data());
	for (auto& b : av.b) std::fill(b.begin(), b.end() - 1, '#');      // the parser must own its data
	CommandParser p; if (c.r.chance(1, 2)) p = std::move(first); else { CommandParser q(std::move(first)); p = std::move(q); }
	vector<i64> idx{-1, 0, i64(args.size()) - 1, i64(args.size()), INT64_MIN, INT64_MAX, c.r.wild()};
	for (i64 i : idx) { bool ok = i >= 0 && i < i64(args.size()); if (ok) VCHECK(c, p[i] == args[std::size_t(i)], "C09.args", "argument " << i << " = " << vh::esc(string(p[i])) << ": " << in); else VCHECK(c, thr([&] { (void)p[i]; }), "C09.args", "index " << i << " does not throw: " << in); }
	auto all = p.getRaw(); command(c, all, true, args, in + " getRaw()");
	vector<string> qs{"--a", "--missing", "--", "-", "prog", "5", c.r.pick(names)}; if (!args.empty()) { qs.push_back(args[c.r.below(args.size())]); qs.push_back(args[c.r.below(args.size())]); }
	for (int i = 0; i < 2; i++) qs.push_back(qs[c.r.below(qs.size())]);
	std::swap(qs[c.r.below(qs.size())], qs.back()); qs.resize(5); if (!args.empty()) qs.push_back(args.back());
	for (const string& q : qs) {
		if (!refTok(q)) { VCHECK(c, thr([&] { (void)p[string_view(q)]; }) && thr([&] { (void)p.getRaw(q); }), "C09.query", "query \"" << vh::esc(q) << "\" accepted: " << in); continue; }
		bool f = false; vector<string> ps;
		if (isCmd(q)) for (std::size_t i = 0; i < args.size(); i++) if (args[i] == q) { f = true; for (i++; i < args.size() && !isCmd(args[i]); i++) ps.push_back(args[i]); break; }
		command(c, p[string_view(q)], f, ps, in + " [\"" + vh::esc(q) + "\"]"); c.ev(f ? "commands found" : "commands not found");
		f = false; ps.clear();
		for (std::size_t i = 0; i < args.size(); i++) if (args[i] == q) { f = true; ps.assign(args.begin() + long(i) + 1, args.end()); break; }
		command(c, p.getRaw(q), f, ps, in + " getRaw(\"" + vh::esc(q) + "\")"); c.ev(f ? "raw tokens found" : "raw tokens not found");
	}
	if (c.wantSample()) c.sample(in);
}
GROUP(C09, random, 3000, 600000) {
	int n = c.r.size(9, 400); vector<string> a; std::set<string> used;
	for (int i = 0; i < n; i++) { string t = token(c.r); t.erase(std::remove(t.begin(), t.end(), '\0'), t.end()); if (isCmd(t) && used.count(t) && c.r.chance(9, 10)) t = "dup"; if (n > 60 && c.r.chance(1, 6)) t = "--c" + std::to_string(i); used.insert(t); a.push_back(t); }
	check(c, a);
}
GROUP(C09, small, 1555, 1555 + 4681) {    // all vectors of up to four tokens over a small alphabet
	static const vector<string> al = {"--a", "--b", "x", "7", "--", "", "1.5", "-3"};
	u64 base = c.idx < 1555 ? 6 : 8, k = c.idx < 1555 ? c.idx : c.idx - 1555, pw = 1; int n = 0;
	for (; k >= pw; n++) { k -= pw; pw *= base; }
	vector<string> a{"prog"}; for (int i = 0; i < n; i++) { a.push_back(al[k % base]); k /= base; }
	check(c, a);
}
GROUP(C09, convert, 12000, 3000000) {     // one parameter, all conversions
	string t = token(c.r); t.erase(std::remove(t.begin(), t.end(), '\0'), t.end()); if (isCmd(t)) t = "x";
	Argv av({"prog", "--q", t}); CommandParser p(3, av.p.data()); c.fp(t); c.note(vh::esc(t));
	single(c, p["--q"], &t, "\"" + vh::esc(t) + "\""); Parameter q = p["--q"][0]; single(c, q, &t, "parameter \"" + vh::esc(t) + "\"");
}
GROUP(C09, large, 120, 3000) {            // very long and very many arguments
	vector<string> a{"prog"}; int many = c.r.chance(1, 3) ? c.r.border(70000) : int(c.r.below(6)), at = int(c.r.below(u64(many) + 1)), len = c.r.chance(4, 5) ? c.r.border(300000) : 3;
	for (int i = 0; i <= many; i++) a.push_back(i == at && c.r.chance(1, 4) ? "--c" : c.r.chance(1, 4) ? "--c" + std::to_string(i) : c.r.chance(1, 2) ? std::to_string(c.r.wild()) : string(c.r.below(9), 'y'));
	std::size_t k = 1 + c.r.below(u64(many) + 1); string t; for (int i = 0; i < len; i++) t += i < 2 ? '-' : char(97 + i % 26); switch (c.r.below(4)) { case 0: break; case 1: t[0] = 'x'; break; case 2: t = string(std::size_t(len), '0') + "17"; break; default: t = "0." + string(std::size_t(len), '0') + "17"; } a[k] = t;
	check(c, a); c.ev("bytes in large command lines", t.size());
}
VHV_MAIN
