// C01-C06, C35: input streams.  The real InputStream runs next to a byte-level reference model.
#include "vhv.h"
using vh::Ctx; using vh::i64; using vh::u64;
using std::string; using std::vector;
using F128 = __float128;

// ---------------------------------------------------------------- reference model
static bool ws(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool graphic(unsigned char c) { return c > 32 && c < 127; }
#ifdef VH_UPPER   // the other default case and another default tolerance (compile time settings)
static char low(char c) { return c >= 'a' && c <= 'z' ? char(c - 32) : c; }
static const long double EPS = 1e-3L;
#else
static char low(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
static const long double EPS = 1e-6L;
#endif
static bool dig(char c) { return c >= '0' && c <= '9'; }

static bool refInt(const string& s, i64& v) {     // canonical and fits
	std::size_t i = 0; bool neg = false;
	if (s == "0") { v = 0; return true; }
	if (i < s.size() && s[i] == '-') neg = true, i++;
	if (i >= s.size() || s[i] < '1' || s[i] > '9') return false;
	u64 x = 0;
	if (s.size() - i > 19) return false;
	for (; i < s.size(); i++) { if (!dig(s[i])) return false; x = x * 10 + unsigned(s[i] - '0'); }
	if (x > (u64(1) << 63) - (neg ? 0 : 1)) return false;
	v = neg ? i64(0 - x) : i64(x);
	return true;
}
static bool refRealGrammar(const string& s) {
	std::size_t i = 0, d = 0; bool point = false;
	if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
	while (i < s.size() && (dig(s[i]) || (s[i] == '.' && !point))) { if (s[i] == '.') point = true; else d++; i++; }
	if (d == 0) return false;
	if (i == s.size()) return true;
	if (s[i] != 'e' && s[i] != 'E') return false;
	i++;
	if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
	if (i == s.size()) return false;
	for (; i < s.size(); i++) if (!dig(s[i])) return false;
	return true;
}
static bool refStrictGrammar(const string& s, i64& decimals) {
	std::size_t i = 0;
	if (i < s.size() && s[i] == '-') i++;
	std::size_t b = i;
	while (i < s.size() && dig(s[i])) i++;
	if (i == b || (s[b] == '0' && i - b > 1)) return false;
	decimals = 0;
	if (i == s.size()) return true;
	if (s[i] != '.') return false;
	for (i++; i < s.size(); i++, decimals++) if (!dig(s[i])) return false;
	return true;
}
// value of a grammatical real; ok=false if outside the normal range (not claimed)
static long double refReal(const string& s, bool& ok) {
	long double v = std::strtold(s.c_str(), nullptr);
	long double a = std::fabs(v);
	bool zero = true;
	for (char c : s) { if (c == 'e' || c == 'E') break; if (c >= '1' && c <= '9') zero = false; }
	ok = std::isfinite(v) && (zero ? true : a >= 1e-4900L && a <= 1e4900L);
	return v;
}
enum Tri { NO, YES, UNSURE };
static Tri le(F128 a, F128 b, bool exact) {
	if (exact) return a <= b ? YES : NO;
	F128 d = a - b, m = (b < 0 ? -b : b) * (F128)1e-15L;
	if (d < -m) return YES;
	if (d > m) return NO;
	return UNSURE;
}
static Tri refEqual(long double g, long double e, long double at, long double rt) {
	bool ng = g != g, ne = e != e;
	if (ng || ne) return ng && ne ? YES : NO;
	if (std::isinf(g) || std::isinf(e)) return g == e ? YES : NO;
	if (g == e) return YES;
	long double dl = g - e;
	F128 d = (F128)g - (F128)e; bool exD = (F128)dl == d && std::isfinite(dl);
	if (d < 0) d = -d;
	F128 ae = e < 0 ? -(F128)e : (F128)e;
	Tri A = le(d, at, exD), R = NO;
	if (e != 0) {
		long double q = std::fabs(dl) / std::fabs(e);
		bool exQ = exD && (F128)q * ae == d;
		R = le(d, (F128)rt * ae, exQ);
		if (exQ) R = q <= rt ? YES : NO;
	}
	if (A == YES || R == YES) return YES;
	if (A == UNSURE || R == UNSURE) return UNSURE;
	return NO;
}

enum Kind { STR, STRLEN, STRPAT, STRPATLEN, INT, INTB, REAL, REALB, RSTRICT, SPACE_, NL, NOTEOF, EOF_, XSTR, XINT, XREAL, KINDS };
static const char* const kindName[] = {"string()", "string(lo,hi)", "string(pattern)", "string(pattern,lo,hi)", "integer()", "integer(lo,hi)", "real()", "real(lo,hi)", "realStrict", "space()", "newline()", "noteof()", "eof()", "expectString", "expectInt", "expectReal"};
struct Op {
	int k = STR; int cnt = -1; char sep = ' ';     // cnt >= 0: list read
	i64 lo = 0, hi = 0, d0 = 0, d1 = 0; long double x = 0, y = 0; int pat = 0; string s;
	string show() const {
		std::ostringstream o; o.precision(21); o << kindName[k];
		if (k == STRLEN || k == STRPATLEN || k == INTB || k == XINT) o << "[" << lo << "," << hi << ")";
		if (k == REALB || k == RSTRICT || k == XREAL) o << "[" << x << "," << y << ")";
		if (k == RSTRICT) o << "dec[" << d0 << "," << d1 << ")";
		if (k == STRPAT || k == STRPATLEN) o << "pat" << pat;
		if (k == XSTR) o << "\"" << vh::esc(s, 60) << "\"";
		if (cnt >= 0) o << "x" << cnt << (sep == ' ' ? "sp" : "nl");
		return o.str();
	}
};
static const std::regex& pattern(int i) {
	static const std::regex p[3] = {std::regex("[a-z]+"), std::regex("(ab|c)*[0-9]?"), std::regex("-?[0-9]{1,5}(\\.[0-9]+)?")};
	return p[i];
}
static bool refPattern(int i, const string& s) {
	std::size_t k = 0;
	if (i == 0) { for (char c : s) if (c < 'a' || c > 'z') return false; return !s.empty(); }
	if (i == 1) { while (k < s.size()) { if (s[k] == 'c') k++; else if (s[k] == 'a' && k + 1 < s.size() && s[k + 1] == 'b') k += 2; else break; } if (k < s.size() && dig(s[k])) k++; return k == s.size(); }
	if (k < s.size() && s[k] == '-') k++;
	std::size_t b = k; while (k < s.size() && dig(s[k])) k++;
	if (k - b < 1 || k - b > 5) return false;
	if (k == s.size()) return true;
	if (s[k++] != '.') return false;
	b = k; while (k < s.size() && dig(s[k])) k++;
	return k == s.size() && k > b;
}
static string realStr(long double x) { char b[64]; std::snprintf(b, 64, "%.21Lg", x); return b; }

struct Unsure {};
struct Rejected {};
struct Model {
	const string& d; std::size_t p = 0; bool strict, cs; long double at, rt;
	std::size_t tokB = 0, tokE = 0; bool tokReject = false;
	void skip() { if (!strict) while (p < d.size() && ws(d[p])) p++; }
	void noteof() { skip(); if (p >= d.size()) throw Rejected{}; }
	string str() {
		noteof();
		if (strict && !graphic(d[p])) throw Rejected{};
		std::size_t b = p; while (p < d.size() && !ws(d[p])) p++;
		tokB = b; tokE = p; tokReject = true;
		string t = d.substr(b, p - b);
		if (!cs) for (char& c : t) c = low(c);
		return t;
	}
	void ch(char c) { if (strict) { noteof(); if (d[p] != c) throw Rejected{}; p++; } }
	i64 integer() { string t = str(); i64 v; if (!refInt(t, v)) throw Rejected{}; return v; }
	long double real() { string t = str(); if (!refRealGrammar(t)) throw Rejected{}; bool ok; long double v = refReal(t, ok); if (!ok) throw Unsure{}; return v; }
	string one(const Op& o) {
		tokReject = false;
		switch (o.k) {
			case STR: return str();
			case STRLEN: case STRPAT: case STRPATLEN: { string t = str(); if (o.k != STRPAT && (i64(t.size()) < o.lo || i64(t.size()) >= o.hi)) throw Rejected{}; if (o.k != STRLEN && !refPattern(o.pat, t)) throw Rejected{}; return t; }
			case INT: return std::to_string(integer());
			case INTB: { i64 v = integer(); if (v < o.lo || v >= o.hi) throw Rejected{}; return std::to_string(v); }
			case REAL: return realStr(real());
			case REALB: {
				long double v = real();
				if (v >= o.x && v < o.y) return realStr(v);
				Tri a = refEqual(v, o.x, at, rt), b = refEqual(v, o.y, at, rt);
				if (a == YES || b == YES) return realStr(v);
				if (a == UNSURE || b == UNSURE) throw Unsure{};
				throw Rejected{};
			}
			case RSTRICT: {
				string t = str(); i64 dec;
				if (!refStrictGrammar(t, dec) || dec < o.d0 || dec >= o.d1) throw Rejected{};
				bool ok; long double v = refReal(t, ok); if (!ok) throw Unsure{};
				if (!(v >= o.x && v < o.y)) throw Rejected{};
				return realStr(v);
			}
			case SPACE_: ch(' '); return "";
			case NL: ch('\n'); return "";
			case NOTEOF: noteof(); return "";
			case EOF_: skip(); if (p < d.size()) throw Rejected{}; return "";
			case XSTR: { string t = str(); string a = t, b = o.s; if (!cs) { for (char& c : b) c = low(c); } if (a != b) throw Rejected{}; return ""; }
			case XINT: if (integer() != o.lo) throw Rejected{}; return "";
			case XREAL: { Tri a = refEqual(real(), o.x, at, rt); if (a == UNSURE) throw Unsure{}; if (a == NO) throw Rejected{}; return ""; }
		}
		return "";
	}
	vector<string> run(const Op& o) {
		vector<string> r;
		if (o.cnt < 0) { r.push_back(one(o)); return r; }
		for (int i = 0; i < o.cnt; i++) { r.push_back(one(o)); if (i + 1 < o.cnt) ch(o.sep); }
		return r;
	}
};

static vector<string> runReal(InputStream& in, const Op& o) {
	vector<string> r;
	auto S = [&](const vector<string>& v) { r = v; };
	auto I = [&](const vector<Integer>& v) { for (auto x : v) r.push_back(std::to_string(x)); };
	auto R = [&](const vector<Real>& v) { for (auto x : v) r.push_back(realStr(x)); };
	bool l = o.cnt >= 0; bool dflt = l && o.sep == ' ' && (o.cnt & 1);
	switch (o.k) {
		case STR: if (!l) r.push_back(in.string()); else S(dflt ? in.strings(o.cnt) : in.strings(o.cnt, o.sep)); break;
		case STRLEN: if (!l) r.push_back(in.string(o.lo, o.hi)); else S(dflt ? in.strings(o.lo, o.hi, o.cnt) : in.strings(o.lo, o.hi, o.cnt, o.sep)); break;
		case STRPAT: if (!l) r.push_back(in.string(pattern(o.pat))); else S(dflt ? in.strings(pattern(o.pat), o.cnt) : in.strings(pattern(o.pat), o.cnt, o.sep)); break;
		case STRPATLEN: if (!l) r.push_back(in.string(pattern(o.pat), o.lo, o.hi)); else S(dflt ? in.strings(pattern(o.pat), o.lo, o.hi, o.cnt) : in.strings(pattern(o.pat), o.lo, o.hi, o.cnt, o.sep)); break;
		case INT: if (!l) r.push_back(std::to_string(in.integer())); else I(dflt ? in.integers(o.cnt) : in.integers(o.cnt, o.sep)); break;
		case INTB: if (!l) r.push_back(std::to_string(in.integer(o.lo, o.hi))); else I(dflt ? in.integers(o.lo, o.hi, o.cnt) : in.integers(o.lo, o.hi, o.cnt, o.sep)); break;
		case REAL: if (!l) r.push_back(realStr(in.real())); else R(dflt ? in.reals(o.cnt) : in.reals(o.cnt, o.sep)); break;
		case REALB: if (!l) r.push_back(realStr(in.real(o.x, o.y))); else R(dflt ? in.reals(o.x, o.y, o.cnt) : in.reals(o.x, o.y, o.cnt, o.sep)); break;
		case RSTRICT: if (!l) r.push_back(realStr(in.realStrict(o.x, o.y, o.d0, o.d1))); else R(dflt ? in.realsStrict(o.x, o.y, o.d0, o.d1, o.cnt) : in.realsStrict(o.x, o.y, o.d0, o.d1, o.cnt, o.sep)); break;
		case SPACE_: in.space(); r.push_back(""); break;
		case NL: in.newline(); r.push_back(""); break;
		case NOTEOF: in.noteof(); r.push_back(""); break;
		case EOF_: in.eof(); r.push_back(""); break;
		case XSTR: in.expectString(o.s); r.push_back(""); break;
		case XINT: in.expectInt(o.lo); r.push_back(""); break;
		case XREAL: in.expectReal(o.x); r.push_back(""); break;
	}
	return r;
}

// ---------------------------------------------------------------- sources
struct Pipe : std::streambuf {      // not seekable, delivers small chunks
	const string& d; std::size_t p = 0; std::size_t chunk; char buf[64];
	Pipe(const string& d_, std::size_t c) : d(d_), chunk(c) {}
	int_type underflow() override {
		if (p >= d.size()) return traits_type::eof();
		std::size_t n = std::min({chunk, sizeof buf, d.size() - p});
		std::memcpy(buf, d.data() + p, n); p += n; setg(buf, buf, buf + n);
		return traits_type::to_int_type(buf[0]);
	}
};
struct Source {
	std::unique_ptr<std::istringstream> ss; std::unique_ptr<Pipe> pipe; std::unique_ptr<std::istream> is; string path;
	InputStream in;
	Source(Ctx& c, const string& d, int kind, bool strict, bool cs, OutputStream& out, Verdicts::Verdict v, long double at, long double rt, bool dfltTol) {
		if (kind == 0) { ss = std::make_unique<std::istringstream>(d); in = dfltTol ? InputStream(*ss, strict, cs, out, v) : InputStream(*ss, strict, cs, out, v, at, rt); }
		else if (kind == 1) {
			path = "vh-in-" + std::to_string(getpid()) + ".bin";
			{ std::ofstream f(path, std::ios::binary); f.write(d.data(), std::streamsize(d.size())); }
			in = dfltTol ? InputStream(std::filesystem::path(path), strict, cs, out, v) : InputStream(std::filesystem::path(path), strict, cs, out, v, at, rt);
		} else {
			pipe = std::make_unique<Pipe>(d, 1 + c.r.below(60)); is = std::make_unique<std::istream>(pipe.get());
			in = dfltTol ? InputStream(*is, strict, cs, out, v) : InputStream(*is, strict, cs, out, v, at, rt);
		}
	}
	~Source() { if (!path.empty()) ::unlink(path.c_str()); }
};

struct Cfg { bool strict = true, cs = true; long double at = EPS, rt = EPS; bool dflt = true; };
// runs the script on the real stream and the model; returns the judge message of the final verdict
struct Outcome { bool rejected = false; string msg; std::size_t ops = 0; std::size_t tokB = 0, tokE = 0; bool tok = false; };
static Outcome play(Ctx& c, const string& key, const string& data, const vector<Op>& ops, const Cfg& g, int srcKind, bool showData = true) {
	int code = int(c.r.pick({43, 1, 42, 7, 43, 1}));
	std::ostringstream os; OutputStream out(os); vh::g_capture = &os; vh::g_first.clear();
	Outcome res;
	string desc = string(g.strict ? "strict" : "lenient") + (g.cs ? " cs" : " ci") + " src" + std::to_string(srcKind) + " data \"" + (showData ? vh::esc(data, 900) : "(" + std::to_string(data.size()) + " bytes)") + "\" ops";
	for (auto& o : ops) { desc += " " + o.show(); if (desc.size() > 1800) { desc += "..."; break; } }
	c.note(desc);
	c.fp(data); c.fp(u64(g.strict) * 2 + g.cs);
	Source s(c, data, srcKind, g.strict, g.cs, out, Verdicts::Verdict(code), g.at, g.rt, g.dflt);
	Model m{data, 0, g.strict, g.cs, g.at, g.rt};
	for (std::size_t i = 0; i < ops.size(); i++) {
		const Op& o = ops[i]; c.fp(o.show());
		vector<string> want; bool rej = false;
		try { want = m.run(o); } catch (Rejected&) { rej = true; } catch (Unsure&) { c.ev("outcome not determined (near tolerance/representation limit)"); (void)0; 
			try { runReal(s.in, o); } catch (vh::Exit& e) { VCHECK(c, e.code == code, key + ".code", "verdict " << e.code << " instead of " << code << "; " << desc); }
			return res; }
		vector<string> got; int ex = -1;
		try { got = runReal(s.in, o); }
		catch (vh::Exit& e) { ex = e.code; }
		catch (std::exception& e) { VFAIL(c, key + ".exception", "op " << i << " " << o.show() << " threw " << e.what() << "; " << desc); }
		if (rej) {
			VCHECK(c, ex != -1, key + ".accepted", "op " << i << " " << o.show() << " must be rejected but returned " << vh::show(got) << "; " << desc);
			VCHECK(c, ex == code, key + ".code", "op " << i << " ended with verdict " << ex << " instead of " << code << "; " << desc);
			c.ev("rejections"); c.ev((string("rejected ") + kindName[o.k]).c_str());
			res.rejected = true; res.msg = vh::g_first; res.tokB = m.tokB; res.tokE = m.tokE; res.tok = m.tokReject; res.ops = i;
			return res;
		}
		VCHECK(c, ex == -1, key + ".rejected", "op " << i << " " << o.show() << " must be accepted (" << vh::esc(want.empty() ? string() : want[0]) << ") but ended with verdict " << ex << " \"" << vh::esc(os.str()) << "\"; " << desc);
		VCHECK(c, got == want, key + ".value", "op " << i << " " << o.show() << " returned " << vh::esc(vh::show(got)) << " instead of " << vh::esc(vh::show(want)) << "; " << desc);
		c.ev((string("accepted ") + kindName[o.k]).c_str());
	}
	res.ops = ops.size();
	VCHECK(c, os.str().empty(), key + ".message", "message without rejection: " << vh::esc(os.str()) << "; " << desc);
	c.ev("scripts completed");
	return res;
}

// ---------------------------------------------------------------- generators
static string anyBytes(vh::Rng& r, int n) {
	static const string pool = string("  \n\n\t\r\v\f") + string(1, '\0') + "\xff\xa0\x85" "aAzZ09-+.e\"!~\x7f\x1f\x80 1x";
	string s; for (int i = 0; i < n; i++) s += pool[r.below(pool.size())];
	return s;
}
static string word(vh::Rng& r, int mx = 10) {
	int n = 1 + int(r.below(u64(mx))); string s;
	int kind = int(r.below(5));
	for (int i = 0; i < n; i++) s += kind == 0 ? char('a' + r.below(26)) : kind == 1 ? char('A' + r.below(26)) : kind == 2 ? char(33 + r.below(94)) : kind == 3 ? r.pick({'a', 'b', 'c'}) : r.pick({'a', 'B', '\x80', '\xff', '\xc4', '@', '[', 'Z', '\x01', '\x7f'});
	if (!graphic(s[0]) && r.chance(4, 5)) s[0] = 'q';
	return s;
}
static string intTok(vh::Rng& r) {
	switch (r.below(12)) {
		case 0: case 1: case 2: return std::to_string(r.wild());
		case 3: return std::to_string(r.in(-20, 20));
		case 4: { // around +-2^63 and powers of ten
			u64 x = (r.chance(1, 2) ? u64(1) << 63 : 10000000000000000000ull) + u64(r.in(-3, 3)); return (r.chance(1, 2) ? "-" : "") + std::to_string(x); }
		case 5: return r.pick<const char*>({"-0", "+5", "00", "01", "-01", "", "-", "--1", "1-", "0x1", "1e3", "1.0", "5.", "+0", "1_0", "1,0", "0-", "O", "-9223372036854775808", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "18446744073709551616", "000"});
		case 6: { string s = std::to_string(r.wild()); s.insert(s.begin() + long(r.below(s.size() + 1)), r.pick({'0', '-', '+', ' ', '.', 'a', '\0', '\xb2', '/', ':', '9'})); return s; }
		case 7: { string s = std::to_string(r.wild()); s.insert(0, r.pick<const char*>({"0", "-0", "+", "-", "00", ""})); return s; }
		case 8: { string s; int n = 1 + int(r.below(30)); for (int i = 0; i < n; i++) s += char('0' + r.below(10)); return s; }
		default: return std::to_string(r.in(-1000, 1000));
	}
}
static string realTok(vh::Rng& r) {
	auto digits = [&](int mx) { string s; int n = int(r.below(u64(mx) + 1)); for (int i = 0; i < n; i++) s += r.chance(1, 3) ? '0' : char('0' + r.below(10)); return s; };
	switch (r.below(10)) {
		case 0: return r.pick<const char*>({"nan", "inf", "-inf", "NaN", "0x1p3", "0x10", "1e", "1e+", ".", "-.", "+", "e5", ".e5", "1..2", "1.2.3", "+-5", "--5", "5.", ".5", "+.5", "-5.", "1e5.", "1E-3", "1e+3", "00.5", "007", "-0", "-0.0", "0", "0.", "-0.", "+0", "+1", "1f", "1L", "infinity", "1,5", "٣", "1e-5", "1e0005", "0e0", "0e99", "00", "01.5", "-01", "-007.50", "000", "1d3", "1e 3"});
		case 1: return intTok(r);
		case 2: case 3: return string(r.pick<const char*>({"", "", "-", "+"})) + digits(4) + r.pick<const char*>({"", ".", "."}) + digits(6) + (r.chance(1, 2) ? string(r.pick<const char*>({"e", "E"})) + r.pick<const char*>({"", "-", "+"}) + std::to_string(r.below(r.chance(1, 5) ? 4000 : 12)) : "");
		case 4: { char b[80]; std::snprintf(b, 80, "%.*Lf", int(r.below(25)), (long double)r.in(-1000, 1000) + (long double)r.unit()); return b; }
		case 5: { string s = digits(25) + "." + digits(25); return s; }
		case 6: { string s = std::to_string(r.in(-100, 100)) + "." + digits(3); if (r.chance(1, 2)) s.insert(s.begin() + long(r.below(s.size() + 1)), r.pick({'0', '-', '+', '.', 'e', 'E', 'x', 'p', '\0'})); return s; }
		default: { string s = std::to_string(r.in(-30, 30)); int d = int(r.below(8)); if (d) { s += '.'; for (int i = 0; i < d; i++) s += char('0' + r.below(10)); } return s; }
	}
}
static void mutate(vh::Rng& r, string& s) {
	int n = int(r.below(3));
	for (int i = 0; i < n; i++) {
		std::size_t p = r.below(s.size() + 1);
		switch (r.below(6)) {
			case 0: s.insert(p, anyBytes(r, 1)); break;
			case 1: if (p < s.size()) s.erase(p, 1); break;
			case 2: if (p < s.size()) s[p] = anyBytes(r, 1)[0]; break;
			case 3: if (p < s.size()) s.insert(p, 1, s[p]); break;
			case 4: if (r.chance(1, 4)) s.resize(p); break;
			case 5: if (r.chance(1, 2)) s += r.pick<const char*>({"\n", " ", "\r\n", "x", "\t"}); break;
		}
	}
}
static string junkWs(vh::Rng& r, bool empty) { string s; int n = int(r.below(4)) + (empty ? 0 : 1); for (int i = 0; i < n; i++) s += r.pick({' ', '\n', '\t', '\r', '\v', '\f', ' ', '\n'}); return s; }
// appends the rendering of op (tokens by tok) to data; separators of list reads included
template<class T> static void render(vh::Rng& r, string& data, const Op& o, bool strict, T&& tok) {
	int n = o.cnt < 0 ? 1 : o.cnt;
	if (o.k == SPACE_) { data += ' '; return; }
	if (o.k == NL) { data += '\n'; return; }
	if (o.k == NOTEOF || o.k == EOF_) return;
	for (int i = 0; i < n; i++) {
		data += tok(r);
		if (i + 1 < n) data += strict || r.chance(1, 2) ? string(1, o.sep) : junkWs(r, false);
	}
}
static Op strOp(vh::Rng& r) {
	Op o; o.k = r.pick({STR, STR, STRLEN});
	if (o.k == STRLEN) { o.lo = r.in(0, 4); o.hi = r.chance(1, 8) ? r.wild() : o.lo + r.in(0, 12); if (r.chance(1, 8)) o.lo = r.wild(); }
	if (r.chance(1, 4)) { o.cnt = int(r.below(5)); o.sep = r.pick({' ', '\n'}); }
	return o;
}
// a whole script with separators in between
template<class TO, class T> static vector<Op> script(vh::Rng& r, string& data, bool strict, TO&& tokOp, T&& tok) {
	vector<Op> ops; int n = r.size(12);
	for (int i = 0; i < n; i++) {
		Op o = tokOp(r); ops.push_back(o); render(r, data, o, strict, tok);
		Op s; s.k = r.chance(1, 2) ? SPACE_ : NL; if (r.chance(1, 10)) { s.k = NOTEOF; ops.push_back(s); s.k = SPACE_; }
		if (i + 1 < n || r.chance(2, 3)) { if (strict || r.chance(1, 2)) ops.push_back(s); if (!strict) data += junkWs(r, false); else render(r, data, s, strict, tok); }
	}
	if (r.chance(3, 4)) { Op e; e.k = EOF_; ops.push_back(e); }
	if (r.chance(1, 12)) { Op e; e.k = r.pick({STR, NOTEOF, SPACE_, NL, EOF_}); ops.push_back(e); }
	return ops;
}
// very many or very long items, valid by construction; half of the inputs are spoiled by one edit, mostly close to the end
static int src(vh::Rng& r);
template<class F> static void scale(Ctx& c, const char* prop, bool strict, F&& item) {
	vh::Rng& r = c.r; string d; vector<Op> ops; int kind = int(r.below(4)); Op sp; sp.k = SPACE_; Op nl; nl.k = NL; Op e; e.k = EOF_;
	if (kind == 0) { Op o; auto tok = item(r, o, r.chance(1, 12) ? (r.chance(1, 9) ? 1 << 24 : 1 << (20 + r.below(3))) : 70000); d += tok(); ops.push_back(o); d += '\n'; ops.push_back(nl); }
	else if (kind == 1) { Op o; auto tok = item(r, o, 12); o.cnt = r.border(5000); o.sep = r.pick({' ', '\n'}); render(r, d, o, strict, [&](vh::Rng&) { return tok(); }); d += '\n'; ops = {o, nl}; }
	else if (kind == 2) { int n = r.border(1200); for (int i = 0; i < n; i++) { Op o; auto tok = item(r, o, 12); d += tok(); ops.push_back(o); bool l = r.chance(1, 3); ops.push_back(l ? nl : sp); d += l ? '\n' : ' '; if (!strict && r.chance(1, 9)) d += junkWs(r, true); } }
	else { Op o; auto tok = item(r, o, 12); int n = r.border(400); for (int i = 0; i < n; i++) { o.cnt = int(r.below(20)); o.sep = ' '; if (!strict && !o.cnt) o.cnt = 1; render(r, d, o, strict, [&](vh::Rng&) { return tok(); }); d += '\n'; ops.push_back(o); ops.push_back(nl); } }
	ops.push_back(e);
	if (r.chance(1, 2) && !d.empty()) {
		std::size_t p = r.chance(1, 3) ? r.below(d.size()) : d.size() - 1 - r.below(std::min<std::size_t>(d.size(), 12));
		switch (r.below(4)) { case 0: d.insert(p, anyBytes(r, 1)); break; case 1: d.erase(p, 1); break; case 2: d[p] = anyBytes(r, 1)[0]; break; default: d += anyBytes(r, 1); }
	}
	Cfg g; g.strict = strict; g.cs = r.chance(1, 2); play(c, prop, d, ops, g, src(r), d.size() < 3000);
	c.ev("bytes in long inputs", d.size());
}
static int src(vh::Rng& r) { return int(r.below(16)) == 0 ? 1 : int(r.below(3)) == 0 ? 2 : 0; }

#if !defined(VH_ONLY) || VH_ONLY == 1
GROUP(C01, scripts, 40000, 2000000) {
	string d; auto ops = script(c.r, d, true, strOp, [](vh::Rng& r) { return word(r); });
	mutate(c.r, d);
	Cfg g; g.cs = c.r.chance(4, 5);
	play(c, "C01", d, ops, g, src(c.r));
	if (c.wantSample()) c.sample(vh::esc(d));
}
GROUP(C01, mixed, 20000, 1000000) {   // reads of every kind with both separators in one script
	string d; auto op = [](vh::Rng& r) { Op o; o.k = r.pick({STR, INT, INTB, REAL, REALB, RSTRICT, XSTR, STRLEN, STRPAT, STRPATLEN}); o.pat = int(r.below(3)); if (o.k == INTB) { o.lo = -500; o.hi = 500; } if (o.k == REALB || o.k == RSTRICT) { o.x = -500; o.y = 500; o.d0 = 0; o.d1 = 3; } if (o.k == STRLEN || o.k == STRPATLEN) { o.lo = 1; o.hi = 8; } if (o.k == XSTR) o.s = "12"; else if (r.chance(1, 2)) { o.cnt = int(r.below(4)); o.sep = r.pick({' ', '\n'}); } return o; };
	auto ops = script(c.r, d, true, op, [](vh::Rng& r) { return r.chance(19, 20) ? std::to_string(r.in(10, 14)) : word(r, 4); });
	if (c.r.chance(1, 2)) mutate(c.r, d);
	Cfg g; g.cs = c.r.chance(4, 5); play(c, "C01", d, ops, g, src(c.r));
}
GROUP(C01, bytes, 30000, 1500000) {
	string d = anyBytes(c.r, c.r.size(14)); vector<Op> ops; int n = 1 + int(c.r.below(8));
	for (int i = 0; i < n; i++) { Op o; if (c.r.chance(1, 2)) { o = strOp(c.r); } else o.k = c.r.pick({SPACE_, NL, NOTEOF, EOF_}); ops.push_back(o); }
	Cfg g; g.cs = c.r.chance(4, 5);
	play(c, "C01", d, ops, g, src(c.r));
}
GROUP(C01, scale, 700, 30000) {   // long tokens, long lists, long scripts
	scale(c, "C01", true, [](vh::Rng& r, Op& o, int mx) {
		o.k = r.pick({STR, STRLEN}); int fixed = mx > 70000 ? mx + int(r.below(9)) : mx > 12 ? std::max(1, r.border(mx)) : 0;
		o.lo = fixed ? fixed + r.pick({0, 0, 0, -1, 1}) : 1; o.hi = fixed ? fixed + r.pick({1, 1, 1, 0, 2}) : 13;
		return [&r, fixed] { string s; int n = fixed ? fixed : 1 + int(r.below(12)); for (int i = 0; i < n; i++) s += r.chance(1, 30) && i ? char(128 + r.below(128)) : char(33 + r.below(94)); return s; };
	});
}
GROUP(C01, tiny, 20000, 65536 * 4) {  // all short inputs over a hostile alphabet
	static const char al[] = {'a', ' ', '\n', '\r', '\t', '\0', '\xff', 'B'};
	u64 x = c.idx; int len = int(x % 6); x /= 6; string d; for (int i = 0; i < len; i++) { d += al[x % 8]; x /= 8; }
	vector<Op> ops; Op t, s, n, e; t.k = STR; s.k = SPACE_; n.k = NL; e.k = EOF_;
	switch (c.r.below(5)) {
		case 0: ops = {t, n, e}; break; case 1: ops = {t, s, t, n, e}; break; case 2: ops = {t, e}; break;
		case 3: t.cnt = 2; ops = {t, n, e}; break; default: t.cnt = 3; t.sep = '\n'; ops = {t, e};
	}
	play(c, "C01", d, ops, Cfg{}, src(c.r));
}
GROUP(C01, every_byte, 256 * 6, 256 * 24) {   // each byte value as separator, token start, token body, trailer
	char b = char(c.idx % 256); vector<Op> ops; Op t, s, n, e; t.k = STR; s.k = SPACE_; n.k = NL; e.k = EOF_;
	string d;
	switch ((c.idx / 256) % 6) {
		case 0: d = string("ab") + b + "cd\n"; ops = {t, s, t, n, e}; break;
		case 1: d = string("ab") + b + "cd\n"; ops = {t, n, t, n, e}; break;
		case 2: d = string(1, b) + "cd\n"; ops = {t, n, e}; break;
		case 3: d = string("cd\n") + b; ops = {t, n, e}; break;
		case 4: d = string("cd ") + b + "\n"; ops = {t, s, t, n, e}; break;
		default: d = string(1, b); ops = {t, e};
	}
	Cfg g; g.cs = c.r.chance(1, 2);
	play(c, "C01", d, ops, g, int(c.r.below(3)));
}
GROUP(C01, separator, 256, 256) {   // only space and newline are separators
	char b = char(c.idx); if (b == ' ' || b == '\n') { c.trivial(); return; }
	std::istringstream is("a b c d\n"); std::ostringstream os; OutputStream out(os);
	InputStream in(is, true, true, out, Verdicts::WA);
	c.note("separator byte " + std::to_string(int(b)));
	bool th = false; try { (void)in.strings(2, b); } catch (std::invalid_argument&) { th = true; } catch (vh::Exit&) {}
	VCHECK(c, th, "C01.separator", "list read with separator byte " << int((unsigned char)b) << " is not rejected");
	c.fp(u64(c.idx));
}
#endif
#if !defined(VH_ONLY) || VH_ONLY == 2
GROUP(C02, scripts, 40000, 2000000) {
	string d = junkWs(c.r, true); auto ops = script(c.r, d, false, strOp, [](vh::Rng& r) { return word(r); });
	if (c.r.chance(1, 2)) mutate(c.r, d);
	Cfg g; g.strict = false; g.cs = c.r.chance(1, 2);
	play(c, "C02", d, ops, g, src(c.r));
	if (c.wantSample()) c.sample(vh::esc(d));
}
GROUP(C02, mixed, 30000, 1500000) {   // numbers and checks of every kind on respaced input
	string d = junkWs(c.r, true);
	auto op = [](vh::Rng& r) { Op o; o.k = r.pick({STR, INT, INTB, REAL, XSTR, STRLEN}); if (o.k == INTB) { o.lo = -500; o.hi = 500; } if (o.k == STRLEN) { o.lo = 1; o.hi = 8; } if (o.k == XSTR) o.s = "12"; else if (r.chance(1, 4)) { o.cnt = int(r.below(4)); o.sep = r.pick({' ', '\n'}); } return o; };
	auto ops = script(c.r, d, false, op, [](vh::Rng& r) { return r.chance(3, 4) ? std::to_string(r.in(10, 14)) : word(r, 4); });
	Cfg g; g.strict = false; g.cs = c.r.chance(1, 2);
	play(c, "C02", d, ops, g, src(c.r));
}
GROUP(C02, case_bytes, 512, 1024) {   // every byte inside a token, both case modes
	char b = char(c.idx % 256); string d = string("x") + b + "Y\n"; Op t; Cfg g; g.strict = false; g.cs = (c.idx / 256) & 1;
	Op e; e.k = EOF_; vector<Op> ops{t}; if (ws(b)) ops.push_back(t); ops.push_back(e);
	play(c, "C02", d, ops, g, int(c.r.below(3)));
}
GROUP(C02, scale, 500, 20000) {
	scale(c, "C02", false, [](vh::Rng& r, Op& o, int mx) {
		o.k = r.pick({STR, STRLEN}); int fixed = mx > 70000 ? mx + int(r.below(9)) : mx > 12 ? std::max(1, r.border(mx)) : 0;
		o.lo = fixed ? fixed + r.pick({0, 0, 0, -1, 1}) : 1; o.hi = fixed ? fixed + r.pick({1, 1, 1, 0, 2}) : 13;
		return [&r, fixed] { string s; int n = fixed ? fixed : 1 + int(r.below(12)); for (int i = 0; i < n; i++) s += r.chance(1, 30) && i ? char(128 + r.below(128)) : char(33 + r.below(94)); return s; };
	});
}
GROUP(C02, bytes, 30000, 1500000) {
	string d = anyBytes(c.r, c.r.size(14)); vector<Op> ops; int n = 1 + int(c.r.below(8));
	for (int i = 0; i < n; i++) { Op o; if (c.r.chance(2, 3)) { o = strOp(c.r); } else o.k = c.r.pick({SPACE_, NL, NOTEOF, EOF_}); ops.push_back(o); }
	Cfg g; g.strict = false; g.cs = c.r.chance(1, 2);
	play(c, "C02", d, ops, g, src(c.r));
}
#endif
#if !defined(VH_ONLY) || VH_ONLY == 3
static Op intOp(vh::Rng& r) {
	Op o; o.k = r.pick({INT, INTB, INTB});
	if (o.k == INTB) { o.lo = r.chance(1, 2) ? r.in(-1100, 1000) : r.wild(); o.hi = r.chance(1, 2) ? i64(u64(o.lo) + u64(r.in(0, 2000))) : r.wild(); }
	if (r.chance(1, 4)) { o.cnt = int(r.below(5)); o.sep = r.pick({' ', '\n'}); }
	return o;
}
GROUP(C03, single, 60000, 4000000) {
	string t = intTok(c.r); bool strict = c.r.chance(1, 2);
	Op o; o.k = c.r.chance(1, 2) ? INT : INTB;
	if (o.k == INTB) {    // bounds close to the value
		i64 v; if (!refInt(t, v)) v = c.r.wild();
		if (c.r.chance(1, 2)) { o.lo = i64(u64(v) + u64(c.r.in(-2, 2))); o.hi = c.r.chance(1, 2) ? INT64_MAX : c.r.wild(); }
		else { o.hi = i64(u64(v) + u64(c.r.in(-2, 2))); o.lo = c.r.chance(1, 2) ? INT64_MIN : c.r.wild(); }
	}
	Op n; n.k = NL; Op e; e.k = EOF_;
	Cfg g; g.strict = strict; g.cs = c.r.chance(1, 2);
	play(c, "C03", t + "\n", {o, n, e}, g, src(c.r));
	if (c.wantSample()) c.sample(vh::esc(t) + " " + o.show());
}
GROUP(C03, scripts, 25000, 1500000) {
	bool strict = c.r.chance(1, 2); string d; bool wild = c.r.chance(1, 3);
	auto ops = script(c.r, d, strict, intOp, [&](vh::Rng& r) { return wild ? intTok(r) : std::to_string(r.in(-30, 1000)); });
	if (c.r.chance(1, 3)) mutate(c.r, d);
	Cfg g; g.strict = strict; g.cs = c.r.chance(1, 2);
	play(c, "C03", d, ops, g, src(c.r));
}
GROUP(C03, scale, 500, 20000) {   // long lists and scripts of integers close to their bounds
	scale(c, "C03", c.r.chance(1, 2), [](vh::Rng& r, Op& o, int) {
		o.k = r.pick({INT, INTB}); i64 a = r.wild(), b = r.wild(); if (a > b) std::swap(a, b); if (a == b) { if (b < INT64_MAX) b++; else a--; } o.lo = a; o.hi = b;
		return [&r, a, b] { switch (r.below(4)) { case 0: return std::to_string(a); case 1: return std::to_string(b - 1); default: { u64 w = u64(b) - u64(a); return std::to_string(i64(u64(a) + r.next() % w)); } } };
	});
}
GROUP(C03, isInteger, 60000, 4000000) {
	string t = intTok(c.r); c.fp(t); c.note(vh::esc(t));
	auto res = isInteger(t); i64 v = 0; bool want = refInt(t, v);
	VCHECK(c, bool(res) == want, "C03.isInteger", "isInteger(\"" << vh::esc(t) << "\") = " << bool(res));
	if (want) { VCHECK(c, res.hasReason() && *res.reason == v, "C03.isInteger", "isInteger(\"" << t << "\") reports a different value"); c.ev("integer tokens"); }
	else c.ev("non-integer tokens");
}
GROUP(C03, every_byte, 256 * 4, 256 * 4) {
	char b = char(c.idx % 256); string t; switch (c.idx / 256) { case 0: t = string(1, b) + "12"; break; case 1: t = string("1") + b + "2"; break; case 2: t = string("12") + b; break; default: t = string(1, b); }
	auto res = isInteger(t); i64 v = 0; VCHECK(c, bool(res) == refInt(t, v), "C03.isInteger", "isInteger(\"" << vh::esc(t) << "\")");
	Op o; o.k = INT; Op e; e.k = EOF_; play(c, "C03", t, {o, e}, Cfg{}, 0);
}
#endif
#if !defined(VH_ONLY) || VH_ONLY == 4
static long double someReal(vh::Rng& r) {
	switch (r.below(8)) {
		case 0: return 0; case 1: return (long double)r.in(-10, 10); case 2: return (long double)r.in(-40, 40) / 4; case 3: return (long double)r.wild();
		case 4: return std::ldexp((long double)r.unit() - 0.5L, int(r.in(-60, 60))); case 5: return r.pick({-HUGE_VALL, HUGE_VALL, 1e300L, -1e300L, 1e-300L}); default: return (long double)r.in(-1000, 1000) + (long double)r.unit();
	}
}
static long double tol(vh::Rng& r) { return r.pick({0.0L, 1e-6L, 0.25L, 0.5L, 1.0L, 1e-9L, 1e-3L, 0.125L}); }
static string fmt(vh::Rng& r, long double v) { char b[6000]; std::snprintf(b, sizeof b, std::fabs(v) > 1e40L && !r.chance(1, 20) ? "%.21Le" : r.pick<const char*>({"%.21Lg", "%.25Lf", "%.21Le", "%.6Lf", "%.3Lf", "%.0Lf"}), v); return b; }
GROUP(C04, plain, 25000, 3000000) {
	string t = realTok(c.r); Op o; o.k = REAL; Op n; n.k = NL; Op e; e.k = EOF_;
	Cfg g; g.strict = c.r.chance(1, 2); g.cs = c.r.chance(1, 2);
	play(c, "C04", t + "\n", {o, n, e}, g, src(c.r));
	if (c.wantSample()) c.sample(vh::esc(t));
}
GROUP(C04, bounds, 25000, 3000000) {
	Op o; o.k = REALB; o.x = someReal(c.r); o.y = c.r.chance(1, 2) ? o.x + std::fabs(someReal(c.r)) : someReal(c.r);
	Cfg g; g.strict = c.r.chance(1, 2); g.dflt = c.r.chance(1, 4); if (!g.dflt) { g.at = tol(c.r); g.rt = tol(c.r); }
	string t;
	if (c.r.chance(3, 4)) {   // close to a bound
		long double b = c.r.chance(1, 2) ? o.x : o.y; if (!std::isfinite(b)) b = 1;
		long double d = c.r.chance(1, 2) ? g.at : g.rt * std::fabs(b);
		long double f = c.r.pick({0.0L, 1.0L, -1.0L, 0.5L, -0.5L, 1.0001L, -1.0001L, 2.0L, -2.0L, 0.999L, -0.999L, 3.0L});
		t = fmt(c.r, b + d * f);
	} else t = realTok(c.r);
	Op n; n.k = NL; Op e; e.k = EOF_;
	play(c, "C04", t + "\n", {o, n, e}, g, src(c.r));
}
GROUP(C04, strict, 40000, 3000000) {
	Op o; o.k = RSTRICT; string t = realTok(c.r); i64 dec = 0; bool gr = refStrictGrammar(t, dec); bool ok; long double v = gr ? refReal(t, ok) : 0;
	if (c.r.chance(1, 2)) { o.d0 = dec + c.r.in(-2, 2); o.d1 = o.d0 + c.r.in(0, 3); } else { o.d0 = 0; o.d1 = c.r.pick({1, 3, 7, 100}); }
	switch (c.r.below(5)) { case 0: o.x = v; o.y = v + 1; break; case 1: o.x = v - 1; o.y = v; break; case 2: o.x = std::nextafter(v, HUGE_VALL); o.y = v + 5; break; case 3: o.x = v - 5; o.y = std::nextafter(v, HUGE_VALL); break; default: o.x = -1e30L; o.y = 1e30L; }
	if (!gr && c.r.chance(3, 4)) { o.d0 = 0; o.d1 = 50; o.x = -1e30L; o.y = 1e30L; }
	Op n; n.k = NL; Op e; e.k = EOF_; Cfg g; g.strict = c.r.chance(1, 2); g.dflt = c.r.chance(1, 2); if (!g.dflt) { g.at = tol(c.r); g.rt = tol(c.r); }
	play(c, "C04", t + "\n", {o, n, e}, g, src(c.r));
}
GROUP(C04, lists, 20000, 1000000) {
	bool strict = c.r.chance(1, 2); string d; bool sg = c.r.chance(1, 2);
	auto op = [&](vh::Rng& r) { Op o; o.k = sg ? r.pick({RSTRICT, RSTRICT, REAL, REALB}) : r.pick({REAL, REALB}); o.x = -31; o.y = r.pick({31.0L, 20.0L}); o.d0 = r.pick({0, 0, 1}); o.d1 = r.pick({8, 8, 4}); if (r.chance(1, 2)) { o.cnt = int(r.below(5)); o.sep = r.pick({' ', '\n'}); } return o; };
	auto ops = script(c.r, d, strict, op, [&](vh::Rng& r) { char b[40]; std::snprintf(b, 40, "%.*f", int(r.below(6)), double(r.in(-30, 30)) + (r.chance(1, 2) ? r.unit() : 0)); return string(b); });
	if (c.r.chance(1, 3)) mutate(c.r, d);
	Cfg g; g.strict = strict;
	play(c, "C04", d, ops, g, src(c.r));
}
GROUP(C04, scale, 400, 15000) {   // long lists and scripts of reals
	scale(c, "C04", c.r.chance(1, 2), [](vh::Rng& r, Op& o, int mx) {
		o.k = r.pick({REAL, REALB, RSTRICT}); o.x = -1000; o.y = 1000; int dec = mx > 12 ? r.border(3000) : int(r.below(9)); o.d0 = dec; o.d1 = dec + 1;
		return [&r, dec] { string s = std::to_string(r.in(-999, 999)); if (s == "0" && r.chance(1, 2)) s = "-0"; if (dec) { s += '.'; for (int i = 0; i < dec; i++) s += char('0' + r.below(10)); } return s; };
	});
}
GROUP(C04, isReal, 25000, 3000000) {
	string t = realTok(c.r); c.fp(t); c.note(vh::esc(t));
	auto res = isReal(t); bool want = refRealGrammar(t); bool ok = true; long double v = want ? refReal(t, ok) : 0;
	if (want && !ok) {   // not representable: the test agrees with the read
		std::istringstream is(t); std::ostringstream os; OutputStream out(os); InputStream in(is, true, true, out, Verdicts::WA); bool acc = false;
		try { (void)in.real(); acc = true; } catch (vh::Exit&) {}
		VCHECK(c, bool(res) == acc, "C04.isReal", "isReal(\"" << vh::esc(t) << "\") = " << bool(res) << " but reading it " << (acc ? "works" : "is rejected")); c.ev("unrepresentable tokens"); return;
	}
	VCHECK(c, bool(res) == want, "C04.isReal", "isReal(\"" << vh::esc(t) << "\") = " << bool(res));
	if (want) { VCHECK(c, res.hasReason() && *res.reason == v, "C04.isReal", "isReal(\"" << t << "\") reports a different value"); c.ev("real tokens"); } else c.ev("non-real tokens");
}
GROUP(C04, every_byte, 256 * 5, 256 * 5) {
	char b = char(c.idx % 256); string t; switch (c.idx / 256) { case 0: t = string(1, b) + "1.2"; break; case 1: t = string("1") + b + "2"; break; case 2: t = string("1.2") + b; break; case 3: t = string("1.2e") + b + "1"; break; default: t = string(1, b); }
	Op o; o.k = REAL; Op e; e.k = EOF_; play(c, "C04", t, {o, e}, Cfg{}, 0);
	o.k = RSTRICT; o.x = -1e9; o.y = 1e9; o.d1 = 9; play(c, "C04", t, {o, e}, Cfg{}, 0);
}
#endif
#if !defined(VH_ONLY) || VH_ONLY == 5
static long double tol5(vh::Rng& r) { return r.pick({0.0L, 1e-6L, 0.25L, 0.5L, 1.0L, 1e-9L, 1e-3L, 0.125L, 2.0L}); }
static long double val5(vh::Rng& r) {
	switch (r.below(9)) {
		case 0: return r.pick({0.0L, -0.0L}); case 1: return (long double)r.in(-10, 10); case 2: return (long double)r.in(-64, 64) / 8; case 3: return (long double)r.wild();
		case 4: return std::ldexp((long double)r.unit() - 0.5L, int(r.in(-60, 60))); case 5: return r.pick({-HUGE_VALL, HUGE_VALL, (long double)NAN, -(long double)NAN});
		case 6: return r.pick({LDBL_MAX, -LDBL_MAX, LDBL_MIN, 1e4000L, 1e-4000L, 1e300L}); default: return (long double)r.in(-1000, 1000) + (long double)r.unit();
	}
}
static long double near5(vh::Rng& r, long double e, long double at, long double rt) {
	if (!std::isfinite(e) || r.chance(1, 4)) return val5(r);
	long double d = r.chance(1, 2) ? at : rt * std::fabs(e);
	long double x = e + d * r.pick({0.0L, 1.0L, -1.0L, 0.5L, -0.5L, 1.0001L, -1.0001L, 2.0L, -2.0L, 0.999L, -0.999L, 1.5L, -1.5L});
	if (r.chance(1, 10)) x = std::nextafter(x, r.chance(1, 2) ? HUGE_VALL : -HUGE_VALL);
	return x;
}
GROUP(C05, helpers, 80000, 20000000) {
	long double at = tol5(c.r), rt = tol5(c.r), e = val5(c.r), g = near5(c.r, e, at, rt);
	string in = realStr(g) + " vs " + realStr(e) + " abs " + realStr(at) + " rel " + realStr(rt); c.note(in); c.fp(in);
	using namespace ValidateBase;
	Tri want = refEqual(g, e, at, rt);
	if (want == UNSURE) { c.trivial(); c.ev("near tolerance, not judged"); return; }
	VCHECK(c, ValidateBase::floatEqual(g, e, at, rt) == (want == YES), "C05.floatEqual", "floatEqual " << in << " is " << (want != YES));
	VCHECK(c, ValidateBase::floatLess(g, e, at, rt) == (want == YES || g < e), "C05.floatLess", "floatLess " << in);
	VCHECK(c, ValidateBase::floatGreater(g, e, at, rt) == (want == YES || g > e), "C05.floatGreater", "floatGreater " << in);
	if (refEqual(g, e, EPS, EPS) != UNSURE) { bool w = refEqual(g, e, EPS, EPS) == YES;
		VCHECK(c, ValidateBase::floatEqual(g, e) == w && ValidateBase::floatLess(g, e) == (w || g < e) && ValidateBase::floatGreater(g, e) == (w || g > e), "C05.defaults", "default tolerances " << in); }
	c.ev(want == YES ? "equal pairs" : "different pairs");
}
GROUP(C05, negative_tolerance, 200, 2000) {
	long double t = -c.r.pick({1.0L, 1e-9L, 0.5L}); c.fp(u64(c.idx));
	VCHECK(c, vh::throwsStd([&] { (void)ValidateBase::floatEqual(1, 1, t, 0.5L); }) && vh::throwsStd([&] { (void)ValidateBase::floatEqual(1, 1, 0.5L, t); }), "C05.tolerance", "negative tolerance accepted");
}
GROUP(C05, invalid_expected, 300, 3000) {   // an expected value that can never be a token is rejected by an exception
	string t = c.r.chance(1, 8) ? "" : word(c.r); if (!t.empty()) t.insert(c.r.below(t.size() + 1), 1, c.r.pick({' ', '\n', '\r', '\t', '\f', '\v'})); c.fp(t); c.note(vh::esc(t));
	std::istringstream is(t + "\n"); std::ostringstream os; OutputStream out(os); InputStream in(is, c.r.chance(1, 2), true, out, Verdicts::WA); bool ok = false;
	try { in.expectString(t); } catch (vh::Exit&) {} catch (std::exception&) { ok = true; }
	VCHECK(c, ok, "C05.expectString.invalid", "expectString(\"" << vh::esc(t) << "\") does not throw");
}
GROUP(C05, expectReal, 25000, 3000000) {
	Cfg g; g.strict = c.r.chance(1, 2); g.dflt = c.r.chance(1, 4); if (!g.dflt) { g.at = tol5(c.r); g.rt = tol5(c.r); }
	Op o; o.k = XREAL; o.x = val5(c.r); long double v = near5(c.r, o.x, g.at, g.rt);
	char b[6000]; std::snprintf(b, sizeof b, std::fabs(v) > 1e40L ? "%.21Le" : c.r.pick<const char*>({"%.21Lg", "%.25Lf", "%.21Le", "%.6Lf"}), v);
	Op n; n.k = NL; Op e; e.k = EOF_;
	play(c, "C05.expectReal", string(b) + "\n", {o, n, e}, g, src(c.r));
	if (c.wantSample()) c.sample(string(b) + " " + o.show());
}
GROUP(C05, expectInt, 30000, 2000000) {
	Op o; o.k = XINT; o.lo = c.r.wild(); i64 v = c.r.chance(1, 2) ? o.lo : c.r.chance(1, 2) ? i64(u64(o.lo) ^ (1ull << c.r.below(64))) : i64(u64(o.lo) + u64(c.r.in(-2, 2)));
	string t = c.r.chance(9, 10) ? std::to_string(v) : intTok(c.r); Op n; n.k = NL; Op e; e.k = EOF_;
	Cfg g; g.strict = c.r.chance(1, 2); g.cs = c.r.chance(1, 2);
	play(c, "C05.expectInt", t + "\n", {o, n, e}, g, src(c.r));
}
GROUP(C05, expectString, 60000, 3000000) {
	Op o; o.k = XSTR; o.s = word(c.r, c.r.chance(1, 150) ? std::max(1, c.r.border(9000)) : c.r.chance(1, 4) ? 60 : 10); string t = o.s; if (c.r.chance(1, 3)) t.back() = char(33 + c.r.below(94));
	switch (c.r.below(7)) {
		case 0: for (char& ch : t) if (c.r.chance(1, 3)) ch = char(ch ^ 32); break;
		case 1: for (char& ch : t) ch = low(ch); break;
		case 2: t += word(c.r, 2); break; case 3: t.resize(t.size() - (t.size() > 1)); break;
		case 4: t[c.r.below(t.size())] = char(33 + c.r.below(94)); break; case 5: t = word(c.r); break; default: break;
	}
	if (t.empty() || std::any_of(t.begin(), t.end(), [](char x) { return ws(x); })) t = o.s;
	if (c.r.chance(1, 4)) std::swap(t, o.s);
	Op n; n.k = NL; Op e; e.k = EOF_; Cfg g; g.strict = c.r.chance(1, 2); g.cs = c.r.chance(1, 2);
	play(c, "C05.expectString", t + "\n", {o, n, e}, g, src(c.r));
}
GROUP(C05, lengths, 160, 4000) {   // lengths that differ by powers of two and their neighbours
	int base = 1 + int(c.r.below(40)), diff = (1 << c.r.below(21)) + int(c.r.pick({0, 0, 0, -1, 1})); string a = word(c.r, base), b = a + string(std::size_t(diff), 'x'); if (c.r.chance(1, 2)) std::swap(a, b);
	bool cs = c.r.chance(1, 2); c.note(std::to_string(a.size()) + " against " + std::to_string(b.size()) + " bytes"); c.fp(u64(a.size())); c.fp(u64(b.size())); c.fp(a.substr(0, 40));
	auto res = ValidateBase::stringEqual(a, b, cs); VCHECK(c, bool(res) == (diff == 0), "C05.stringEqual", "strings of " << a.size() << " and " << b.size() << " bytes are " << (res ? "equal" : "different"));
	Op o; o.k = XSTR; o.s = b; Op n; n.k = NL; Op e; e.k = EOF_; Cfg g; g.strict = c.r.chance(1, 2); g.cs = cs; if (!a.empty() && !b.empty()) play(c, "C05.expectString", a + "\n", {o, n, e}, g, 0, false); c.ev("length differences");
}
GROUP(C05, stringEqual, 50000, 3000000) {
	auto rnd = [&](int n) { string s; for (int i = 0; i < n; i++) s += c.r.chance(1, 2) ? c.r.pick({'a', 'A', 'b', 'B'}) : char(c.r.below(256)); return s; };
	string a = rnd(c.r.size(20, 9000)), b = a; if (c.r.chance(1, 2)) for (char& ch : b) if (c.r.chance(1, 3)) ch = char(ch ^ 32);
	if (c.r.chance(1, 2)) mutate(c.r, b);
	bool cs = c.r.chance(1, 2); std::size_t i = 0;
	while (i < a.size() && i < b.size() && (cs ? a[i] == b[i] : low(a[i]) == low(b[i]))) i++;
	bool want = i == a.size() && i == b.size(); c.fp(a); c.fp(b); c.fp(u64(cs)); c.note(vh::esc(a) + " / " + vh::esc(b));
	auto res = ValidateBase::stringEqual(a, b, cs);
	VCHECK(c, bool(res) == want, "C05.stringEqual", "stringEqual(\"" << vh::esc(a) << "\",\"" << vh::esc(b) << "\"," << cs << ")=" << bool(res));
	if (!want) VCHECK(c, res.hasReason() && *res.reason == i, "C05.stringEqual", "mismatch position of \"" << vh::esc(a) << "\",\"" << vh::esc(b) << "\" is not " << i);
	c.ev(want ? "equal strings" : "different strings");
}
#endif
#if !defined(VH_ONLY) || VH_ONLY == 6
static Op anyOp(vh::Rng& r) {
	Op o; o.k = int(r.below(KINDS)); if (o.k == STRPAT) o.k = STRPATLEN;
	o.lo = r.chance(1, 2) ? r.in(0, 3) : r.wild(); o.hi = r.chance(1, 2) ? r.in(3, 40) : r.wild();
	if (o.k == STRPATLEN) { o.lo = r.in(-1, 3); o.hi = r.in(0, 200); }
	o.pat = int(r.below(3)); o.x = r.pick({-1e9L, 0.0L, -5.0L, -HUGE_VALL, 1.0L}); o.y = r.pick({1e9L, 10.0L, HUGE_VALL, 0.0L, (long double)NAN}); o.d0 = r.in(0, 2); o.d1 = r.pick<i64>({3, 100, 1, i64(INT64_MAX), i64(INT64_MIN)});
	o.s = "abc"; if (r.chance(1, 3)) o.s = word(r, 40);
	if (o.k < SPACE_ && r.chance(1, 4)) { o.cnt = int(r.below(6)); o.sep = r.pick({' ', '\n'}); }
	return o;
}
GROUP(C06, small, 40000, 4000000) {
	string d = c.r.chance(1, 2) ? anyBytes(c.r, c.r.size(30)) : string();
	vector<Op> ops; int n = 1 + int(c.r.below(6)); bool strict = c.r.chance(1, 2);
	for (int i = 0; i < n; i++) { Op o = anyOp(c.r); ops.push_back(o); if (d.size() < 40) { render(c.r, d, o, strict, [](vh::Rng& r) { return r.chance(1, 3) ? intTok(r) : r.chance(1, 2) ? realTok(r) : word(r); }); if (c.r.chance(1, 2)) d += ' '; } }
	if (c.r.chance(1, 2)) mutate(c.r, d);
	Cfg g; g.strict = strict; g.cs = c.r.chance(1, 2); g.dflt = false; g.at = c.r.pick({0.0L, 1e-6L, HUGE_VALL, 1.0L}); g.rt = c.r.pick({0.0L, 1e-6L, 1.0L});
	for (auto& o : ops) if (o.y != o.y && o.k != REALB && o.k != RSTRICT) o.y = 1;
	play(c, "C06", d, ops, g, src(c.r));
}
GROUP(C06, huge, 200, 6000) {      // very long tokens and lines, one operation each
	static const int sizes[] = {1000, 20000, 60000, 100000, 300000, 1000000, 2500000};
	int n = sizes[c.r.below(c.r.chance(1, 12) ? 7 : 5)] + int(c.r.below(50)); string t;
	switch (c.r.below(10)) {
		case 0: t = string(n, '9'); break; case 1: t = "-" + string(n, '1'); break; case 2: t = "0." + string(n, '3'); break; case 3: t = string(n, '7') + ".5"; break;
		case 4: t = "1e" + string(n, '0') + "1"; break; case 5: t = string(n, 'a'); break; case 6: t = string(n, '\xff'); break; case 7: t = "x" + string(n, '\0'); break;
		case 8: t = string(n, '0'); break; default: t = "1" + string(n, '0') + c.r.pick<const char*>({"x", ".", "e5", "", "-"}); }
	Op o = anyOp(c.r); o.k = c.r.pick({STR, STRLEN, STRPATLEN, INT, INTB, REAL, REALB, RSTRICT, XSTR, XINT, XREAL, EOF_, SPACE_});
	if (o.k == INTB) { o.lo = INT64_MIN; o.hi = INT64_MAX; } if (o.k == REALB || o.k == RSTRICT) { o.x = -1e300L; o.y = 1e300L; } if (o.k == RSTRICT) { o.d0 = 0; o.d1 = i64(1) << 40; } if (o.k == XREAL) o.x = 1;
	if (o.k == STRLEN && c.r.chance(1, 2)) { o.lo = n; o.hi = n + 60; }
	if (o.k == XSTR && c.r.chance(1, 2)) { o.s = string(n, 'a'); if (c.r.chance(1, 2)) o.s += 'b'; }
	o.cnt = -1; if (c.r.chance(1, 4) && o.k < SPACE_) o.cnt = 2;
	string pre; vector<Op> ops; bool strict = c.r.chance(1, 2); int k = int(c.r.below(3));
	for (int i = 0; i < k; i++) { Op p; p.k = STR; pre += "tok" + std::to_string(i) + " "; ops.push_back(p); Op s; s.k = SPACE_; ops.push_back(s); }
	ops.push_back(o); string d = pre + t + c.r.pick<const char*>({"", "\n", " ", " 5\n"}); if (o.cnt == 2) d += t;
	Cfg g; g.strict = strict; g.cs = c.r.chance(1, 2);
	play(c, "C06", d, ops, g, int(c.r.below(3)), false);
	c.ev("bytes in huge inputs", d.size());
	if (c.wantSample()) c.sample(std::to_string(d.size()) + " bytes, " + o.show());
}
GROUP(C06, huge_pattern, 24, 600) {   // a pattern read with a length bound never looks at a token which is too long
	vh::Rng& r = c.r; int n = r.pick({150000, 300000, 1000000, 4000000}) + int(r.below(50)); Op o; o.k = STRPATLEN; o.pat = int(r.below(3)); o.lo = r.in(0, 3); o.hi = r.in(10, 200);
	string t = string(n, o.pat == 0 ? 'q' : o.pat == 1 ? 'c' : '7'); if (r.chance(1, 4)) t.back() = '!'; if (r.chance(1, 4)) { o.cnt = 2; o.sep = ' '; t = (o.pat == 2 ? "17 " : "c ") + t; }
	Cfg g; g.strict = r.chance(1, 2); g.cs = r.chance(1, 2); play(c, "C06", t + r.pick<const char*>({"", "\n", " x"}), {o}, g, int(r.below(3)), false);
	c.ev("bytes in huge inputs", t.size());
}
GROUP(C06, huge_convert, 24, 1000) {
	int n = int(c.r.pick({50000, 200000, 100000, 70000, c.r.chance(1, 4) ? 1500000 : 60000})); string t = c.r.pick<const char*>({"", "-", "0", "0."}) + string(n, c.r.pick({'1', '0', '9', 'a'})) + c.r.pick<const char*>({"", ".5", "e", "x"});
	c.note(std::to_string(n)); c.fp(t); i64 v; VCHECK(c, bool(isInteger(t)) == refInt(t, v), "C06.isInteger", "isInteger of a token with " << t.size() << " bytes");
	bool gr = refRealGrammar(t); bool ok = true; if (gr) refReal(t, ok);
	auto r = isReal(t); if (ok) VCHECK(c, bool(r) == gr, "C06.isReal", "isReal of a token with " << t.size() << " bytes");
}
GROUP(C06, long_line, 60, 2500) {   // a rejection far into a line with very many tokens, or far into the file
	vector<Op> ops; string d; int n = int(c.r.pick({200, 2000, 5000})); bool nl = c.r.chance(1, 2); bool strict = c.r.chance(1, 2);
	Op t; t.k = STR; t.cnt = n; t.sep = nl ? '\n' : ' ';
	for (int i = 0; i < n; i++) { d += word(c.r, 12); if (!graphic(d.back())) d += 'x'; d += nl ? '\n' : ' '; }
	for (char& x : d) if (!graphic(x) && !ws(x)) x = 'q';
	Op s; s.k = nl ? NL : SPACE_; Op b; b.k = INT; ops = {t, s, b}; d += c.r.pick<const char*>({"bad", "bad more\n", "1x\n", "", "\xff\xff more"});
	Cfg g; g.strict = strict; play(c, "C06", d, ops, g, int(c.r.below(3)), false);
}
GROUP(C06, columns, 12000, 400000) {   // a rejected token of any length at any column of a line, after other lines, with anything around it
	vh::Rng& r = c.r; bool strict = r.chance(1, 2); vector<Op> ops; string d; Op t; t.k = STR;
	int lines = r.chance(1, 3) ? 1 + int(r.below(3)) : 0;
	auto tok = [&](int len) { string s; for (int i = 0; i < len; i++) s += r.chance(1, 12) && i ? char(1 + r.below(8)) : char(33 + r.below(94)); return s; };
	for (int i = 0; i < lines; i++) { d += tok(1 + int(r.below(r.chance(1, 4) ? 150 : 10))) + "\n"; ops.push_back(t); Op nl; nl.k = NL; ops.push_back(nl); }
	int col = int(r.pick<u64>({r.below(30), r.below(30), r.below(90), r.below(400)}));
	while (col > 0) {
		int len = r.chance(1, 5) ? col - 1 : int(r.below(u64(std::min(col, 30)))); if (len < 1) len = 1; if (col == 1) break;
		d += tok(len) + " "; ops.push_back(t); Op s; s.k = SPACE_; ops.push_back(s); col -= len + 1;
	}
	if (!strict && r.chance(1, 3)) d += string(r.below(40), r.pick({' ', '\t', '\r', '\v'}));
	int len = int(r.pick<u64>({1 + r.below(12), 1 + r.below(45), 35 + r.below(50), 50 + r.below(20), 1 + r.below(300)}));
	Op o; string bad; switch (r.below(5)) {
		case 0: o.k = INT; bad = "x" + tok(len - 1); break;
		case 1: o.k = STRLEN; bad = tok(len); o.lo = len + 1; o.hi = len + 9; break;
		case 2: o.k = XSTR; bad = tok(len); o.s = tok(len + 1); break;
		case 3: o.k = REAL; bad = "-" + tok(len - 1) + "z"; break;
		default: o.k = RSTRICT; bad = string(len, '7'); o.x = -1; o.y = 1; o.d1 = 5; break; }
	ops.push_back(o); d += bad;
	d += r.pick<const char*>({"", "\n", " ", " 5\n", "\t", "\r\n", "\v"}); if (r.chance(1, 3)) d += tok(int(r.below(120)));
	Cfg g; g.strict = strict; g.cs = r.chance(1, 2);
	play(c, "C06", d, ops, g, src(r));
	if (c.wantSample()) c.sample(vh::esc(d, 200));
}
GROUP(C06, missing_file, 20, 100) {
	std::ostringstream os; OutputStream out(os); c.fp(u64(c.idx));
	VCHECK(c, vh::throwsStd([&] { InputStream in(std::filesystem::path("vh-does-not-exist/" + std::to_string(c.idx)), true, true, out, Verdicts::WA); }), "C06.file", "opening a missing file does not throw");
}
#endif
#if !defined(VH_ONLY) || VH_ONLY == 35
static void checkDiag(Ctx& c, const string& d, const Outcome& o, bool seekable, const vector<string>& names) {
	string m = o.msg;
	string ctx = "message \"" + vh::esc(m, 700) + "\" for token \"" + vh::esc(d.substr(o.tokB, o.tokE - o.tokB), 200) + "\" in \"" + vh::esc(d, 900) + "\"";
	for (auto& nm : names) VCHECK(c, m.find(nm) != string::npos, "C35.value", "offending value " << vh::esc(nm) << " not named: " << ctx);
	if (!seekable) { VCHECK(c, m.find(" Line: ") == string::npos, "C35.nonseekable", "location for non-seekable source: " << ctx); VCHECK(c, m.size() > 3, "C35.nonseekable", "no message: " << ctx); c.ev("non-seekable diagnostics"); return; }
	if (o.tokE >= d.size()) { c.ev("token at end of file (location not claimed)"); return; }
	std::size_t line = 1, ls = 0; for (std::size_t i = 0; i < o.tokB; i++) if (d[i] == '\n') { line++; ls = i + 1; }
	std::size_t le = d.find('\n', ls); if (le == string::npos) le = d.size();
	string T = d.substr(ls, le - ls); std::size_t C = o.tokB - ls, len = o.tokE - o.tokB;
	VCHECK(c, !m.empty() && m.back() == '\n', "C35.format", "message does not end with a newline: " << ctx);
	m.pop_back();
	std::size_t p2 = m.rfind('\n'); VCHECK(c, p2 != string::npos && p2 > 0, "C35.format", "no marker line: " << ctx);
	std::size_t p1 = m.rfind('\n', p2 - 1); VCHECK(c, p1 != string::npos, "C35.format", "no text line: " << ctx);
	string head = m.substr(0, p1), text = m.substr(p1 + 1, p2 - p1 - 1), mark = m.substr(p2 + 1);
	string loc = "Line: " + std::to_string(line) + ", Char: " + std::to_string(C);
	VCHECK(c, head.size() >= loc.size() && head.compare(head.size() - loc.size(), loc.size(), loc) == 0, "C35.location", "expected " << loc << ": " << ctx);
	VCHECK(c, text.size() <= 80, "C35.text", "text of " << text.size() << " characters: " << ctx);
	std::size_t ms = mark.find_first_not_of(' '); VCHECK(c, ms != string::npos && mark[ms] == '^' && mark.find_first_not_of('~', ms + 1) == string::npos, "C35.marker", "marker line malformed: " << ctx);
	std::size_t ml = mark.size() - ms;
	static const string ell = "[...]";
	bool leftCut = ms != C, rightOpen = C + (text.size() - ms) == T.size() && (text.size() < ms || true);
	std::size_t from = 0, to = text.size();
	if (leftCut) { VCHECK(c, ms < C && text.compare(0, 5, ell) == 0, "C35.marker", "marker at column " << ms << " but token at " << C << " of an unshortened line: " << ctx); from = 5; }
	bool whole = rightOpen; if (whole) for (std::size_t i = ms; i < text.size(); i++) if (text[i] != T[C + i - ms]) whole = false;
	if (!whole) { VCHECK(c, text.size() >= 5 && text.compare(text.size() - 5, 5, ell) == 0, "C35.text", "shown text is not the line: " << ctx); to = text.size() - 5; }
	VCHECK(c, ms >= from && ms < to, "C35.marker", "marker starts outside the visible text: " << ctx);
	for (std::size_t i = from; i < to; i++) VCHECK(c, C + i >= ms && C + i - ms < T.size() && text[i] == T[C + i - ms], "C35.text", "shown text differs from the line at column " << i << ": " << ctx);
	std::size_t end = ms + ml, wantEnd = ms + len;
	if (whole || wantEnd <= to) VCHECK(c, end == wantEnd, "C35.marker", "marker has length " << ml << " but the token " << len << ": " << ctx);
	else VCHECK(c, end >= to && end <= text.size() && end <= wantEnd, "C35.marker", "marker ends at " << end << " but the visible token at " << to << ": " << ctx);
	c.ev("diagnostics located"); if (leftCut) c.ev("left shortened"); if (!whole) c.ev("right shortened"); if (line > 1) c.ev("line > 1");
}
// is text an excerpt ("[...]" for left out parts) of s which starts at its start and contains position pos?
static bool excerpt(const string& text, const string& s, std::size_t pos) {
	static const string ell = "[...]";
	if (text == s) return true;
	vector<string> ps; std::size_t b = 0;
	for (std::size_t e; (e = text.find(ell, b)) != string::npos; b = e + ell.size()) ps.push_back(text.substr(b, e - b));
	bool open = b == text.size(); if (!open) ps.push_back(text.substr(b));
	if (ps.empty() || s.compare(0, ps[0].size(), ps[0]) != 0) return false;
	bool covered = pos >= s.size() || pos < ps[0].size(); std::size_t at = ps[0].size();
	for (std::size_t i = 1; i < ps.size(); i++) {
		bool last = i + 1 == ps.size() && !open, found = false; std::size_t n = ps[i].size();
		for (std::size_t o = at; o + n <= s.size() && !found; o++) if ((!last || o + n == s.size()) && s.compare(o, n, ps[i]) == 0 && (covered || i + 1 < ps.size() || (o <= pos && pos < o + n))) { found = true; at = o + n; if (o <= pos && pos < o + n) covered = true; }
		if (!found) return false;
	}
	return covered;
}
static void checkExcerpt(Ctx& c, const string& m, string want, string seen, bool cs) {
	if (!cs) for (char& x : seen) x = low(x);
	std::size_t pos = 0; while (pos < want.size() && pos < seen.size() && (cs ? want[pos] == seen[pos] : low(want[pos]) == low(seen[pos]))) pos++;
	static const string a = "Expected \"", b = "\" but got \"";
	string ctx = "message \"" + vh::esc(m, 500) + "\" for expected \"" + want + "\" and token \"" + seen + "\"";
	std::size_t k = m.find(b), e = m.find('\n'); if (m.compare(0, a.size(), a) != 0 || k == string::npos || m.find(b, k + 1) != string::npos) { c.ev("expectation message in another format"); return; }
	string head = m.substr(0, e), w = head.substr(a.size(), k - a.size()), rest = head.substr(k + b.size());
	std::size_t q = rest.find("\"!"); if (q == string::npos || rest.find("\"!", q + 1) != string::npos) { c.ev("expectation message in another format"); return; }
	string s = rest.substr(0, q);
	VCHECK(c, excerpt(w, want, pos), "C35.excerpt", "shown expected text is no excerpt with the difference at " << pos << ": " << ctx);
	VCHECK(c, excerpt(s, seen, pos), "C35.excerpt", "shown token is no excerpt with the difference at " << pos << ": " << ctx);
	std::size_t p = rest.find("different at position: ", q);
	if (p != string::npos) { VCHECK(c, std::strtoull(rest.c_str() + p + 23, nullptr, 10) == pos + 1, "C35.excerpt", "wrong position of the first difference: " << ctx); c.ev("positions of differences"); }
	c.ev("expectation excerpts");
}
GROUP(C35, messages, 60000, 3000000) {
	vh::Rng& r = c.r; bool strict = r.chance(1, 2); Cfg g; g.strict = strict; g.cs = r.chance(2, 3); g.dflt = false; g.at = g.rt = 1e-6L;
	string d; vector<Op> ops; int mx = r.pick({3, 10, 60}); bool longTok = r.chance(1, 3);
	int n = r.size(mx, 1500); Op t; t.k = STR; Op sp; sp.k = SPACE_; Op nl; nl.k = NL;
	auto tokc = [&](int len) { string s; for (int i = 0; i < len; i++) s += char(33 + r.below(94)); return s; };
	if (!strict) d += junkWs(r, true);
	for (int i = 0; i < n; i++) {
		d += tokc(1 + int(r.below(longTok && r.chance(1, 4) ? 120 : 8))); ops.push_back(t);
		bool line = r.chance(1, 6);
		if (strict) { d += line ? '\n' : ' '; ops.push_back(line ? nl : sp); }
		else { int k = 1 + int(r.below(3)); for (int j = 0; j < k; j++) d += line && j == 0 ? '\n' : r.pick({' ', '\t', ' ', '\r', ' ', ' '}); }
	}
	if (r.chance(1, 1500)) for (int left = int(r.pick({255, 256, 32766, 32768, 65535, 65536, 70000, 140000})); left > 0;) {   // many lines in front
		int k = std::min(left, 1 + int(r.below(30)));
		if (strict) { d += tokc(1); ops.push_back(t); d += '\n'; ops.push_back(nl); left--; }
		else { d += string(std::size_t(k), '\n'); left -= k; if (r.chance(1, 2)) { d += tokc(1) + " "; ops.push_back(t); } }
		if (left <= 0) c.ev("inputs with hundreds to 140000 lines");
	}
	vector<string> names; Op o; string tok; std::ostringstream fx; fx << std::fixed << std::setprecision(6);
	int L = longTok ? int(r.pick({1, 5, 59, 60, 61, 75, 79, 80, 81, 100, r.chance(1, 20) ? 5000 : 300})) : 1 + int(r.below(12));
	switch (r.below(9)) {
		case 0: o.k = INT; tok = "x" + tokc(L); break;
		case 1: o.k = INTB; { i64 v = r.wild(); tok = std::to_string(v); o.lo = v == INT64_MAX ? 0 : v + 1; o.hi = INT64_MAX; if (v == INT64_MAX) { o.lo = 0; o.hi = v; } names = {tok, std::to_string(o.lo), std::to_string(o.hi)}; } break;
		case 2: o.k = STRLEN; tok = tokc(L); o.lo = r.chance(1, 2) ? L + 1 : 0; o.hi = o.lo ? L + 5 : L; names = {std::to_string(L), std::to_string(o.lo), std::to_string(o.hi)}; break;
		case 3: o.k = XSTR; tok = tokc(L); o.s = tok; { std::size_t p = r.below(o.s.size()); o.s[p] = low(o.s[p]) == low('q') ? 'z' : 'q'; if (r.chance(1, 4)) { o.s = tok + "y"; } } if (L <= 20) { string x = tok; if (!g.cs) for (char& ch : x) ch = low(ch); names = {x}; } break;
		case 4: o.k = XINT; tok = std::to_string(r.in(-1000000, 1000000)); o.lo = std::stoll(tok) + (r.chance(1, 2) ? 1 : -1); names = {tok, std::to_string(o.lo)}; break;
		case 5: o.k = XREAL; tok = std::to_string(r.in(-1000, 1000)); o.x = std::stold(tok) + 5; names = {tok, std::to_string(i64(o.x))}; break;
		case 6: o.k = REALB; tok = std::to_string(r.in(10, 1000)) + ".25"; o.x = r.in(-99, 0); o.y = 9; fx << std::stold(tok); names = {fx.str().substr(0, fx.str().find('.') + 3), std::to_string(i64(o.x)), "9"}; break;
		case 7: o.k = RSTRICT; tok = std::to_string(r.in(10, 1000)) + ".25"; o.d1 = 9; o.x = 0; o.y = 5; fx << std::stold(tok); names = {fx.str().substr(0, fx.str().find('.') + 3)}; if (r.chance(1, 2)) { o.y = 1e9; o.d0 = 3; names.clear(); } break;
		default: o.k = STRPATLEN; tok = "$" + tokc(L); o.lo = 1; o.hi = 400; o.pat = 0; break;
	}
	ops.push_back(o); d += tok;
	switch (r.below(6)) { case 0: break; case 1: d += "\n"; break; case 2: d += strict ? " " : "\t"; break; default: d += r.pick<const char*>({" ", "\n"}); { int k = int(r.below(r.chance(1, 3) ? 40 : 4)); for (int i = 0; i < k; i++) d += tokc(1 + int(r.below(8))) + r.pick<const char*>({" ", " ", " ", "\n"}); } }
	int kind = src(r); Outcome res = play(c, "C35", d, ops, g, kind);
	VCHECK(c, res.rejected && res.tok, "C35.generator", "script was not rejected at a token (harness)");
	checkDiag(c, d, res, kind != 2, names);
	if (o.k == XSTR) checkExcerpt(c, res.msg, o.s, tok, g.cs);
	if (c.wantSample()) c.sample(vh::esc(res.msg));
}
#endif
VHV_MAIN
