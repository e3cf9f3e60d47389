// C33 (SVG files), C34 (colours) of visualizer_svg.h
#include "vh.h"
#include "visualizer_svg.h"
using namespace vh;
#define HAS_ALPHA 0
#include "color_common.h"

//---------------------------------------------------------------- a strict parser for the XML subset an SVG file may use
struct Bad { std::string what; };
struct Node { std::string name, text; std::vector<std::pair<std::string, std::string>> attr; std::vector<Node> kids; };   // name "#comment"/"#text"
struct Xml {
	const std::string& s; std::size_t p = 0;
	bool at(const char* t) const { return s.compare(p, std::strlen(t), t) == 0; }
	void eat(const char* t) { if (!at(t)) throw Bad{std::string("expected ") + t + " at " + std::to_string(p)}; p += std::strlen(t); }
	static bool ws(char ch) { return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r'; }
	bool spaces() { auto q = p; while (p < s.size() && ws(s[p])) p++; return p != q; }
	std::string name() { auto q = p; auto st = [](char ch) { return std::isalpha((unsigned char)ch) || ch == '_' || ch == ':'; }; while (p < s.size() && (st(s[p]) || (p > q && (std::isdigit((unsigned char)s[p]) || s[p] == '-' || s[p] == '.')))) p++; if (q == p) throw Bad{"name expected at " + std::to_string(p)}; return s.substr(q, p - q); }
	std::vector<std::pair<std::string, std::string>> attrs() {   // up to > or /> or ?>
		std::vector<std::pair<std::string, std::string>> r;
		for (;;) {
			bool sp = spaces(); if (p >= s.size()) throw Bad{"file ends in a tag"};
			if (s[p] == '>' || s[p] == '/' || s[p] == '?') return r;
			if (!sp) throw Bad{"white space missing between attributes"};
			std::string k = name(); eat("=\""); auto q = p; while (p < s.size() && s[p] != '"') { if (s[p] == '<' || s[p] == '&') throw Bad{"illegal character in attribute"}; p++; }
			std::string v = s.substr(q, p - q); eat("\"");
			for (auto& e : r) if (e.first == k) throw Bad{"attribute " + k + " given twice"};
			r.emplace_back(k, v);
		}
	}
	Node comment() { eat("<!--"); auto e = s.find("--", p); if (e == std::string::npos || s.compare(e, 3, "-->") != 0) throw Bad{"comment not closed properly"}; Node n; n.name = "#comment"; n.text = s.substr(p, e - p); p = e + 3; return n; }
	Node element() {
		eat("<"); Node n; n.name = name(); n.attr = attrs();
		if (at("/>")) { p += 2; return n; }
		eat(">");
		for (;;) {
			auto q = p; while (p < s.size() && s[p] != '<') { if (s[p] == '&') throw Bad{"bare &"}; p++; }
			std::string t = s.substr(q, p - q); if (t.find_first_not_of(" \t\r\n") != std::string::npos) { Node x; x.name = "#text"; x.text = t; n.kids.push_back(x); }
			if (p >= s.size()) throw Bad{"element " + n.name + " not closed"};
			if (at("</")) { p += 2; if (name() != n.name) throw Bad{"wrong closing tag"}; spaces(); eat(">"); return n; }
			n.kids.push_back(at("<!--") ? comment() : element());
		}
	}
	Node document() {
		for (unsigned char ch : s) if (ch < 32 && ch != '\n' && ch != '\t' && ch != '\r') throw Bad{"control character"};
		eat("<?xml"); auto a = attrs(); eat("?>");
		if (a.empty() || a[0].first != "version" || a[0].second != "1.0") throw Bad{"version of the XML declaration"};
		for (std::size_t i = 1; i < a.size(); i++) { if (a[i].first == "encoding") { std::string e = a[i].second; for (auto& ch : e) ch = char(std::toupper((unsigned char)ch)); if (e != "UTF-8") throw Bad{"encoding " + a[i].second}; } else if (a[i].first != "standalone") throw Bad{"XML declaration"}; }
		spaces(); while (at("<!--")) { comment(); spaces(); }
		Node n = element(); spaces(); if (p != s.size()) throw Bad{"content after the root element"}; return n;
	}
};
//---------------------------------------------------------------- model
struct Want { std::string name; std::vector<std::pair<std::string, std::string>> text; std::vector<std::pair<std::string, Real>> num; std::vector<std::pair<Real, Real>> pts; bool hasPts = false; };
struct Scene {
	std::vector<Want> w; Real x1 = 0, y1 = 0, x2 = 0, y2 = 0; bool any = false; std::string log;
	void inc(Real x, Real y) { x1 = std::min(x1, x); x2 = std::max(x2, x); y1 = std::min(y1, y); y2 = std::max(y2, y); }
};
inline bool near(Real got, Real want) { return std::fabs(got - want) <= 6e-6L * std::fabs(want) + 1e-300L; }   // six significant digits
inline bool number(const std::string& s, Real& v) { if (s.empty()) return false; char* e = nullptr; v = std::strtold(s.c_str(), &e); return *e == 0 && std::isfinite(v) && s.find_first_not_of("0123456789+-.e") == std::string::npos; }
inline std::string hex(const Color& q) { const char* d = "0123456789abcdef"; std::string r = "#"; for (int i = 0; i < 3; i++) { r += d[ch(q)[i] / 16]; r += d[ch(q)[i] % 16]; } return r; }
inline Real coord(Rng& r) {
	switch (r.below(7)) {
		case 0: return Real(r.in(-5, 5)); case 1: return Real(r.in(-1000, 1000)) / 8; case 2: return Real(r.unit() - 0.5) * 200; case 3: return Real(r.in(-999999, 999999));
		case 4: return std::ldexp(Real(r.unit() - 0.5), int(r.in(-30, 40))); case 5: return 0; default: return Real(r.in(-100, 100));
	}
}
inline Real len(Rng& r) { return std::fabs(coord(r)); }
inline void style(Rng& r, Shape& s, Want& w) {
	if (r.chance(2, 3)) {
		Color q = anyColor(r); bool sc = r.chance(1, 2); Real wd = len(r);
		if (sc && r.chance(1, 2)) s.stroke = Stroke(q, wd); else s.stroke = Stroke(q, wd, sc);
		w.text.emplace_back("stroke", hex(q)); w.num.emplace_back("stroke-width", wd);
		if (r.chance(1, 2)) { int k = int(r.below(3)); s.stroke->linecap = k == 0 ? Linecap::BUTT : k == 1 ? Linecap::ROUND : Linecap::SQUARE; w.text.emplace_back("stroke-linecap", k == 0 ? "butt" : k == 1 ? "round" : "square"); }
		if (r.chance(1, 2)) { int k = int(r.below(3)); s.stroke->linejoin = k == 0 ? Linejoin::ROUND : k == 1 ? Linejoin::BEVEL : Linejoin::MITER; w.text.emplace_back("stroke-linejoin", k == 0 ? "round" : k == 1 ? "bevel" : "miter"); }
		if (!sc) w.text.emplace_back("vector-effect", "non-scaling-stroke");
	} else w.text.emplace_back("stroke", "none");
	if (r.chance(2, 3)) { Color q = anyColor(r); if (r.chance(1, 2)) s.fill = Fill(q); else s.fill = q; w.text.emplace_back("fill", hex(q)); }
	else w.text.emplace_back("fill", "none");
}
inline void drawOne(Ctx& c, SVG& img, Scene& m) {
	Rng& r = c.r; Want w; Real a = coord(r), b = coord(r), d = len(r), e = len(r); std::ostringstream lg;
	auto put = [&](auto& shape) { style(r, shape, w); SVG* back = nullptr; if constexpr (true) back = &(img << shape); VCHECK(c, back == &img, "C33.stream", "operator<< returned another image"); };
	switch (r.below(9)) {
		case 0: {
			Rectangle q = r.chance(1, 4) ? Rectangle(a, b, d, e) : r.chance(1, 3) ? Rectangle(Point(a, b), Dimension(d, e)) : r.chance(1, 2) ? Rectangle(Point(a, b), d, e) : Rectangle(a, b, Dimension(d, e));
			w.name = "rect"; w.num = {{"x", a}, {"y", -(b + e)}, {"width", d}, {"height", e}}; put(q); m.inc(a, b); m.inc(a + d, b + e); break; }
		case 1: { Circle q = r.chance(1, 2) ? Circle(a, b, d) : Circle(Point(a, b), d); w.name = "circle"; w.num = {{"cx", a}, {"cy", -b}, {"r", d}}; put(q); m.inc(a - d, b - d); m.inc(a + d, b + d); break; }
		case 2: { Ellipse q = r.chance(1, 2) ? Ellipse(a, b, d, e) : Ellipse(Point(a, b), d, e); w.name = "ellipse"; w.num = {{"cx", a}, {"cy", -b}, {"rx", d}, {"ry", e}}; put(q); m.inc(a - d, b - e); m.inc(a + d, b + e); break; }
		case 3: { Real a2 = coord(r), b2 = coord(r); Line q = r.chance(1, 2) ? Line(a, b, a2, b2) : Line(Point(a, b), Point(a2, b2)); w.name = "line"; w.num = {{"x1", a}, {"y1", -b}, {"x2", a2}, {"y2", -b2}}; put(q); m.inc(a, b); m.inc(a2, b2); break; }
		case 4: case 5: {
			bool poly = r.chance(1, 2); w.name = poly ? "polygon" : "polyline"; w.hasPts = true; std::vector<Point> v; for (Integer i = r.size(8); i > 0; i--) { v.emplace_back(coord(r), coord(r)); w.pts.emplace_back(v.back().x, -v.back().y); m.inc(v.back().x, v.back().y); }
			if (poly) { Polygon q(v); put(q); } else { Polyline q(v); put(q); } break; }
		case 6: { Point q(a, b); img.includeInBB(q); m.inc(a, b); lg << " include " << double(a) << "," << double(b); break; }
		case 7: { std::string t; for (Integer i = r.size(12); i > 0; i--) t += r.pick<const char*>({"a", "Z", " ", "<", ">", "&", "\"", "'", "- ", "=", "/", "?", "]]>", "\n", "\xc3\xa4"}); img << Comment(t); w.name = "#comment"; w.text = {{"", t}}; break; }
		default: if (m.any) { img << "\n"; lg << " nl"; } break;
	}
	if (!w.name.empty()) { m.any = true; m.w.push_back(w); lg << " " << w.name; }
	m.log += lg.str();
}
static int g_kept = 0;
inline void expectFile(Ctx& c, const std::string& name, const Scene& m, const std::string& what) {
	std::string f; { std::ifstream is(name, std::ios::binary); if (!is) VFAIL(c, "C33.missing", what << ": no file written"); std::ostringstream os; os << is.rdbuf(); f = os.str(); }
	if (const char* d = std::getenv("VH_KEEP"); d && g_kept < 150) { std::ostringstream l; for (auto& w : m.w) l << w.name << " "; std::string base = std::string(d) + "/" + std::to_string(getpid()) + "-" + std::to_string(g_kept++); std::ofstream(base + ".svg", std::ios::binary) << f; std::ofstream(base + ".txt") << l.str(); }
	Node root; try { root = Xml{f}.document(); } catch (const Bad& b) { VFAIL(c, "C33.xml", what << ": " << b.what); }
	VCHECK(c, root.name == "svg", "C33.root", what << ": root element " << root.name);
	std::map<std::string, std::string> ra(root.attr.begin(), root.attr.end());
	VCHECK(c, ra["xmlns"] == "http://www.w3.org/2000/svg", "C33.root", what << ": namespace " << ra["xmlns"]);
	// view box
	std::istringstream vb(ra["viewBox"]); std::string t[4], rest; Real v[4]; for (auto& x : t) vb >> x; VCHECK(c, vb && !(vb >> rest), "C33.viewBox", what << ": view box " << ra["viewBox"]);
	Real want[4] = {m.x1, -m.y2, m.x2 - m.x1, m.y2 - m.y1};
	for (int i = 0; i < 4; i++) VCHECK(c, number(t[i], v[i]) && std::fabs(v[i] - want[i]) <= 6e-7L + 1e-15L * (std::fabs(m.x1) + std::fabs(m.x2) + std::fabs(m.y1) + std::fabs(m.y2)), "C33.viewBox", what << ": view box " << ra["viewBox"] << ", expected " << want[0] << " " << want[1] << " " << want[2] << " " << want[3]);
	VCHECK(c, root.kids.size() == m.w.size(), "C33.elements", what << ": " << root.kids.size() << " elements instead of " << m.w.size());
	for (std::size_t i = 0; i < m.w.size(); i++) {
		const Node& n = root.kids[i]; const Want& w = m.w[i]; std::string at = what + ": element " + std::to_string(i) + " (" + w.name + ")";
		VCHECK(c, n.name == w.name, "C33.elements", at << " is " << n.name); c.ev("elements compared");
		if (w.name == "#comment") { VCHECK(c, n.text == " " + w.text[0].second + " ", "C33.comment", at << " reads " << n.text); continue; }
		VCHECK(c, n.kids.empty(), "C33.elements", at << " has children");
		VCHECK(c, n.attr.size() == w.num.size() + w.text.size() + w.hasPts, "C33.attributes", at << " has " << n.attr.size() << " attributes");
		std::map<std::string, std::string> a(n.attr.begin(), n.attr.end());
		for (auto& [k, e] : w.text) VCHECK(c, a.count(k) && a[k] == e, "C33.style", at << ": " << k << " is '" << a[k] << "' instead of '" << e << "'");
		for (auto& [k, e] : w.num) { Real g = 0; VCHECK(c, a.count(k) && number(a[k], g) && near(g, e), "C33.coordinates", at << ": " << k << " is '" << a[k] << "' instead of " << e); c.ev("numbers compared"); }
		if (w.hasPts) {
			VCHECK(c, a.count("points"), "C33.coordinates", at << ": no points"); std::string p = a["points"]; for (auto& q : p) if (q == ',') q = ' '; std::istringstream is(p); std::string x, y;
			for (auto& [px, py] : w.pts) { Real gx = 0, gy = 0; is >> x >> y; VCHECK(c, is && number(x, gx) && number(y, gy) && near(gx, px) && near(gy, py), "C33.coordinates", at << ": point '" << x << "," << y << "' instead of " << px << "," << py); c.ev("numbers compared", 2); }
			VCHECK(c, !(is >> x), "C33.coordinates", at << ": too many points");
		}
	}
	c.ev("files parsed");
}
struct TempName { std::string n; TempName() { static int k = 0; n = "img" + std::to_string(getpid()) + "_" + std::to_string(k++) + ".svg"; std::remove(n.c_str()); } ~TempName() { std::remove(n.c_str()); } };
inline bool exists(const std::string& n) { return bool(std::ifstream(n)); }
GROUP(C33, scenes, 5000, 300000) {
	TempName t; Scene m; int way = int(c.r.below(7)), n = int(c.r.size(14, 400)); std::string what;
	auto paint = [&](SVG& img) { for (int i = 0; i < n; i++) { c.note(m.log); drawOne(c, img, m); } what = "way " + std::to_string(way) + ":" + m.log; c.fp(what); c.note(what); };
	switch (way) {
		case 0: { SVG img(t.n); paint(img); VCHECK(c, !exists(t.n), "C33.early", what << ": file exists before write"); break; }
		case 1: { SVG img(t.n); paint(img); img.write(); if (m.any) { expectFile(c, t.n, m, what); std::remove(t.n.c_str()); } break; }
		case 2: { SVG img; img = SVG(t.n); VCHECK(c, !exists(t.n), "C33.early", "file written for an empty temporary"); paint(img); break; }
		case 3: { SVG img(t.n); paint(img); img.write(); if (m.any) expectFile(c, t.n, m, what); paint(img); img.write(); if (m.any) expectFile(c, t.n, m, what); break; }   // more is drawn after a write
		case 4: { { SVG none; Scene o; std::swap(m, o); paint(none); none.write(); std::swap(m, o); } VCHECK(c, !exists(t.n), "C33.unnamed", what << ": unnamed image wrote a file"); SVG img(t.n); paint(img); break; }
		case 5: {   // the drawing is handed over by assignment, which discards what the target contained
			SVG img(t.n); paint(img); { SVG b; if (c.r.chance(1, 2)) b = SVG(t.n); if (c.r.chance(1, 2)) { Scene o; int k = 1 + int(c.r.below(3)); while (k--) drawOne(c, b, o); } b = std::move(img); VCHECK(c, !exists(t.n), "C33.early", what << ": assignment wrote the file"); paint(b); } c.ev("drawings moved");
			break;
		}
		default: {
			std::string base = t.n.substr(0, t.n.size() - 4), a0 = "prog"; char* argv[] = {a0.data(), base.data(), nullptr};
			{ std::ofstream(base + ".in") << "17 4\n"; std::ofstream(base + ".ans") << "3\n"; }
			Visualizer::image = SVG(); Visualizer::testIn = std::ifstream(); Visualizer::testAns = std::ifstream();
			Visualizer::init(2, argv); paint(Visualizer::image); Visualizer::image.write();
			int x = 0, y = 0, z = 0; Visualizer::testIn >> x >> y; Visualizer::testAns >> z;
			VCHECK(c, x == 17 && y == 4 && z == 3, "C33.init", "test files not opened");
			Visualizer::image = SVG(); std::remove((base + ".in").c_str()); std::remove((base + ".ans").c_str());
		}
	}
	if (c.wantSample()) c.sample(what);
	if (!m.any) VCHECK(c, !exists(t.n), "C33.empty", what << ": file written without content");
	else expectFile(c, t.n, m, what);
}
GROUP(C33, chained, 20, 200) {   // known finding: after a manipulator the rest of the chain is drawn through std::ostream&
	TempName t; SVG img(t.n); Real a = coord(c.r), b = coord(c.r); Scene m; c.fp(c.idx); c.ev("chains");
	std::ostream& rest = (img << Circle(0, 0, 1) << std::endl << Circle(a, b, 1)); (void)rest;
	m.inc(-1, -1); m.inc(1, 1); m.inc(a - 1, b - 1); m.inc(a + 1, b + 1);
	bool ok = img.origin.x == m.x1 && img.origin.y == m.y1 && near(img.dimension.width, m.x2 - m.x1) && near(img.dimension.height, m.y2 - m.y1);
	if (!ok) { std::ostringstream os; os << "image << circle << std::endl << Circle(" << a << "," << b << ",1): view box does not contain the second circle"; c.report("C33.viewBox.chained", os.str()); }
}
//---------------------------------------------------------------- C34 (printing)
GROUP(C34, print, 256, 256) {
	for (int i = 0; i < 256; i++) {
		Ch v{int(c.idx), i, int(c.r.below(256)), 0}; if (i & 1) std::swap(v[0], v[2]); Color q = mk(v); c.note(str(q)); c.fp(u64(v[0]) << 16 | u64(v[1]) << 8 | u64(v[2]));
		std::ostringstream os; std::ios_base::fmtflags fl = os.flags(); if (c.r.chance(1, 3)) { os << std::uppercase << std::showbase; fl = os.flags(); os << std::nouppercase << std::noshowbase; fl = os.flags(); } if (c.r.chance(1, 4)) { os << std::oct; fl = os.flags(); }
		os << q; VCHECK(c, os.str() == hex(q), "C34.print", str(q) << " printed as " << os.str()); VCHECK(c, os.flags() == fl, "C34.print", "printing changed the stream's flags");
		Color back(std::uint32_t(std::stoul(os.str().substr(1), nullptr, 16))); VCHECK(c, back == q, "C34.print", str(q) << " reads back as " << str(back));
		VCHECK(c, Color(std::uint8_t(i)) == Color(std::uint8_t(i), std::uint8_t(i), std::uint8_t(i)), "C34.gray", "gray " << i);
		c.ev("colours printed");
	}
}
int main(int argc, char** argv) { return vh::run(argc, argv); }
