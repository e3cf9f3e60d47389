// C31 (PNG files), C32 (drawing), C34 (colours) of visualizer_png.h
#include "vh.h"
#include "visualizer_png.h"
using namespace vh;
#define HAS_ALPHA 1
#include "color_common.h"

//---------------------------------------------------------------- independent PNG decoder
struct Bad { std::string what; };
inline std::uint32_t crcOf(const unsigned char* p, std::size_t n) {
	static std::uint32_t t[256]; if (!t[1]) for (std::uint32_t i = 0; i < 256; i++) { std::uint32_t x = i; for (int k = 0; k < 8; k++) x = x & 1 ? 0xEDB88320u ^ (x >> 1) : x >> 1; t[i] = x; }
	std::uint32_t c = 0xFFFFFFFFu; while (n--) c = t[(c ^ *p++) & 255] ^ (c >> 8); return ~c;
}
struct Inflate {   // RFC 1951
	const std::string& s; std::size_t pos, end; unsigned bits = 0, nb = 0; std::string out;
	unsigned bit() { if (!nb) { if (pos >= end) throw Bad{"deflate stream truncated"}; bits = (unsigned char)s[pos++]; nb = 8; } unsigned r = bits & 1; bits >>= 1; nb--; return r; }
	unsigned get(int n) { unsigned r = 0; for (int i = 0; i < n; i++) r |= bit() << i; return r; }
	struct Huff { int cnt[16]{}; std::vector<int> sym; void build(const std::vector<int>& len) { std::fill(cnt, cnt + 16, 0); for (int l : len) cnt[l]++; cnt[0] = 0; int off[17]{}; for (int i = 1; i < 16; i++) off[i + 1] = off[i] + cnt[i]; sym.assign(len.size(), 0); for (std::size_t i = 0; i < len.size(); i++) if (len[i]) sym[off[len[i]]++] = int(i); } };
	int decode(const Huff& h) { int code = 0, first = 0, idx = 0; for (int l = 1; l < 16; l++) { code |= int(bit()); int n = h.cnt[l]; if (code - n < first) return h.sym[idx + code - first]; idx += n; first = (first + n) << 1; code <<= 1; } throw Bad{"bad Huffman code"}; }
	void run() {
		static const int LB[] = {3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258}, LE[] = {0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0};
		static const int DB[] = {1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577}, DE[] = {0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13};
		for (bool last = false; !last;) {
			last = get(1); unsigned type = get(2);
			if (type == 0) {
				nb = 0; if (pos + 4 > end) throw Bad{"stored block truncated"};
				unsigned len = (unsigned char)s[pos] | (unsigned char)s[pos + 1] << 8, inv = (unsigned char)s[pos + 2] | (unsigned char)s[pos + 3] << 8; pos += 4;
				if ((len ^ inv) != 0xFFFF) throw Bad{"stored block length check"};
				if (pos + len > end) throw Bad{"stored block truncated"};
				out.append(s, pos, len); pos += len;
			} else if (type == 3) throw Bad{"reserved block type"};
			else {
				Huff L, D;
				if (type == 1) { std::vector<int> l(288); for (int i = 0; i < 288; i++) l[i] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8; L.build(l); D.build(std::vector<int>(30, 5)); }
				else {
					int nl = int(get(5)) + 257, nd = int(get(5)) + 1, nc = int(get(4)) + 4; static const int ord[] = {16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15};
					std::vector<int> l(19); for (int i = 0; i < nc; i++) l[ord[i]] = int(get(3)); Huff C; C.build(l); l.assign(nl + nd, 0);
					for (int i = 0; i < nl + nd;) { int y = decode(C), rep = 1, v = y; if (y == 16) { if (!i) throw Bad{"repeat"}; v = l[i - 1]; rep = 3 + int(get(2)); } else if (y == 17) { v = 0; rep = 3 + int(get(3)); } else if (y == 18) { v = 0; rep = 11 + int(get(7)); } if (i + rep > nl + nd) throw Bad{"code lengths"}; while (rep--) l[i++] = v; }
					L.build({l.begin(), l.begin() + nl}); D.build({l.begin() + nl, l.end()});
				}
				for (;;) { int y = decode(L); if (y < 256) out += char(y); else if (y == 256) break; else { y -= 257; if (y >= 29) throw Bad{"length symbol"}; int len = LB[y] + int(get(LE[y])); int d = decode(D); if (d >= 30) throw Bad{"distance symbol"}; std::size_t dist = std::size_t(DB[d] + int(get(DE[d]))); if (dist > out.size()) throw Bad{"distance"}; while (len--) out += out[out.size() - dist]; } }
			}
		}
	}
};
struct Img { std::uint32_t w = 0, h = 0; std::vector<std::array<unsigned char, 4>> px; };   // rows top to bottom
inline Img decodePng(const std::string& f) {
	auto u32 = [&](std::size_t p) { return std::uint32_t((unsigned char)f[p]) << 24 | std::uint32_t((unsigned char)f[p + 1]) << 16 | std::uint32_t((unsigned char)f[p + 2]) << 8 | (unsigned char)f[p + 3]; };
	if (f.compare(0, 8, "\x89PNG\r\n\x1a\n", 8) != 0) throw Bad{"signature"};
	std::size_t p = 8; std::string z; Img im; bool first = true, end = false, inData = false, dataDone = false;
	while (p < f.size()) {
		if (end) throw Bad{"bytes after IEND"};
		if (p + 12 > f.size()) throw Bad{"chunk truncated"};
		std::uint32_t len = u32(p); std::string type = f.substr(p + 4, 4);
		if (len > 0x7FFFFFFFu || p + 12 + len > f.size()) throw Bad{"chunk " + type + " length"};
		if (crcOf(reinterpret_cast<const unsigned char*>(f.data()) + p + 4, len + 4) != u32(p + 8 + len)) throw Bad{"CRC of " + type};
		if (first != (type == "IHDR")) throw Bad{"IHDR must come first and once"};
		if (type == "IHDR") {
			if (len != 13) throw Bad{"IHDR length"};
			im.w = u32(p + 8); im.h = u32(p + 12);
			if (f.substr(p + 16, 5) != std::string("\x08\x06\0\0\0", 5)) throw Bad{"not 8 bit RGBA without interlace"};
			if (!im.w || !im.h || im.w > 0x7FFFFFFFu || im.h > 0x7FFFFFFFu) throw Bad{"dimensions"};
		} else if (type == "IDAT") { if (dataDone) throw Bad{"IDAT chunks not consecutive"}; inData = true; z += f.substr(p + 8, len); }
		else if (type == "IEND") { if (len) throw Bad{"IEND length"}; end = true; }
		else if (!(type[0] & 0x20)) throw Bad{"unknown critical chunk " + type};
		if (inData && type != "IDAT") dataDone = true;
		first = false; p += 12 + len;
	}
	if (!end) throw Bad{"no IEND"};
	if (z.size() < 6) throw Bad{"zlib stream truncated"};
	unsigned cmf = (unsigned char)z[0], flg = (unsigned char)z[1];
	if ((cmf & 15) != 8 || (cmf >> 4) > 7 || (cmf * 256 + flg) % 31 || (flg & 0x20)) throw Bad{"zlib header"};
	Inflate inf{z, 2, z.size() - 4}; inf.run();
	if (inf.pos != z.size() - 4) throw Bad{"bytes between deflate stream and checksum"};
	u64 a = 1, b = 0; for (unsigned char x : inf.out) { a = (a + x) % 65521; b = (b + a) % 65521; }
	std::uint32_t ad = 0; for (int i = 0; i < 4; i++) ad = ad << 8 | (unsigned char)z[z.size() - 4 + i];
	if (ad != (b << 16 | a)) throw Bad{"Adler-32"};
	std::size_t row = 4 * std::size_t(im.w) + 1; if (inf.out.size() != row * im.h) throw Bad{"amount of pixel data"};
	std::vector<unsigned char> prev(row - 1), cur(row - 1);
	for (std::uint32_t y = 0; y < im.h; y++) {
		unsigned ft = (unsigned char)inf.out[y * row]; if (ft > 4) throw Bad{"filter type"};
		for (std::size_t i = 0; i + 1 < row; i++) {
			int x = (unsigned char)inf.out[y * row + 1 + i], l = i >= 4 ? cur[i - 4] : 0, u = prev[i], ul = i >= 4 ? prev[i - 4] : 0, pr = 0;
			if (ft == 1) pr = l; else if (ft == 2) pr = u; else if (ft == 3) pr = (l + u) / 2; else if (ft == 4) { int q = l + u - ul, pa = std::abs(q - l), pb = std::abs(q - u), pc = std::abs(q - ul); pr = pa <= pb && pa <= pc ? l : pb <= pc ? u : ul; }
			cur[i] = (unsigned char)(x + pr);
		}
		for (std::size_t x = 0; x < im.w; x++) im.px.push_back({cur[4 * x], cur[4 * x + 1], cur[4 * x + 2], cur[4 * x + 3]});
		prev = cur;
	}
	return im;
}

using Pix = std::vector<std::vector<Color>>;   // [y][x], y = 0 at the bottom
inline std::optional<std::string> slurp(const std::string& n) { std::ifstream is(n, std::ios::binary); if (!is) return {}; std::ostringstream os; os << is.rdbuf(); return os.str(); }
static int g_kept = 0;
inline void keep(const std::string& file, const Pix& px) {   // for the second decoder
	const char* d = std::getenv("VH_KEEP"); if (!d || g_kept >= 40 || px.size() * (px.empty() ? 0 : px[0].size()) > 40000) return;
	std::string base = std::string(d) + "/" + std::to_string(getpid()) + "-" + std::to_string(g_kept++);
	{ std::ifstream is(file, std::ios::binary); std::ofstream(base + ".png", std::ios::binary) << is.rdbuf(); }
	std::ofstream os(base + ".raw", std::ios::binary); os << px[0].size() << " " << px.size() << "\n";
	for (std::size_t y = px.size(); y--;) for (auto& q : px[y]) { char b[4] = {char(q.r), char(q.g), char(q.b), char(q.a)}; os.write(b, 4); }
}
inline void expectFile(Ctx& c, const std::string& name, const Pix& px, const std::string& what) {
	auto f = slurp(name); VCHECK(c, f.has_value(), "C31.missing", what << ": no file written");
	keep(name, px);
	try {
		Img im = decodePng(*f);
		VCHECK(c, im.h == px.size() && im.w == px[0].size(), "C31.size", what << ": decodes to " << im.w << " x " << im.h);
		for (std::size_t y = 0; y < px.size(); y++) for (std::size_t x = 0; x < px[0].size(); x++) {
			auto& g = im.px[(im.h - 1 - y) * std::size_t(im.w) + x]; const Color& e = px[y][x];
			VCHECK(c, g[0] == e.r && g[1] == e.g && g[2] == e.b && g[3] == e.a, "C31.pixel", what << ": pixel (" << x << "," << y << ") decodes to (" << int(g[0]) << "," << int(g[1]) << "," << int(g[2]) << "," << int(g[3]) << ") instead of " << str(e));
		}
		c.ev("files decoded"); c.ev("pixels compared", px.size() * px[0].size());
	} catch (const Bad& b) { VFAIL(c, "C31.format", what << ": " << b.what); }
}
inline Pix randomPix(Ctx& c, Integer w, Integer h) {
	Pix px(h, std::vector<Color>(w)); int k = int(c.r.below(6)); Color f = anyColor(c.r);
	for (Integer y = 0; y < h; y++) for (Integer x = 0; x < w; x++) px[y][x] = k == 0 ? f : k == 1 ? WHITE : k == 2 ? TRANSPARENT : k == 3 ? Color(std::uint8_t(x), std::uint8_t(y), std::uint8_t(x + y), std::uint8_t(255 - x)) : anyColor(c.r);
	return px;
}
inline void fill(PNG& p, const Pix& px, Color base = TRANSPARENT) {
	p.clear(px.empty() ? 0 : Integer(px[0].size()), Integer(px.size()), base);
	for (std::size_t y = 0; y < px.size(); y++) for (std::size_t x = 0; x < px[y].size(); x++) p(Integer(x), Integer(y)) = px[y][x];
}
struct TempName { std::string n; TempName() { static int k = 0; n = "img" + std::to_string(getpid()) + "_" + std::to_string(k++) + ".png"; std::remove(n.c_str()); } ~TempName() { std::remove(n.c_str()); } };

inline void fileCase(Ctx& c, Integer w, Integer h) {
	TempName t; Pix px = randomPix(c, w, h); int way = int(c.r.below(9));
	std::string what = std::to_string(w) + "x" + std::to_string(h) + " way " + std::to_string(way); c.note(what); c.fp(what); c.fp(c.idx); if (c.wantSample()) c.sample(what);
	bool empty = w == 0 || h == 0;
	switch (way) {
		case 0: { PNG p(t.n); fill(p, px); VCHECK(c, !slurp(t.n), "C31.early", what << ": file exists before destruction"); break; }
		case 1: { PNG p(t.n); fill(p, px); p.write(); if (!empty) { expectFile(c, t.n, px, what); std::remove(t.n.c_str()); p.write(); } break; }
		case 2: { PNG q(t.n); fill(q, px); PNG p(std::move(q)); break; }   // moved
		case 3: { PNG p; p = PNG(t.n); VCHECK(c, !slurp(t.n), "C31.early", what << ": file written for an empty temporary"); fill(p, px); break; }   // like Visualizer::init
		case 4: { PNG p(t.n); fill(p, px); PNG q(p); q.write(); if (!empty) { expectFile(c, t.n, px, what); } break; }   // copy
		case 5: {   // rewritten with fewer pixels: nothing of the old file may remain
			{ PNG p(t.n); fill(p, randomPix(c, std::min<Integer>(w + 5, 16383), h + 5)); }
			if (empty) std::remove(t.n.c_str());
			PNG p(t.n); fill(p, px); break;
		}
		case 6: {   // no file name: writes nothing anywhere
			{ PNG p; fill(p, px); p.write(); }
			VCHECK(c, !slurp(t.n), "C31.unnamed", what << ": unnamed image wrote a file");
			PNG p(t.n); fill(p, px); break;
		}
		case 7: { PNG p(t.n); p.clear(3, 3, RED); fill(p, px, BLUE); const PNG& cp = p; VCHECK(c, cp.width() == (h ? w : 0) && cp.height() == h, "C31.dims", what << ": width/height " << cp.width() << "x" << cp.height()); for (Integer y = 0; y < h; y++) for (Integer x = 0; x < w; x++) VCHECK(c, cp(x, y) == px[y][x], "C31.read", what << ": reading (" << x << "," << y << ")"); break; }
		default: {   // through the global image
			std::string base = t.n.substr(0, t.n.size() - 4); std::string a0 = "prog"; char* argv[] = {a0.data(), base.data(), nullptr};
			{ std::ofstream(base + ".in") << "17 4\n"; std::ofstream(base + ".ans") << "3\n"; }
			Visualizer::image = PNG(); Visualizer::testIn = std::ifstream(); Visualizer::testAns = std::ifstream();
			Visualizer::init(2, argv); fill(Visualizer::image, px); Visualizer::image.write();
			int x = 0, y = 0, z = 0; Visualizer::testIn >> x >> y; Visualizer::testAns >> z;
			VCHECK(c, x == 17 && y == 4 && z == 3, "C31.init", "test files not opened");
			Visualizer::image = PNG(); std::remove((base + ".in").c_str()); std::remove((base + ".ans").c_str());
		}
	}
	if (empty) VCHECK(c, !slurp(t.n), "C31.empty", what << ": file written for an image without pixels");
	else expectFile(c, t.n, px, what);
}
GROUP(C31, small, 1500, 80000) { fileCase(c, c.r.size(20), c.r.size(20)); }
GROUP(C31, wide, 16, 400) { Integer w = c.r.pick<Integer>({16383, 16382, 8192, 63, 64, 4095, 16383}); if (c.r.chance(1, 2)) fileCase(c, w, 1 + Integer(c.r.below(2))); else fileCase(c, 1 + Integer(c.r.below(3)), 2000 + Integer(c.r.below(3000))); }
GROUP(C31, huge, 3, 9) { if (c.idx % 3 == 0) fileCase(c, 1 + Integer(c.r.below(3)), 65530 + Integer(c.r.below(20))); else if (c.idx % 3 == 1) fileCase(c, 1, 65536 * (1 + Integer(c.r.below(2))) + 1 + Integer(c.r.below(9))); else fileCase(c, 16383, 256 + Integer(c.r.below(8))); }   // more than 2^16 rows, more than 2^24 bytes
GROUP(C31, large, 6, 120) { fileCase(c, 100 + Integer(c.r.below(150)), 100 + Integer(c.r.below(150))); }

//---------------------------------------------------------------- C32
template<BlendMode M> Color mixed(const Color& lower, const Color& upper) {
	if (M == ASSIGN) return upper;
	if (M == BLEND) return blend(lower, upper);
	if (M == ADD) return lower + upper;
	return lower - upper;
}
struct Canvas {
	PNG img; Pix m; std::string log;
	void check(Ctx& c, const char* key) {
		const PNG& ci = img;
		VCHECK(c, ci.width() == (m.empty() ? 0 : Integer(m[0].size())) && ci.height() == Integer(m.size()), "C32.dims", log << ": " << ci.width() << "x" << ci.height());
		for (std::size_t y = 0; y < m.size(); y++) for (std::size_t x = 0; x < m[0].size(); x++) VCHECK(c, ci(Integer(x), Integer(y)) == m[y][x], key, log << ": pixel (" << x << "," << y << ") is " << str(ci(Integer(x), Integer(y))) << ", expected " << str(m[y][x]));
		c.ev("images compared");
	}
};
inline std::vector<Point> linePath(Ctx& c, Integer w, Integer h, Point a, Point b) {   // pixels touched, each exactly once, verified
	PNG p; p.clear(w, h, TRANSPARENT); p.drawLine<ADD>(a, b, Color(1_c, 2_c, 3_c, 4_c));
	std::vector<Point> t; std::ostringstream ws; ws << "line (" << a.x << "," << a.y << ")-(" << b.x << "," << b.y << ") in " << w << "x" << h; std::string what = ws.str();
	for (Integer y = 0; y < h; y++) for (Integer x = 0; x < w; x++) { Color q = p(x, y); if (q == TRANSPARENT) continue; VCHECK(c, q == Color(1_c, 2_c, 3_c, 4_c), "C32.line.once", what << ": pixel (" << x << "," << y << ") combined more than once"); t.emplace_back(x, y); }
	Integer dx = std::llabs(a.x - b.x), dy = std::llabs(a.y - b.y), len = std::max(dx, dy);
	VCHECK(c, Integer(t.size()) == len + 1, "C32.line.count", what << " has " << t.size() << " pixels");
	bool steep = dy > dx;
	auto mj = [&](const Point& q) { return steep ? q.y : q.x; }; auto mn = [&](const Point& q) { return steep ? q.x : q.y; };
	std::sort(t.begin(), t.end(), [&](const Point& p, const Point& q) { return mj(p) < mj(q); });
	for (std::size_t i = 0; i < t.size(); i++) {
		VCHECK(c, mj(t[i]) == std::min(mj(a), mj(b)) + Integer(i), "C32.line.path", what << ": two pixels share a step");
		if (i) VCHECK(c, std::llabs(mn(t[i]) - mn(t[i - 1])) <= 1, "C32.line.path", what << ": not 8-connected");
		// |ideal - actual| <= 1/2, multiplied by 2*len
		if (len) { Integer num = (mj(t[i]) - mj(a)) * (mn(b) - mn(a)) * (mj(b) > mj(a) ? 1 : -1) - (mn(t[i]) - mn(a)) * len; VCHECK(c, 2 * std::llabs(num) <= len, "C32.line.distance", what << ": pixel (" << t[i].x << "," << t[i].y << ") is more than half a pixel away"); }
	}
	bool ea = false, eb = false; for (auto& q : t) { ea |= q == a; eb |= q == b; }
	VCHECK(c, ea && eb, "C32.line.ends", what << ": endpoint missing");
	return t;
}
template<BlendMode M> void drawOp(Ctx& c, Canvas& v, int kind, bool plain) {
	Integer h = Integer(v.m.size()), w = Integer(v.m[0].size());
	auto pt = [&] { return Point(Integer(c.r.below(w)), Integer(c.r.below(h))); };
	Point a = pt(), b = c.r.chance(1, 8) ? a : pt(); if (c.r.chance(1, 6)) b.x = a.x; if (c.r.chance(1, 6)) b.y = a.y; if (c.r.chance(1, 10)) { a = {0, 0}; b = {w - 1, h - 1}; }
	Color f = anyColor(c.r), g = anyColor(c.r); if (c.r.chance(1, 4)) f = v.m[c.r.below(h)][c.r.below(w)];
	// the colour may be a pixel of the image itself: its value at the time of the call counts
	bool self = c.r.chance(1, 6), selfBorder = c.r.chance(1, 6); Point sp = pt(), bp = pt(); if (c.r.chance(1, 3)) sp = a; if (c.r.chance(1, 3)) bp = a;
	if (self) f = v.m[sp.y][sp.x]; if (selfBorder) g = v.m[bp.y][bp.x];
	const Color& ff = self ? v.img(sp.x, sp.y) : f; const Color& gg = selfBorder ? v.img(bp.x, bp.y) : g; if (self) c.ev("colours taken from the image");
	std::ostringstream os; os << " mode" << int(M) << (self ? " own pixel" : "") << (kind == 0 ? " rect " : kind == 1 ? " rectBorder " : kind == 2 ? " flood " : " line ") << a.x << "," << a.y << " " << b.x << "," << b.y << " " << str(f) << (kind == 1 ? str(g) : ""); v.log += os.str(); c.fp(os.str()); c.note(v.log);
	auto touch = [&](Integer x, Integer y, const Color& q) { v.m[y][x] = mixed<M>(v.m[y][x], q); c.ev("pixels drawn"); };
	if (kind <= 1) {
		if (kind == 0) { if (plain) v.img.fillRectangle(a, b, ff); else v.img.fillRectangle<M>(a, b, ff); }
		else { if (plain) v.img.fillRectangle(a, b, gg, ff); else v.img.fillRectangle<M>(a, b, gg, ff); }
		Integer x1 = std::min(a.x, b.x), x2 = std::max(a.x, b.x), y1 = std::min(a.y, b.y), y2 = std::max(a.y, b.y);
		for (Integer y = y1; y <= y2; y++) for (Integer x = x1; x <= x2; x++) touch(x, y, kind == 1 && (x == x1 || x == x2 || y == y1 || y == y2) ? g : f);
		v.check(c, "C32.rectangle");
	} else if (kind == 2) {
		if (plain) v.img.floodFill(a, ff); else v.img.floodFill<M>(a, ff);
		Color old = v.m[a.y][a.x]; std::vector<std::vector<char>> in(h, std::vector<char>(w)); std::vector<Point> q{a}; in[a.y][a.x] = 1;
		for (std::size_t i = 0; i < q.size(); i++) { Point p = q[i]; auto go = [&](Integer x, Integer y) { if (x < 0 || y < 0 || x >= w || y >= h || in[y][x] || v.m[y][x] != old) return; in[y][x] = 1; q.emplace_back(x, y); }; go(p.x + 1, p.y); go(p.x - 1, p.y); go(p.x, p.y + 1); go(p.x, p.y - 1); }
		for (auto& p : q) touch(p.x, p.y, f);
		v.check(c, "C32.flood");
	} else {
		auto path = linePath(c, w, h, a, b);
		if (plain) v.img.drawLine(a, b, ff); else v.img.drawLine<M>(a, b, ff);
		for (auto& p : path) touch(p.x, p.y, f);
		v.check(c, "C32.line");
	}
}
inline void session(Ctx& c, Integer mx, int ops) {
	Canvas v; Integer w = 1 + c.r.size(int(mx)), h = 1 + c.r.size(int(mx)); Color base = anyColor(c.r);
	v.img.clear(w, h, base); v.m.assign(h, std::vector<Color>(w, base)); v.log = std::to_string(w) + "x" + std::to_string(h) + " " + str(base); v.check(c, "C32.clear");
	std::vector<Color> pal; for (int i = 0; i < 3; i++) pal.push_back(anyColor(c.r));
	if (c.r.chance(1, 2)) { for (Integer y = 0; y < h; y++) for (Integer x = 0; x < w; x++) if (c.r.chance(1, 2)) { v.m[y][x] = pal[c.r.below(3)]; v.img(x, y) = v.m[y][x]; } v.log += " noise"; }
	for (int o = 0; o < ops; o++) {
		int k = int(c.r.below(16)), kind = int(c.r.below(4));
		if (k < 4) drawOp<ASSIGN>(c, v, kind, c.r.chance(1, 2)); else if (k < 7) drawOp<BLEND>(c, v, kind, false); else if (k < 10) drawOp<ADD>(c, v, kind, false); else if (k < 13) drawOp<SUBTRACT>(c, v, kind, false);
		else if (k == 13) { Integer x = c.r.below(w), y = c.r.below(h); v.m[y][x] = anyColor(c.r); v.img(x, y) = v.m[y][x]; v.log += " set"; v.check(c, "C32.set"); }
		else if (k == 14) { PNG cp = v.img; cp.fillRectangle({0, 0}, {w - 1, h - 1}, RED); v.log += " copy"; v.check(c, "C32.copy"); }   // copies are independent
		else if (c.r.chance(1, 3)) { w = 1 + c.r.size(int(mx)); h = 1 + c.r.size(int(mx)); bool d = c.r.chance(1, 2); Color q = d ? TRANSPARENT : anyColor(c.r); if (d) v.img.clear(w, h); else v.img.clear(w, h, q); v.m.assign(h, std::vector<Color>(w, q)); v.log += " clear"; v.check(c, "C32.clear"); }
	}
	if (c.wantSample()) c.sample(v.log);
}
GROUP(C32, small, 2500, 200000) { session(c, 8, 1 + int(c.r.below(10))); }
GROUP(C32, medium, 60, 4000) { session(c, 60, 1 + int(c.r.below(8))); }
GROUP(C32, lines, 81, 289) {   // all lines in a 9x9 (17x17) image
	Integer n = c.thorough() ? 17 : 9; Point a(Integer(c.idx) % n, Integer(c.idx) / n % n); c.fp(c.idx);
	for (Integer y = 0; y < n; y++) for (Integer x = 0; x < n; x++) { linePath(c, n, n, a, {x, y}); c.ev("lines"); }
}
GROUP(C32, longLines, 100, 8000) {
	Integer w = 1 + c.r.below(c.r.chance(1, 2) ? 2000 : 12), h = 1 + c.r.below(c.r.chance(1, 2) ? 300 : 12); Point a(c.r.below(w), c.r.below(h)), b(c.r.below(w), c.r.below(h)); if (c.r.chance(1, 2)) { a = {0, Integer(c.r.below(h))}; b = {w - 1, Integer(c.r.below(h))}; }
	c.fp(u64(a.x * 4096 + b.x)); c.fp(u64(a.y * 4096 + b.y)); linePath(c, w, h, a, b); c.ev("lines");
}
GROUP(C32, bigFlood, 4, 60) {   // deep regions terminate and need no recursion
	Integer n = 400 + Integer(c.r.below(300)); PNG p; p.clear(n, n, WHITE); c.fp(u64(n)); int kind = int(c.idx % 2);
	if (kind) for (Integer y = 1; y < n; y += 2) for (Integer x = 0; x < n; x++) if (x != (y % 4 == 1 ? n - 1 : 0)) p(x, y) = BLACK;   // serpentine
	p.floodFill({0, 0}, RED);
	for (Integer y = 0; y < n; y++) for (Integer x = 0; x < n; x++) { Color want = kind && y % 2 && x != (y % 4 == 1 ? n - 1 : 0) ? BLACK : RED; if (p(x, y) != want) VFAIL(c, "C32.flood", "serpentine of size " << n << ": pixel (" << x << "," << y << ")"); }
	c.ev("pixels drawn", n * n);
}

//---------------------------------------------------------------- C34 (alpha specific)
GROUP(C34, blend, 256, 256) {   // all alpha pairs; channels random and extreme
	int ua = int(c.idx % 256); c.fp(c.idx);
	for (int la = 0; la < 256; la++) for (int q = 0; q < 6; q++) {
		Color lo = anyColor(c.r), up = anyColor(c.r); lo.a = std::uint8_t(la); up.a = std::uint8_t(ua); if (q == 0) { lo.r = up.r; lo.g = 255; up.g = 0; lo.b = 0; up.b = 255; }
		Color r = blend(lo, up); std::string what = "blend(" + str(lo) + "," + str(up) + ") = " + str(r); c.note(what);
		if (ua == 255) VCHECK(c, r == up, "C34.blend", what);
		else if (ua == 0) VCHECK(c, r == lo, "C34.blend", what);
		else {
			double A = ua + la * (255.0 - ua) / 255.0; VCHECK(c, std::fabs(r.a - A) < 1.000001, "C34.blend", what << ": alpha should be " << A);
			for (int i = 0; i < 3; i++) {
				int l = ch(lo)[i], u = ch(up)[i], g = ch(r)[i]; double e = (u * ua + l * la * (255.0 - ua) / 255.0) / A;
				VCHECK(c, g >= std::min(l, u) && g <= std::max(l, u), "C34.blend", what << ": channel " << i << " not between both colours");
				VCHECK(c, std::fabs(g - e) <= 1.000001 + 255.0 * ua / (double(r.a) * r.a), "C34.blend", what << ": channel " << i << " should be about " << e);
			}
		}
		c.ev("blends");
	}
}
int main(int argc, char** argv) { return vh::run(argc, argv); }
