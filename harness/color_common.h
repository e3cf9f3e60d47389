// C34: colour arithmetic, shared by both visualizers (CH = number of channels, mk(..) builds a colour)
#pragma once
constexpr int CH = HAS_ALPHA ? 4 : 3;
using Ch = std::array<int, 4>;
inline Color mk(const Ch& v) {
#if HAS_ALPHA
	return Color(std::uint8_t(v[0]), std::uint8_t(v[1]), std::uint8_t(v[2]), std::uint8_t(v[3]));
#else
	return Color(std::uint8_t(v[0]), std::uint8_t(v[1]), std::uint8_t(v[2]));
#endif
}
inline Ch ch(const Color& c) {
#if HAS_ALPHA
	return {c.r, c.g, c.b, c.a};
#else
	return {c.r, c.g, c.b, 0};
#endif
}
inline std::string str(const Color& c) { auto v = ch(c); std::ostringstream os; os << "(" << v[0] << "," << v[1] << "," << v[2]; if (CH == 4) os << "," << v[3]; os << ")"; return os.str(); }
inline Color anyColor(vh::Rng& r) { Ch v; int k = int(r.below(4)); for (auto& x : v) x = k == 0 ? r.pick<int>({0, 255}) : k == 1 ? r.pick<int>({0, 1, 2, 127, 128, 253, 254, 255}) : int(r.below(256)); return mk(v); }
inline int sat(long long x) { return int(std::min<long long>(255, std::max<long long>(0, x))); }

GROUP(C34, addSub, 256, 256) {   // all pairs of channel values in every channel position
	int x = int(c.idx % 256); c.fp(c.idx);
	for (int y = 0; y < 256; y++) {
		Ch a, b; for (int i = 0; i < 4; i++) { a[i] = (x + 61 * i) % 256; b[i] = (y + 97 * i) % 256; }
		Color p = mk(a), q = mk(b), s = p + q, d = p - q, s2 = p, d2 = p;
		Color& rs = (s2 += q); Color& rd = (d2 -= q);
		VCHECK(c, &rs == &s2 && &rd == &d2, "C34.assign", "compound assignment must return its left operand");
		for (int i = 0; i < CH; i++) {
			VCHECK(c, ch(s)[i] == sat(a[i] + b[i]) && ch(s2)[i] == ch(s)[i], "C34.add", str(p) << " + " << str(q) << " = " << str(s) << ", += " << str(s2));
			VCHECK(c, ch(d)[i] == sat(a[i] - b[i]) && ch(d2)[i] == ch(d)[i], "C34.subtract", str(p) << " - " << str(q) << " = " << str(d) << ", -= " << str(d2));
		}
		VCHECK(c, ch(p) == ch(mk(a)) && ch(q) == ch(mk(b)), "C34.operands", "operands changed");
		c.ev("sums and differences", 2);
	}
}
inline void checkScale(Ctx& c, const Color& p, Real f) {
	Color s = f * p, t = p * f, u = p; Color& ru = (u *= f);
	c.note(str(p) + " * " + std::to_string(f));
	VCHECK(c, ch(s) == ch(t) && ch(s) == ch(u) && &ru == &u, "C34.scale", str(p) << " scaled by " << f << ": " << str(s) << " " << str(t) << " " << str(u));
	for (int i = 0; i < CH; i++) {
		Real e = Real(ch(p)[i]) * f, lo = std::floor(e), fr = e - lo; int got = ch(s)[i]; bool ok;
		if (e <= 0) ok = got == 0;
		else if (e >= 255) ok = got == 255;
		else ok = (fr < 0.5L + 1e-9L && got == sat((long long)lo)) || (fr > 0.5L - 1e-9L && got == sat((long long)lo + 1));
		VCHECK(c, ok, "C34.scale", str(p) << " scaled by " << f << " is " << str(s));
	}
	c.ev("scalings");
}
GROUP(C34, scale, 600, 40000) {
	Real f = 0; int k = int(c.r.below(9));
	if (k == 0) f = Real(c.r.in(-5, 5)); else if (k == 1) f = Real(c.r.unit()); else if (k == 2) f = Real(c.r.in(-600, 600)) / 256; else if (k == 3) f = (c.r.unit() - 0.5L) * 8;
	else if (k == 4) f = std::ldexp(Real(c.r.unit() + 0.5), int(c.r.in(-70, 70))); else if (k == 5) f = -std::ldexp(Real(c.r.unit() + 0.5), int(c.r.in(-70, 70)));
	else if (k == 6) f = c.r.pick<Real>({1e18L, 1e19L, 1e30L, -1e18L, -1e19L, -1e30L, 1e300L, -1e300L, 1e4000L}); else if (k == 7) f = Real(c.r.in(0, 510)) / 510; else f = Real(c.r.in(1, 511)) / Real(2 * c.r.in(1, 255));
	if (c.idx < 2) f = Real(1 - c.idx);
	c.fp(u64(c.idx)); if (c.wantSample()) { std::ostringstream os; os << "factor " << f; c.sample(os.str()); }
	for (int x = 0; x < 256; x++) { Ch a; for (int i = 0; i < 4; i++) a[i] = (x + 59 * i) % 256; checkScale(c, mk(a), f); }
}
GROUP(C34, lerp, 400, 40000) {
	for (int q = 0; q < 64; q++) {
		Color a = anyColor(c.r), b = anyColor(c.r); Real f = c.r.pick<Real>({0, 1, 0.5L, 0.25L, Real(c.r.unit()), Real(c.r.below(256)) / 255});
		Color l = lerp(a, b, f); c.note(str(a) + " " + str(b) + " " + std::to_string(f)); c.fp(u64(ch(a)[0]) * 65536 + u64(ch(b)[1]));
		for (int i = 0; i < CH; i++) {
			Real e = ch(a)[i] * f + ch(b)[i] * (1 - f);
			VCHECK(c, std::fabs(Real(ch(l)[i]) - e) <= 1 + 1e-9L, "C34.lerp", "lerp(" << str(a) << "," << str(b) << "," << f << ") = " << str(l));
		}
		if (f == 0) VCHECK(c, ch(l) == ch(b), "C34.lerp", "lerp at 0 of " << str(a) << "," << str(b) << " is " << str(l));
		if (f == 1) VCHECK(c, ch(l) == ch(a), "C34.lerp", "lerp at 1 of " << str(a) << "," << str(b) << " is " << str(l));
		c.ev("interpolations");
	}
}
GROUP(C34, construct, 64, 2000) {
	for (int q = 0; q < 200; q++) {
		std::uint32_t rgb = std::uint32_t(c.r.next()); if (c.r.chance(1, 2)) rgb &= 0xFFFFFF; c.fp(rgb);
		Color p(rgb); Ch v = ch(p); int want[3] = {int(rgb / 65536 % 256), int(rgb / 256 % 256), int(rgb % 256)};
		for (int i = 0; i < 3; i++) VCHECK(c, v[i] == want[i], "C34.construct", "Color(" << rgb << ") is " << str(p));
		if (CH == 4) VCHECK(c, v[3] == 255, "C34.construct", "Color(" << rgb << ") is " << str(p));
#if HAS_ALPHA
		std::uint8_t al = std::uint8_t(c.r.next()); Color pa(rgb, al);
		VCHECK(c, pa.a == al && pa.r == want[0] && pa.g == want[1] && pa.b == want[2], "C34.construct", "Color(" << rgb << "," << int(al) << ") is " << str(pa));
		VCHECK(c, Color(pa.r, pa.g, pa.b).a == 255, "C34.construct", "default alpha");
#endif
		Color w = anyColor(c.r); const Color cw = w;
		for (std::size_t i = 0; i < std::size_t(CH); i++) { VCHECK(c, w[i] == ch(w)[i] && cw[i] == ch(w)[i] && Color(cw)[i] == ch(w)[i] && std::move(cw)[i] == ch(w)[i], "C34.index", "channel " << i << " of " << str(w)); Color m = w; m[i] = std::uint8_t(w[i] ^ 0x55); for (int j = 0; j < CH; j++) VCHECK(c, (ch(m)[j] != ch(w)[j]) == (j == int(i)), "C34.index", "writing channel " << i << " of " << str(w) << " gives " << str(m)); VCHECK(c, m != w && !(m == w), "C34.equal", str(m) << " equals " << str(w)); Color again = mk(ch(w)); VCHECK(c, again == w && !(again != w), "C34.equal", str(w) << " differs from itself"); }
		Color m = w; VCHECK(c, throwsStd([&] { (void)m[CH]; }) && throwsStd([&] { (void)cw[CH + 1 + c.r.below(5)]; }), "C34.index", "index out of range accepted");
		c.ev("constructions");
	}
	struct N { const Color& k; std::uint32_t v; };
	for (N x : {N{BLACK, 0}, N{DARKGRAY, 0x404040}, N{GRAY, 0x808080}, N{LIGHTGRAY, 0xC0C0C0}, N{WHITE, 0xFFFFFF}, N{RED, 0xFF0000}, N{GREEN, 0xFF00}, N{BLUE, 0xFF}, N{YELLOW, 0xFFFF00}, N{MAGENTA, 0xFF00FF}, N{CYAN, 0xFFFF}})
		VCHECK(c, x.k == Color(x.v), "C34.constants", "constant " << str(x.k));
	VCHECK(c, 0_c == 0 && 255_c == 255 && 64_c == 64, "C34.literal", "colour literals");
	static_assert(Color(std::uint32_t(0x102030)) == Color(std::uint8_t(0x10), std::uint8_t(0x20), std::uint8_t(0x30)));
}
