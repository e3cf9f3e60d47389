// C29 (xoshiro256**), C30 (AES-256 and its counter stream)
#include "vh.h"
#include "rng.h"
#include "secure_rng.h"
using namespace vh;
using S4 = std::array<std::uint64_t, 4>;

//---------------------------------------------------------------- C29
// independent engine, written from the published description
struct Xo {
	u64 s0, s1, s2, s3;
	static u64 rot(u64 x, unsigned k) { return x * (1ull << k) + x / (1ull << (64 - k)); }
	u64 next() {
		u64 m = s1 * 5; u64 out = rot(m, 7) * 9;
		u64 t = s1 << 17; u64 a = s2 ^ s0, b = s3 ^ s1, n1 = s1 ^ a, n0 = s0 ^ b;
		s2 = a ^ t; s3 = rot(b, 45); s1 = n1; s0 = n0; return out;
	}
};
// transition matrix over GF(2): column i = image of basis vector i
using Mat = std::vector<S4>;
inline S4 step(const S4& s) { Xo x{s[0], s[1], s[2], s[3]}; x.next(); return {x.s0, x.s1, x.s2, x.s3}; }
inline S4 matApply(const Mat& m, const S4& v) { S4 r{}; for (int i = 0; i < 256; i++) if (v[i / 64] >> (i % 64) & 1) for (int k = 0; k < 4; k++) r[k] ^= m[i][k]; return r; }
inline const Mat& power(int e) {   // T^(2^e)
	static std::vector<Mat> p;
	if (p.empty()) { Mat t(256); for (int i = 0; i < 256; i++) { S4 b{}; b[i / 64] = 1ull << (i % 64); t[i] = step(b); } p.push_back(t); }
	while (int(p.size()) <= e) { const Mat& l = p.back(); Mat n(256); for (int i = 0; i < 256; i++) n[i] = matApply(l, l[i]); p.push_back(n); }
	return p[e];
}
inline S4 wildState(Ctx& c) {
	S4 s; int kind = int(c.r.below(6));
	for (auto& x : s) x = kind == 0 ? u64(c.r.wild()) : kind == 1 ? c.r.below(2) << c.r.below(64) : kind == 2 ? ~(c.r.below(2) << c.r.below(64)) : c.r.next();
	if (kind == 3) for (auto& x : s) x = 0, s[c.r.below(4)] = 1ull << c.r.below(64);
	return s;
}
inline std::string show4(const S4& s) { std::ostringstream os; os << std::hex; for (auto x : s) os << x << " "; return os.str(); }
constexpr S4 BASE{0x3243F6A8885A308Dull, 0x313198A2E0370734ull, 0x4A4093822299F31Dull, 0x0082EFA98EC4E6C8ull};

inline void compare(Ctx& c, Xoshiro256ss& e, S4& ref, int n, const std::string& what) {
	for (int i = 0; i < n; i++) {
		Xo x{ref[0], ref[1], ref[2], ref[3]}; u64 want = x.next(); ref = {x.s0, x.s1, x.s2, x.s3};
		u64 got = e(); VCHECK(c, got == want, "C29.stream", what << ": output " << i << " is " << got << ", expected " << want);
	}
	c.ev("outputs compared", n);
}
GROUP(C29, stream, 2000, 200000) {   // draws and jumps interleaved
	S4 s = wildState(c); for (auto x : s) c.fp(x); std::string log = "state " + show4(s); c.note(log); if (c.wantSample()) c.sample(log);
	Xoshiro256ss e(s); S4 ref = s; int ops = 1 + int(c.r.below(8));
	for (int o = 0; o < ops; o++) {
		if (c.r.chance(1, 2)) { e.jump(); ref = matApply(power(128), ref); log += "jump "; c.ev("jumps"); }
		else { int n = int(c.r.below(60)); log += "draw" + std::to_string(n) + " "; compare(c, e, ref, n, log); }
		if (c.r.chance(1, 6)) { Xoshiro256ss f = e; S4 r2 = ref; compare(c, f, r2, 10, log + "copy "); }   // copies are independent
		if (c.r.chance(1, 8)) { Xoshiro256ss f(S4{1, 2, 3, 4}); f = e; S4 r2 = ref; compare(c, f, r2, 10, log + "assigned "); }
	}
	compare(c, e, ref, 12, log);
}
GROUP(C29, basis, 256, 256) {   // jump and step are linear: every basis state
	S4 s{}; s[c.idx / 64 % 4] = 1ull << (c.idx % 64); c.fp(c.idx);
	Xoshiro256ss e(s); e.jump(); S4 r = matApply(power(128), s); compare(c, e, r, 12, "jump from basis state " + std::to_string(c.idx));
	Xoshiro256ss f(s); S4 q = s; compare(c, f, q, 40, "basis state " + std::to_string(c.idx));
}
GROUP(C29, seed, 2000, 200000) {
	u64 seed = c.idx < 40 ? u64(c.idx) - 20 : u64(c.r.wild()); c.fp(seed); c.note("seed " + std::to_string(seed)); if (c.wantSample()) c.sample("seed " + std::to_string(seed));
	Xoshiro256ss e(seed); S4 s = BASE; for (auto& x : s) x ^= seed; s = matApply(power(128), s);
	compare(c, e, s, 20, "seed " + std::to_string(seed));
}
GROUP(C29, longRun, 8, 60) {
	S4 s = wildState(c); if (s == S4{}) s[0] = 1; for (auto x : s) c.fp(x);
	Xoshiro256ss e(s); S4 r = s; compare(c, e, r, c.thorough() ? 5000000 : 300000, "long run from " + show4(s));
}
GROUP(C29, contract, 1, 1) {
	static_assert(std::is_same_v<Xoshiro256ss::result_type, std::uint64_t>);
	constexpr auto lo = Xoshiro256ss::min(), hi = Xoshiro256ss::max();
	VCHECK(c, lo == 0 && hi == ~0ull, "C29.contract", "range [" << lo << "," << hi << "]");
	Xoshiro256ss a(7), b(7); std::uniform_int_distribution<int> d(0, 9);   // usable by the standard library
	for (int i = 0; i < 1000; i++) VCHECK(c, d(a) == d(b), "C29.contract", "equal engines differ");
	c.ev("draws", 2000);
}

//---------------------------------------------------------------- C30
inline std::uint8_t gmul(std::uint8_t a, std::uint8_t b) { unsigned r = 0, x = a; for (int i = 0; i < 8; i++) { if (b >> i & 1) r ^= x << i; } for (int i = 15; i >= 8; i--) if (r >> i & 1) r ^= 0x11Bu << (i - 8); return std::uint8_t(r); }
inline std::uint8_t sboxAt(std::uint8_t x) {
	static const std::array<std::uint8_t, 256> t = [] {
		std::array<std::uint8_t, 256> t{};
		for (int i = 0; i < 256; i++) {
			std::uint8_t inv = 0; for (int j = 1; j < 256; j++) if (gmul(std::uint8_t(i), std::uint8_t(j)) == 1) inv = std::uint8_t(j);
			std::uint8_t r = 0; for (int b = 0; b < 8; b++) { int bit = (inv >> b ^ inv >> ((b + 4) % 8) ^ inv >> ((b + 5) % 8) ^ inv >> ((b + 6) % 8) ^ inv >> ((b + 7) % 8) ^ 0x63 >> b) & 1; r |= std::uint8_t(bit << b); }
			t[i] = r;
		}
		return t;
	}();
	return t[x];
}
using B16 = std::array<std::uint8_t, 16>; using K32 = std::array<std::uint8_t, 32>;
struct RefAes {   // FIPS-197, Nk = 8, Nr = 14
	std::vector<std::array<std::uint8_t, 4>> w;
	explicit RefAes(const K32& k) : w(60) {
		for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) w[i][j] = k[4 * i + j];
		std::uint8_t rc = 1;
		for (int i = 8; i < 60; i++) {
			auto t = w[i - 1];
			if (i % 8 == 0) { t = {sboxAt(t[1]), sboxAt(t[2]), sboxAt(t[3]), sboxAt(t[0])}; t[0] ^= rc; rc = gmul(rc, 2); }
			else if (i % 8 == 4) for (auto& x : t) x = sboxAt(x);
			for (int j = 0; j < 4; j++) w[i][j] = w[i - 8][j] ^ t[j];
		}
	}
	B16 operator()(B16 s) const {
		auto ark = [&](int r) { for (int i = 0; i < 16; i++) s[i] ^= w[4 * r + i / 4][i % 4]; };
		ark(0);
		for (int r = 1; r <= 14; r++) {
			B16 t; for (int col = 0; col < 4; col++) for (int row = 0; row < 4; row++) t[4 * col + row] = sboxAt(s[4 * ((col + row) % 4) + row]);
			if (r < 14) for (int col = 0; col < 4; col++) { std::uint8_t* a = &t[4 * col]; std::uint8_t b[4]; for (int i = 0; i < 4; i++) b[i] = gmul(a[i], 2) ^ gmul(a[(i + 1) % 4], 3) ^ a[(i + 2) % 4] ^ a[(i + 3) % 4]; std::copy(b, b + 4, a); }
			s = t; ark(r);
		}
		return s;
	}
};
template<class A> A bytes(Ctx& c) {
	A a; int k = int(c.r.below(8));
	for (auto& x : a) x = k == 0 ? 0 : k == 1 ? 255 : std::uint8_t(c.r.next());
	if (k == 2) { for (auto& x : a) x = 0; a[c.r.below(a.size())] = std::uint8_t(1u << c.r.below(8)); }
	return a;
}
template<class A> std::string hex(const A& a) { std::string r; char b[3]; for (auto x : a) { std::snprintf(b, 3, "%02x", x); r += b; } return r; }
template<class A> A unhex(const char* s) { A a; for (auto& x : a) { unsigned v; std::sscanf(s, "%2x", &v); x = std::uint8_t(v); s += 2; } return a; }
static bool g_sb[256];
GROUP(C30, cipher, 2500, 300000) {
	K32 k = bytes<K32>(c); AES aes(k); RefAes ref(k); c.fp(hashStr(hex(k)));
	for (int i = 0; i < 8; i++) {
		B16 b = bytes<B16>(c); c.note("key " + hex(k) + " block " + hex(b)); if (c.wantSample()) c.sample("key " + hex(k) + " block " + hex(b));
		B16 got = aes(b), want = ref(b);
		VCHECK(c, got == want, "C30.cipher", "key " << hex(k) << " block " << hex(b) << ": " << hex(got) << ", expected " << hex(want));
		c.ev("blocks compared"); for (auto x : b) if (!g_sb[x ^ k[0]]) g_sb[x ^ k[0]] = true;
	}
}
GROUP(C30, vectors, 1, 1) {   // FIPS-197 C.3, SP 800-38A F.1.5, F.5.5, and single bit keys/blocks from the AESAVS tables
	struct V { const char *k, *p, *ct; };
	for (V v : {V{"000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f", "00112233445566778899aabbccddeeff", "8ea2b7ca516745bfeafc49904b496089"},
		V{"603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4", "6bc1bee22e409f96e93d7e117393172a", "f3eed1bdb5d2a03c064b5a7e3db181f8"},
		V{"603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4", "ae2d8a571e03ac9c9eb76fac45af8e51", "591ccb10d410ed26dc5ba74a31362870"},
		V{"603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4", "30c81c46a35ce411e5fbc1191a0a52ef", "b6ed21b99ca6f4f9f153e7b1beafed1d"},
		V{"603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4", "f69f2445df4f9b17ad2b417be66c3710", "23304b7a39f9f3ff067d8d8f9e24ecc7"},
		V{"603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4", "f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff", "0bdf7df1591716335e9a8b15c860c502"},
		V{"0000000000000000000000000000000000000000000000000000000000000000", "014730f80ac625fe84f026c60bfd547d", "5c9d844ed46f9885085e5d6a4f94c7d7"}}) {
		auto want = unhex<B16>(v.ct);
		VCHECK(c, RefAes(unhex<K32>(v.k))(unhex<B16>(v.p)) == want, "C30.reference", "the reference cipher is wrong");
		B16 got = AES(unhex<K32>(v.k))(unhex<B16>(v.p));
		VCHECK(c, got == want, "C30.cipher", "key " << v.k << " block " << v.p << ": " << hex(got) << ", expected " << v.ct);
		c.ev("standard vectors");
	}
	c.fp(1);
}
inline void inc(B16& iv) { for (auto& x : iv) if (++x != 0) break; }
inline u64 fold(const B16& b) { u64 r = 0; for (int i = 0; i < 16; i++) r ^= u64(b[i]) << (8 * (i % 8)); return r; }
inline B16 wildIv(Ctx& c) {
	B16 iv = bytes<B16>(c);
	if (c.r.chance(2, 3)) { std::size_t k = c.r.below(17); for (std::size_t i = 0; i < k; i++) iv[i] = 255; if (k) iv[0] = std::uint8_t(255 - c.r.below(6)); }   // carry chain
	return iv;
}
GROUP(C30, stream, 2500, 250000) {
	K32 k = bytes<K32>(c); B16 iv = wildIv(c); c.fp(hashStr(hex(k) + hex(iv))); std::string what = "key " + hex(k) + " iv " + hex(iv); c.note(what); if (c.wantSample()) c.sample(what);
	AES_RNG e(k, iv); RefAes ref(k); int n = 10 + int(c.r.below(10));
	for (int i = 1; i <= n; i++) {
		inc(iv); u64 want = fold(ref(iv)), got = e(); VCHECK(c, got == want, "C30.stream", what << ": output " << i << " is " << got << ", expected " << want);
		if (c.r.chance(1, 12)) { AES_RNG f = e; B16 j = iv; inc(j); VCHECK(c, f() == fold(ref(j)), "C30.stream", what << ": copy differs after output " << i); }
	}
	c.ev("outputs compared", n);
}
inline K32 seedKey() { return unhex<K32>("3243f6a8885a308d313198a2e03707344a4093822299f31d0082efa98ec4e6c8"); }
inline B16 seedIv() { return unhex<B16>("9452821e638d01377be5466cf34e90c6"); }
GROUP(C30, seed, 1500, 150000) {
	u64 seed = c.idx < 40 ? u64(c.idx) - 20 : u64(c.r.wild());
	if (c.r.chance(1, 2)) { u64 low = 0; B16 b = seedIv(); for (int i = 0; i < 8; i++) low |= u64(b[i]) << (8 * i); seed = low ^ (~0ull - c.r.below(9)); }   // counter close to the carry into the upper half
	c.fp(seed); c.note("seed " + std::to_string(seed)); if (c.wantSample()) c.sample("seed " + std::to_string(seed));
	AES_RNG e(seed); static const RefAes ref(seedKey()); B16 iv = seedIv(); for (int i = 0; i < 8; i++) iv[i] ^= std::uint8_t(seed >> (8 * i));
	for (int i = 1; i <= 12; i++) { inc(iv); u64 want = fold(ref(iv)), got = e(); VCHECK(c, got == want, "C30.seed", "seed " << seed << ": output " << i << " is " << got << ", expected " << want); }
	c.ev("outputs compared", 12);
}
GROUP(C30, longRun, 6, 40) {   // at least two carries out of the low bytes
	K32 k = bytes<K32>(c); B16 iv = wildIv(c); iv[1] = 255; iv[0] = std::uint8_t(c.r.next()); c.fp(hashStr(hex(k) + hex(iv)));
	AES_RNG e(k, iv); RefAes ref(k); int n = c.thorough() ? 140000 : 1500;
	for (int i = 1; i <= n; i++) { inc(iv); VCHECK(c, e() == fold(ref(iv)), "C30.stream", "key " << hex(k) << " output " << i << " of a long run"); }
	c.ev("outputs compared", n);
}
GROUP(C30, contract, 1, 1) {
	static_assert(std::is_same_v<AES_RNG::result_type, std::uint64_t>);
	constexpr auto lo = AES_RNG::min(), hi = AES_RNG::max();
	VCHECK(c, lo == 0 && hi == ~0ull, "C30.contract", "range [" << lo << "," << hi << "]");
	c.ev("contract");
}
int main(int argc, char** argv) { return vh::run(argc, argv); }
