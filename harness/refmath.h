// reference modular arithmetic and primality
#pragma once
#include "vh.h"
namespace {
using vh::u64; using vh::i64;
// reference arithmetic by 64 step doubling; valid for 1 <= m < 2^63 and a,b < m
static u64 addm(u64 a, u64 b, u64 m) { u64 s = a + b; return s >= m ? s - m : s; }
static u64 mulm(u64 a, u64 b, u64 m) {
#ifdef __SIZEOF_INT128__
	if ((a ^ b) & 1) return u64((unsigned __int128)a * b % m);      // half of the cases by another route
#endif
	u64 r = 0;
	for (int k = 63; k >= 0; k--) { r = addm(r, r, m); if ((b >> k) & 1) r = addm(r, a, m); }
	return r;
}
static u64 red(i64 x, u64 m) {   // exact residue in [0, m)
	if (x >= 0) return u64(x) % m;
	u64 r = (0 - u64(x)) % m;
	return r ? m - r : 0;
}
static u64 powm(u64 b, u64 e, u64 m) {   // left to right
	u64 r = 1 % m;
	for (int k = 63; k >= 0; k--) { r = mulm(r, r, m); if ((e >> k) & 1) r = mulm(r, b, m); }
	return r;
}
static bool primeRef(i64 n) {
	if (n < 2) return false;
	static const int ps[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37};
	for (int p : ps) if (n % p == 0) return n == p;
	u64 d = u64(n) - 1; int s = 0; while (!(d & 1)) d >>= 1, s++;
	for (int p : ps) {   // deterministic below 3.3e24
		u64 x = powm(u64(p), d, u64(n));
		if (x == 1 || x == u64(n) - 1) continue;
		bool ok = false;
		for (int i = 1; i < s && !ok; i++) { x = mulm(x, x, u64(n)); ok = x == u64(n) - 1; }
		if (!ok) return false;
	}
	return true;
}
}
