// Common runtime-monitoring harness: deterministic case generator, oracle bookkeeping,
// crash/hang attribution. Every case is a pure function of (seed, group, index), so a
// violation is replayed with  <binary> --seed S --replay GROUP:INDEX
#pragma once
#include <bits/stdc++.h>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

namespace vh {
using u64 = std::uint64_t;
using i64 = std::int64_t;

struct Exit { int code; };           // thrown by the overridden exit hook
struct CaseFailed {};

inline u64 mix(u64 x) {
	x += 0x9E3779B97F4A7C15ull;
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
	x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
	return x ^ (x >> 31);
}
inline u64 hashStr(std::string_view s) {
	u64 h = 1469598103934665603ull;
	for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
	return h;
}

struct Rng {
	u64 s;
	explicit Rng(u64 seed = 1) : s(seed) {}
	u64 next() { s += 0x9E3779B97F4A7C15ull; u64 x = s; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
	u64 below(u64 n) { return n ? next() % n : 0; }
	i64 in(i64 lo, i64 hi) {          // inclusive, any 64 bit range
		u64 w = u64(hi) - u64(lo) + 1;
		return w == 0 ? i64(next()) : i64(u64(lo) + next() % w);
	}
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
	template<class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
	double unit() { return double(next() >> 11) * 0x1p-53; }
	// 64 bit value with emphasis on borders
	i64 wild() {
		switch (below(7)) {
			case 0: return in(-12, 12);
			case 1: { int k = int(below(64)); return i64((1ull << k) + u64(in(-3, 3))); }
			case 2: { int k = int(below(64)); return i64(0ull - (1ull << k) + u64(in(-3, 3))); }
			case 3: return i64(u64(INT64_MAX) - below(4));
			case 4: return i64(u64(INT64_MIN) + below(4));
			case 5: { u64 x = next(); return i64(x >> below(64)); }
			default: return i64(next());
		}
	}
	int border(int mx) {              // around powers of two (buffer and counter borders)
		int k = 4; while ((2 << k) <= mx) k++;
		int n = chance(3, 4) ? (1 << (5 + int(below(u64(k > 5 ? k - 4 : 1))))) + int(in(-2, 2)) : int(below(u64(mx) + 1));
		return std::min(n, mx);
	}
	int size(int mx, int big) { return chance(1, 120) ? border(big) : size(mx); }
	int size(int mx) {                // sizes with emphasis on 0,1,2 and max
		switch (below(6)) {
			case 0: return int(below(std::min(mx, 3) + 1));
			case 1: return int(below(mx + 1));
			case 2: return mx - int(below(std::min(mx, 2) + 1));
			default: return int(below(std::min(mx, 12) + 1));
		}
	}
};

struct Violation { std::string group; u64 idx; std::string key, msg; };

struct State { volatile u64 serial; volatile u64 idx; char group[48]; char note[4000]; };

struct Ctx;
using Fn = void (*)(Ctx&);
struct Group { std::string prop, name; Fn fn; u64 quick, thorough; };
inline std::vector<Group>& groups() { static std::vector<Group> g; return g; }
struct Reg { Reg(const char* prop, const char* name, Fn fn, u64 q, u64 t) { groups().push_back({prop, name, fn, q, t}); } };

struct Global {
	u64 seed = 1; bool thorough = false; bool replay = false; std::string replayGroup;
	std::vector<Violation> viols;
	std::map<std::string, u64> events, evals;
	std::map<std::string, std::vector<std::string>> samples;
	std::unordered_set<u64> fps;
	u64 nonTrivial = 0;
	State* st = nullptr; std::string violFile; std::size_t flushed = 0;
};
inline Global& G() { static Global g; return g; }

inline std::string esc(std::string_view s, std::size_t mx = 400) {   // printable rendering of bytes
	std::string r; char b[8];
	for (std::size_t i = 0; i < s.size(); i++) {
		if (r.size() > mx) { r += "...(" + std::to_string(s.size()) + " bytes)"; break; }
		unsigned char c = (unsigned char)s[i];
		if (c == '\\') r += "\\\\";
		else if (c == '\n') r += "\\n";
		else if (c >= 32 && c < 127) r += char(c);
		else { std::snprintf(b, 8, "\\x%02x", c); r += b; }
	}
	return r;
}
inline std::string json(std::string_view s) {
	std::string r = "\""; char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
		else if (c < 32 || c > 126) { std::snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += char(c);
	}
	return r + "\"";
}
template<class C> std::string show(const C& c, std::size_t mx = 40) {
	std::ostringstream os; os << "["; std::size_t i = 0;
	for (const auto& x : c) { if (i) os << ","; if (i++ >= mx) { os << "..."; break; } os << x; }
	os << "]"; return os.str();
}

struct Ctx {
	const Group* g; u64 idx; Rng r; u64 h; bool triv = false; bool fresh = false;
	Ctx(const Group* g_, u64 i) : g(g_), idx(i), r(mix(mix(G().seed ^ hashStr(g_->name)) + i * 0x632BE59BD9B4E019ull)), h(hashStr(g_->name)) {}
	void fp(u64 x) { h = mix(h ^ x); }
	void fp(std::string_view s) { fp(hashStr(s)); }
	void ev(const char* name, u64 n = 1) { G().events[name] += n; }
	bool thorough() const { return G().thorough; }
	void trivial() { triv = true; }
	bool wantSample() const { auto& v = G().samples[g->name]; return v.size() < 2; }
	void sample(std::string s) { auto& v = G().samples[g->name]; if (v.size() < 2) v.push_back(s.size() > 600 ? s.substr(0, 600) + "..." : s); }
	void note(const std::string& s) {   // remembered for crash reports
		std::size_t n = std::min(s.size(), sizeof(G().st->note) - 1);
		std::memcpy(G().st->note, s.data(), n); G().st->note[n] = 0;
	}
	void report(std::string key, std::string msg) { G().viols.push_back({g->name, idx, std::move(key), std::move(msg)}); }   // keeps going (known findings)
	[[noreturn]] void fail(std::string key, std::string msg) {
		G().viols.push_back({g->name, idx, std::move(key), std::move(msg)});
		throw CaseFailed{};
	}
};

#define VFAIL(c, key, what) do { std::ostringstream vh_os; vh_os << what; (c).fail(key, vh_os.str()); } while (0)
#define VCHECK(c, cond, key, what) do { if (!(cond)) VFAIL(c, key, what); } while (0)
#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
// GROUP(C01, name, quick cases, thorough cases) { ... body using Ctx& c ... }
#define GROUP(prop, name, q, t) \
	static void vh_group_##prop##_##name(vh::Ctx& c); \
	static vh::Reg vh_reg_##prop##_##name(#prop, #prop "." #name, &vh_group_##prop##_##name, q, t); \
	static void vh_group_##prop##_##name([[maybe_unused]] vh::Ctx& c)

// runs f; true if it threw an exception derived from std::exception (and nothing else)
template<class F> bool throwsStd(F&& f) {
	try { f(); } catch (const std::exception&) { return true; }
	return false;
}

inline int g_stuck = 0; inline u64 g_lastSerial = 0;
inline void onProf(int) {
	if (G().st->serial != g_lastSerial) { g_lastSerial = G().st->serial; g_stuck = 0; return; }
	if (++g_stuck >= (G().thorough ? 150 : 30)) {
		const char m[] = "\nVH-HANG: a single case used more than 30 s of CPU time\n";
		(void)!write(2, m, sizeof m - 1);
		_exit(97);
	}
}

inline std::string violJson(const Violation& v) { std::ostringstream js; js << "{\"group\":" << json(v.group) << ",\"idx\":" << v.idx << ",\"key\":" << json(v.key) << ",\"msg\":" << json(v.msg) << "}"; return js.str(); }

inline int run(int argc, char** argv) {
	std::string out, prop, stateFile, only; u64 scaleNum = 1, scaleDen = 1, part = 0, parts = 1; u64 replayIdx = 0;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
		if (a == "--seed") G().seed = std::stoull(nx());
		else if (a == "--thorough") G().thorough = true;
		else if (a == "--out") out = nx();
		else if (a == "--prop") prop = nx();
		else if (a == "--state") stateFile = nx();
		else if (a == "--only") only = nx();
		else if (a == "--scale") { std::string s = nx(); auto p = s.find('/'); scaleNum = std::stoull(s); if (p != s.npos) scaleDen = std::stoull(s.substr(p + 1)); }
		else if (a == "--part") { std::string s = nx(); part = std::stoull(s); parts = std::stoull(s.substr(s.find('/') + 1)); }
		else if (a == "--replay") { std::string s = nx(); auto p = s.rfind(':'); G().replay = true; G().replayGroup = s.substr(0, p); replayIdx = std::stoull(s.substr(p + 1)); }
		else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
	}
	if (!out.empty()) G().violFile = out + ".viol";
	static State local{};
	G().st = &local;
	if (!stateFile.empty()) {
		int fd = open(stateFile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
		if (fd < 0 || ftruncate(fd, sizeof(State)) != 0) return 3;
		void* p = mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (p == MAP_FAILED) return 3;
		G().st = static_cast<State*>(p);
	}
	std::signal(SIGPROF, onProf);
	itimerval tv{{1, 0}, {1, 0}}; setitimer(ITIMER_PROF, &tv, nullptr);
	bool ran = false;
	for (const Group& g : groups()) {
		if (G().replay ? g.name != G().replayGroup : (!prop.empty() && g.prop != prop)) continue;
		if (!only.empty() && g.name != only) continue;
		u64 n = (G().thorough ? g.thorough : g.quick) * scaleNum / scaleDen;
		if ((G().thorough ? g.thorough : g.quick) == 0 && !G().replay) continue;
		if (n == 0) n = 1;
		u64 from = part, step = parts;
		if (G().replay) { from = replayIdx; n = replayIdx + 1; step = 1; }
		std::size_t failed = 0;
		std::snprintf(G().st->group, sizeof G().st->group, "%s", g.name.c_str());
		for (u64 i = from; i < n; i += step) {
			G().st->idx = i; G().st->serial = G().st->serial + 1; G().st->note[0] = 0;
			Ctx c(&g, i);
			bool bad = false;
			try { g.fn(c); }
			catch (const CaseFailed&) { bad = true; }
			catch (const Exit& e) { G().viols.push_back({g.name, i, g.name + ".escaped-verdict", "verdict " + std::to_string(e.code) + " escaped; " + G().st->note}); bad = true; }
			catch (const std::exception& e) { G().viols.push_back({g.name, i, g.name + ".exception", std::string("unexpected exception: ") + e.what() + "; " + G().st->note}); bad = true; }
			catch (...) { G().viols.push_back({g.name, i, g.name + ".exception", std::string("unexpected exception; ") + G().st->note}); bad = true; }
			ran = true;
			G().evals[g.name]++;
			if (!c.triv) { G().nonTrivial++; if (G().fps.size() < 400000) G().fps.insert(c.h); }
			if (bad && !G().violFile.empty()) {   // survives a later crash
				std::ofstream vo(G().violFile, std::ios::app);
				for (; G().flushed < G().viols.size(); G().flushed++) vo << violJson(G().viols[G().flushed]) << "\n";
			}
			if (bad && ++failed >= 3) break;
		}
	}
	if (!ran) { std::fprintf(stderr, "no case selected\n"); return 3; }
	std::ostringstream js;
	js << "{\"nontrivial\":" << G().nonTrivial << ",\"evals\":{";
	bool f = true; for (auto& [k, v] : G().evals) { js << (f ? "" : ",") << json(k) << ":" << v; f = false; }
	js << "},\"events\":{"; f = true; for (auto& [k, v] : G().events) { js << (f ? "" : ",") << json(k) << ":" << v; f = false; }
	js << "},\"samples\":{"; f = true;
	for (auto& [k, v] : G().samples) { js << (f ? "" : ",") << json(k) << ":["; f = false; for (std::size_t i = 0; i < v.size(); i++) js << (i ? "," : "") << json(v[i]); js << "]"; }
	js << "},\"violations\":["; f = true;
	for (auto& v : G().viols) { js << (f ? "" : ",") << violJson(v); f = false; }
	js << "]}";
	if (out.empty()) std::printf("%s\n", js.str().c_str());
	else {
		std::ofstream(out) << js.str();
		std::ofstream fo(out + ".fp", std::ios::binary);
		for (u64 x : G().fps) fo.write(reinterpret_cast<const char*>(&x), 8);
	}
	return 0;
}
} // namespace vh
