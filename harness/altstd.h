// A second, equally conforming implementation of everything the standard leaves to the implementation in algorithms,
// containers and distributions. Including it after bits/stdc++.h makes later code use it, so a result that depends on
// one particular standard library changes.
#pragma once
#include <bits/stdc++.h>
namespace std {
template<class It, class C> void vh_sort(It a, It b, C c) { std::reverse(a, b); std::stable_sort(a, b, c); }
template<class It> void vh_sort(It a, It b) { vh_sort(a, b, std::less<>()); }
template<class It, class C> void vh_partial_sort(It a, It, It b, C c) { vh_sort(a, b, c); }
template<class It> void vh_partial_sort(It a, It, It b) { vh_sort(a, b); }
template<class It, class C> void vh_nth_element(It a, It, It b, C c) { vh_sort(a, b, c); }
template<class It> void vh_nth_element(It a, It, It b) { vh_sort(a, b); }
template<class It, class P> It vh_partition(It a, It b, P p) {   // unstable in another way: both parts reversed for bidirectional iterators
	It m = std::stable_partition(a, b, p); std::reverse(a, m); std::reverse(m, b); return m;
}
template<class It, class G> void vh_shuffle(It a, It b, G&& g) { auto n = b - a; for (decltype(n) i = 0; i < n; i++) { std::uint64_t x = g(); std::iter_swap(a + i, a + i + decltype(n)((x >> 20) % std::uint64_t(n - i))); } }
template<class It, class Out, class N, class G> Out vh_sample(It a, It b, Out o, N k, G&& g) {
	auto left = std::distance(a, b); std::vector<char> take; auto need = std::min<decltype(left)>(left, k);
	for (; a != b && need > 0; ++a, --left) { std::uint64_t x = g(); if (decltype(left)((x >> 13) % std::uint64_t(left)) < need) { *o++ = *a; need--; } }
	return o;
}
template<class R, size_t bits, class G> R vh_generate_canonical(G& g) { return R(std::uint32_t(g() >> 17)) / R(4294967296.0); }
template<class T> struct vh_hash { size_t operator()(const T& t) const { size_t h = std::hash<T>{}(t); h ^= 0x5bd1e995u; h *= 2654435761u; return h ^ (h >> 11); } };
template<class K, class V, class H = std::hash<K>, class E = std::equal_to<K>, class A = std::allocator<std::pair<const K, V>>> using vh_unordered_map = std::unordered_map<K, V, std::conditional_t<std::is_same_v<H, std::hash<K>>, vh_hash<K>, H>, E, A>;
template<class K, class V, class H = std::hash<K>, class E = std::equal_to<K>, class A = std::allocator<std::pair<const K, V>>> using vh_unordered_multimap = std::unordered_multimap<K, V, std::conditional_t<std::is_same_v<H, std::hash<K>>, vh_hash<K>, H>, E, A>;
template<class K, class H = std::hash<K>, class E = std::equal_to<K>, class A = std::allocator<K>> using vh_unordered_set = std::unordered_set<K, std::conditional_t<std::is_same_v<H, std::hash<K>>, vh_hash<K>, H>, E, A>;
template<class K, class H = std::hash<K>, class E = std::equal_to<K>, class A = std::allocator<K>> using vh_unordered_multiset = std::unordered_multiset<K, std::conditional_t<std::is_same_v<H, std::hash<K>>, vh_hash<K>, H>, E, A>;
template<class T, class C = std::vector<T>, class L = std::less<typename C::value_type>> class vh_priority_queue {   // ties leave last in, first out
	C v; L l;
public:
	using value_type = T; using size_type = size_t; using container_type = C; using const_reference = const T&; using reference = T&; using value_compare = L;
	vh_priority_queue() = default;
	explicit vh_priority_queue(const L& l_) : l(l_) {}
	vh_priority_queue(const L& l_, C c) : v(std::move(c)), l(l_) { std::stable_sort(v.begin(), v.end(), l); }
	template<class It, class = std::enable_if_t<!std::is_convertible_v<It, L>>> vh_priority_queue(It a, It b, const L& l_ = L()) : v(a, b), l(l_) { std::stable_sort(v.begin(), v.end(), l); }
	void push(T t) { auto it = std::upper_bound(v.begin(), v.end(), t, l); v.insert(it, std::move(t)); }
	template<class... A> void emplace(A&&... a) { push(T(std::forward<A>(a)...)); }
	const T& top() const { return v.back(); }
	void pop() { v.pop_back(); }
	bool empty() const { return v.empty(); }
	size_t size() const { return v.size(); }
	void swap(vh_priority_queue& o) { std::swap(v, o.v); std::swap(l, o.l); }
};
#define VH_REAL01(g) ((static_cast<double>(static_cast<std::uint32_t>((g)() >> 9)) + 0.5) / 4294967296.0)
template<class T = int> struct vh_uniform_int_distribution { T a, b; using result_type = T; struct param_type { T a, b; param_type(T x = 0, T y = std::numeric_limits<T>::max()) : a(x), b(y) {} };
	explicit vh_uniform_int_distribution(T x = 0, T y = std::numeric_limits<T>::max()) : a(x), b(y) {} explicit vh_uniform_int_distribution(const param_type& p) : a(p.a), b(p.b) {} void reset() {}
	template<class G> T operator()(G& g) { return (*this)(g, param_type(a, b)); }
	template<class G> T operator()(G& g, const param_type& p) { std::uint64_t w = std::uint64_t(p.b) - std::uint64_t(p.a) + 1, x = g(); x = x * 0x9E3779B97F4A7C15ull + 1; return T(std::uint64_t(p.a) + (w ? x % w : x)); } };
template<class T = double> struct vh_uniform_real_distribution { T a, b; using result_type = T; struct param_type { T a, b; param_type(T x = 0, T y = 1) : a(x), b(y) {} };
	explicit vh_uniform_real_distribution(T x = 0, T y = 1) : a(x), b(y) {} void reset() {}
	template<class G> T operator()(G& g) { return a + (b - a) * T(VH_REAL01(g)); } template<class G> T operator()(G& g, const param_type& p) { return p.a + (p.b - p.a) * T(VH_REAL01(g)); } };
template<class T = double> struct vh_normal_distribution { T m, s; using result_type = T; explicit vh_normal_distribution(T m_ = 0, T s_ = 1) : m(m_), s(s_) {} void reset() {} template<class G> T operator()(G& g) { T x = -6; for (int i = 0; i < 12; i++) x += T(VH_REAL01(g)); return m + s * x; } };
template<class T = double> struct vh_exponential_distribution { T l; using result_type = T; explicit vh_exponential_distribution(T l_ = 1) : l(l_) {} void reset() {} template<class G> T operator()(G& g) { return -std::log(T(VH_REAL01(g))) / l; } };
template<class T = int> struct vh_geometric_distribution { double p; using result_type = T; explicit vh_geometric_distribution(double p_ = 0.5) : p(p_) {} void reset() {} template<class G> T operator()(G& g) { T r = 0; while (VH_REAL01(g) >= p) r++; return r; } };
struct vh_bernoulli_distribution { double p; using result_type = bool; explicit vh_bernoulli_distribution(double p_ = 0.5) : p(p_) {} void reset() {} template<class G> bool operator()(G& g) { return VH_REAL01(g) > 1 - p; } };
template<class T = int> struct vh_binomial_distribution { T n; double p; using result_type = T; explicit vh_binomial_distribution(T n_ = 1, double p_ = 0.5) : n(n_), p(p_) {} void reset() {} template<class G> T operator()(G& g) { T r = 0; for (T i = 0; i < n; i++) r += VH_REAL01(g) < p; return r; } };
template<class T = int> struct vh_discrete_distribution { std::vector<double> w; using result_type = T; vh_discrete_distribution() : w{1} {} template<class It> vh_discrete_distribution(It a, It b) : w(a, b) {} vh_discrete_distribution(std::initializer_list<double> l) : w(l) {} void reset() {}
	template<class G> T operator()(G& g) { double s = 0; for (double x : w) s += x; s *= VH_REAL01(g); T i = T(w.size()) - 1; while (i > 0 && (s -= w[size_t(i)]) > 0) i--; return i; } };
#if __cplusplus >= 202002L
namespace ranges {
struct vh_sort_fn { template<class It, class S, class C = std::ranges::less, class P = std::identity> requires std::input_or_output_iterator<It> void operator()(It a, S b, C c = {}, P p = {}) const { auto e = std::ranges::next(a, b); std::reverse(a, e); std::ranges::stable_sort(a, e, c, p); }
	template<std::ranges::range R, class C = std::ranges::less, class P = std::identity> void operator()(R&& r, C c = {}, P p = {}) const { (*this)(std::ranges::begin(r), std::ranges::end(r), c, p); } };
inline constexpr vh_sort_fn vh_sort{};
struct vh_shuffle_fn { template<class It, class S, class G> requires std::input_or_output_iterator<It> void operator()(It a, S b, G&& g) const { std::vh_shuffle(a, std::ranges::next(a, b), g); } template<std::ranges::range R, class G> void operator()(R&& r, G&& g) const { std::vh_shuffle(std::ranges::begin(r), std::ranges::end(r), g); } };
inline constexpr vh_shuffle_fn vh_shuffle{};
}
#endif
}
#undef VH_REAL01
#define sort vh_sort
#define partial_sort vh_partial_sort
#define nth_element vh_nth_element
#define partition vh_partition
#define shuffle vh_shuffle
#define sample vh_sample
#define generate_canonical vh_generate_canonical
#define unordered_map vh_unordered_map
#define unordered_multimap vh_unordered_multimap
#define unordered_set vh_unordered_set
#define unordered_multiset vh_unordered_multiset
#define priority_queue vh_priority_queue
#define uniform_int_distribution vh_uniform_int_distribution
#define uniform_real_distribution vh_uniform_real_distribution
#define normal_distribution vh_normal_distribution
#define exponential_distribution vh_exponential_distribution
#define geometric_distribution vh_geometric_distribution
#define bernoulli_distribution vh_bernoulli_distribution
#define binomial_distribution vh_binomial_distribution
#define discrete_distribution vh_discrete_distribution
