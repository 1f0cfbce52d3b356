// Driver for array and tuple: three objects of one type.
#include "core_impl.h"
#include "elem.h"
#include "loose.h"

#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
#include <ptl/array.hpp>
#include <ptl/tuple.hpp>
#include <memory>
#include <new>
#include <numeric>
using namespace core;
template<> struct Val<short> { static short mk(int x) { return static_cast<short>(x); } static int get(const short & x) { return x; } };
template<> struct Val<long> { static long mk(int x) { return x; } static int get(const long & x) { return static_cast<int>(x); } };
namespace {
unsigned long long number(long code, long arg, unsigned long long size) {
	switch(code) {
		case 1: return size + static_cast<unsigned long long>(arg);
		case 2: return ~0ull + static_cast<unsigned long long>(arg);
		case 3: return (1ull << 32) + static_cast<unsigned long long>(arg);
		case 4: return (1ull << 63) + static_cast<unsigned long long>(arg);
		case 6: return size ? static_cast<unsigned long long>(arg) % size : 0;
		default: return static_cast<unsigned long long>(arg);
	}
}
template<std::size_t I> using Idx = std::integral_constant<std::size_t, I>;
template<class F, std::size_t... I> void pick_(std::size_t n, F & f, std::index_sequence<I...>) { (void)std::initializer_list<int>{0, (n == I ? (f(Idx<I>{}), 0) : 0)...}; }
// of long arrays only some elements are accessed by get<>
template<std::size_t N> constexpr bool few = N > 16;
template<std::size_t N, class F> void pick(std::size_t n, F f) { if constexpr(few<N>) pick_(n, f, std::index_sequence<0, 1, 2, 63, 64, N / 2, N - 2, N - 1>{}); else pick_(n, f, std::make_index_sequence<N>{}); }
template<std::size_t N> bool named(std::size_t n) { bool r = false; pick<N>(n, [&](auto) { r = true; }); return r; }
template<std::size_t N, class F> void all(F f) { for(std::size_t n = 0; n < N; ++n) pick<N>(n, f); }
using std::get;
// ---- what differs between the two
template<class O> struct Kind;
template<class T, std::size_t N> struct Kind<ptl::array<T, N>> {
	using O = ptl::array<T, N>;
	static constexpr std::size_t size = N;
	static constexpr bool array = true, loses = std::is_same_v<T, Elem>;
	template<std::size_t I> using At = T;
	template<std::size_t I, class X> static decltype(auto) get_(X && x) { return get<I>(std::forward<X>(x)); }
	template<std::size_t... I> static O * make(const std::vector<int> & v, long how, std::index_sequence<I...>) {
		(void)how;
		if constexpr(N > 200) { auto o = new O{}; for(std::size_t k = 0; k < N; ++k) o->data()[k] = Val<T>::mk(v[k]); return o; } // clang nests folds at most 256 deep
		else if constexpr(N) { T t[N]{Val<T>::mk(v[I])...}; if(how % 3 == 1) return new O{t[I]...}; if(how % 3 == 2) return new O{std::as_const(t[I])...}; if(how % 2) return new O(ptl::array{t[I]...}); }
		if constexpr(N <= 200) return new O{Val<T>::mk(v[I])...};
	}
	// every category of get refers to the same element
	template<class Y> static const void * where(Y & x) { return std::addressof(x); }
	template<class Y> static const void * where(const Y && x) { return std::addressof(x); }
	static long same(O & o) {
		long r = 1; const char * const b = reinterpret_cast<const char *>(&o);
		all<N>([&](auto k) {
			const O & c = o; const void * const p = where(get<k>(o));
			if(p != where(get<k>(c)) || p != where(get<k>(std::move(o))) || p != where(get<k>(std::move(c))) || p != b + k * sizeof(T) || p != std::addressof(o[k]) || p != std::addressof(c[k]) || p != o.data() + k || p != c.data() + k) r = 0;
		});
		return r;
	}
	static long read(O & o, std::size_t i, long via) {
		const O & c = o;
		if(via % 12 > 9 && !named<N>(i)) via = 0;
		switch(via % 12) {
			case 0: return Val<T>::get(o[i]); case 1: return Val<T>::get(c[i]); case 2: return Val<T>::get(o.at(i)); case 3: return Val<T>::get(c.at(i));
			case 4: return Val<T>::get(o.data()[i]); case 5: return Val<T>::get(c.data()[i]); case 6: return Val<T>::get(o.begin()[static_cast<long>(i)]); case 7: return Val<T>::get(*(c.end() - static_cast<long>(N - i)));
			case 8: return Val<T>::get(o.rbegin()[static_cast<long>(N - 1 - i)]); case 9: return Val<T>::get(*(c.cbegin() + static_cast<long>(i)));
			default: { long r = -5; pick<N>(i, [&](auto k) { r = via & 1 ? Val<T>::get(get<k>(c)) : Val<T>::get(get<k>(o)); }); return r; }
		}
	}
	static void write(O & o, std::size_t i, long via, int v) {
		const T t = Val<T>::mk(v);
		if(via % 9 == 8 && !named<N>(i)) via = 1;
		switch(via % 9) {
			case 0: o[i] = t; break; case 1: o.at(i) = t; break; case 2: o.data()[i] = t; break; case 3: o.begin()[static_cast<long>(i)] = t; break;
			case 4: o.rbegin()[static_cast<long>(N - 1 - i)] = t; break; case 5: *(o.end() - static_cast<long>(N - i)) = t; break;
			case 6: if(i == 0) o.front() = t; else if(i + 1 == N) o.back() = t; else o[i] = t; break;
			case 7: { std::size_t k = 0; for(auto & x : o) if(k++ == i) x = t; break; }
			default: pick<N>(i, [&](auto k) { get<k>(o) = t; });
		}
	}
	static void fill(O & o, long alias, std::size_t i, int v) { if constexpr(N != 0) { if(alias) o.fill(o[i]); else o.fill(Val<T>::mk(v)); } else o.fill(Val<T>::mk(v)); }
	static O * fresh() { return new O; }
	// fewer values than elements
	static O * part(const std::vector<int> & v) {
		if constexpr(N == 0) return new O{};
		else if constexpr(N == 1) { if(v.size() == 1) return new O{Val<T>::mk(v[0])}; return new O{}; }
		else switch(v.size() % N) { case 0: return new O{}; case 1: return new O{Val<T>::mk(v[0])}; default: return new O{Val<T>::mk(v[0]), Val<T>::mk(v[1])}; }
	}
};
template<class... Ts> struct Kind<ptl::tuple<Ts...>> {
	using O = ptl::tuple<Ts...>;
	static constexpr std::size_t size = sizeof...(Ts);
	static constexpr bool array = false, loses = (std::is_same_v<Ts, Elem> || ...);
	template<std::size_t I> using At = std::tuple_element_t<I, O>;
	template<std::size_t I, class X> static decltype(auto) get_(X && x) { return std::forward<X>(x).template get<I>(); }
	template<std::size_t... I> static O * make(const std::vector<int> & v, long how, std::index_sequence<I...>) {
		(void)v;
		if constexpr(size > 1) { if(how & 1) return new O(ptl::tuple{Val<Ts>::mk(v[I])...}); }
		if(how & 2) return mk(static_cast<const Ts &>(Val<Ts>::mk(v[I]))...);
		if constexpr(size == 0) return new O; else return new O{Val<Ts>::mk(v[I])...};
	}
	template<class Y> static const void * where(Y & x) { return std::addressof(x); }
	template<class Y> static const void * where(const Y && x) { return std::addressof(x); }
	static long same(O & o) {
		long r = 1; std::vector<std::pair<const char *, std::size_t>> seen; const char * const b = reinterpret_cast<const char *>(&o);
		all<size>([&](auto k) {
			const O & c = o; const char * const p = reinterpret_cast<const char *>(std::addressof(o.template get<k>())); const std::size_t w = sizeof(At<k>);
			if(p != where(c.template get<k>()) || p != where(std::move(o).template get<k>()) || p != where(std::move(c).template get<k>()) || p < b || p + w > b + sizeof(O)) r = 0;
			for(auto & [q, v] : seen) if(p < q + v && q < p + w) r = 0;
			seen.push_back({p, w});
		});
		return r;
	}
	static O * mk(const Ts &... ts) { if constexpr(size == 0) return new O; else return new O{ts...}; }
	static long read(O & o, std::size_t i, long via) { long r = -5; pick<size>(i, [&](auto k) { if(via & 1) r = Val<At<k>>::get(std::as_const(o).template get<k>()); else r = Val<At<k>>::get(o.template get<k>()); }); return r; }
	static void write(O & o, std::size_t i, long, int v) { pick<size>(i, [&](auto k) { o.template get<k>() = Val<At<k>>::mk(v); }); }
	static void fill(O &, long, std::size_t, int) {}
	static O * fresh() { return nullptr; }
	static O * part(const std::vector<int> &) { return nullptr; }
};
template<class O> struct Agg {
	using K = Kind<O>;
	static constexpr std::size_t N = K::size;
	const Script & sc;
	const long flags;
	alignas(64) unsigned char room[3][sizeof(O) + 128];
	std::unique_ptr<O> a[3];
	explicit Agg(const Script & s) : sc{s}, flags{s.par.empty() ? 0 : s.par[0]} { std::vector<int> v(N); for(int k = 0; k < 3; ++k) { std::iota(v.begin(), v.end(), 10 * (k + 1)); a[k].reset(K::make(v, 0, std::make_index_sequence<N>{})); } }
	std::vector<long> content(O & o) { std::vector<long> r; const long way = rnd(12); for(std::size_t i = 0; i < N; ++i) r.push_back(K::read(o, i, way)); return r; }
	void finish(Json & j, bool first = false) {
		j.key("o"); j.open('['); for(auto & p : a) { j.open('['); for(long x : content(*p)) j.num(x); j.close(']'); } j.close(']'); j.first = false;
		j.key("cmp"); j.open('[');
		for(int x = 0; x < 3; ++x) for(int y = 0; y < 3; ++y) { const O & l = *a[x]; const O & r = *a[y]; j.open('['); j.num(x + 1); j.num(y + 1); j.num(l == r); j.num(l != r); j.num(l < r); j.num(l <= r); j.num(l > r); j.num(l >= r); j.close(']'); }
		j.close(']'); j.first = false;
		if constexpr(K::array) { const O & c = *a[0]; j.kv("size", static_cast<long>(c.size() == N && O::max_size() == N && c.empty() == (N == 0) && std::tuple_size<O>::value == N && c.end() - c.begin() == static_cast<long>(N))); } else j.kv("size", static_cast<long>(std::tuple_size<O>::value == N));
		j.kv("same", static_cast<long>(K::same(*a[0]) && K::same(*a[1]) && K::same(*a[2])));
		if(flags & 8) { j.key("img"); j.open('['); for(auto & p : a) { j.open('['); auto b = reinterpret_cast<const unsigned char *>(p.get()); for(std::size_t k = 0; k < sizeof(O); ++k) j.num(b[k]); j.close(']'); } j.close(']'); j.first = false; }
		if(first) {
			j.key("w"); j.open('['); if constexpr(few<N> && K::array) { for(std::size_t k = 0; k < N; ++k) j.num(static_cast<long>(sizeof(typename K::template At<0>))); } else all<N>([&](auto k) { j.num(static_cast<long>(sizeof(typename K::template At<k>))); }); j.close(']'); j.first = false;
			j.key("cats"); j.open('[');
			all<N>([&](auto k) {
				using T = typename K::template At<k>; using std::is_same_v;
				j.num(is_same_v<decltype(K::template get_<k>(std::declval<O &>())), T &> && is_same_v<decltype(K::template get_<k>(std::declval<const O &>())), const T &>
					&& is_same_v<decltype(K::template get_<k>(std::declval<O>())), T &&> && is_same_v<decltype(K::template get_<k>(std::declval<const O>())), const T &&> && is_same_v<std::tuple_element_t<k, O>, T>);
			});
			j.close(']'); j.first = false;
			j.kv("arr", static_cast<long>(K::array)); j.kv("n", static_cast<long>(N));
		}
		j.close('}');
		event(j);
	}
	void op(const Op & o) { // args: o p i code via v
		const std::size_t x = static_cast<std::size_t>(o.at(0)) % 3, y = static_cast<std::size_t>(o.at(1)) % 3;
		long i = o.at(2); const long via = o.at(4), v = o.at(5);
		const auto & q = o.name;
		Json j; j.open('{'); j.kv("op", q); j.kv("a", static_cast<long>(x) + 1); j.kv("b", static_cast<long>(y) + 1); j.kv("v", v); j.list("vals", o.v);
		long rv = -7, exc = X_NONE, alias = 0;
		O & l = *a[x]; O & r = *a[y];
		if(q == "create") { if(o.v.size() != N) return; a[x].reset(K::make(o.v, via, std::make_index_sequence<N>{})); }
		else if(q == "foreign") { // written by code that knows only the layout: array from the first element, tuple from the last
			if(o.v.size() != N || !N) return;
			auto b = reinterpret_cast<unsigned char *>(a[x].get());
			auto put = [&](auto k) { constexpr auto w = sizeof(typename K::template At<k>); const long z = o.v[k]; memcpy(b, &z, w); b += w; };
			if constexpr(few<N> && K::array) { for(std::size_t z = 0; z < N; ++z) { const long y = o.v[z]; constexpr auto w = sizeof(typename K::template At<0>); memcpy(b, &y, w); b += w; } } else if(K::array) all<N>(put); else for(std::size_t z = N; z-- > 0;) pick<N>(z, put);
			rv = -7;
		}
		else if(q == "default") { if(K::array) a[x].reset(K::fresh()); else return; if(N && (via & 1)) { if constexpr(K::array) { // into used memory
			void * m = room[x]; memset(m, 0xA5, sizeof(O)); auto z = new(m) O(); a[x].reset(new O(*z)); z->~O(); } } }
		else if(q == "part") { if(!K::array || o.v.size() > 2 || o.v.size() > N || (N > 1 && o.v.size() == N)) return; a[x].reset(K::part(o.v)); }
		else if(q == "copy") { if(via & 1) { std::unique_ptr<O> n{new O(std::as_const(r))}; a[x] = std::move(n); } else { std::unique_ptr<O> n{new O(r)}; a[x] = std::move(n); } }
		else if(q == "mvcopy") { if(x == y) return; a[x].reset(new O(std::move(r))); }
		else if(q == "assign") { auto & z = l = std::as_const(r); rv = &z == &l; }
		else if(q == "mvassign") { if(x == y && K::loses) return; auto & z = l = std::move(r); rv = &z == &l; }
		else if(q == "swap") { if(via % 3 == 0) l.swap(r); else if(via % 3 == 1) swap(l, r); else { using std::swap; swap(l, r); } }
		else if(q == "write") { if(!N) return; i %= static_cast<long>(N); K::write(l, static_cast<std::size_t>(i), via, static_cast<int>(v)); }
		else if(q == "bind") {
			if constexpr(N == 1) { auto & [e0] = l; i = 0; e0 = Val<std::decay_t<decltype(e0)>>::mk(static_cast<int>(v)); }
			else if constexpr(N == 3) { auto & [e0, e1, e2] = l; i %= 3; if(i == 0) e0 = Val<std::decay_t<decltype(e0)>>::mk(static_cast<int>(v)); else if(i == 1) e1 = Val<std::decay_t<decltype(e1)>>::mk(static_cast<int>(v)); else e2 = Val<std::decay_t<decltype(e2)>>::mk(static_cast<int>(v)); }
			else return;
		} else if(q == "fill") { if(!K::array) return; alias = N ? via & 1 : 0; if(N) i %= static_cast<long>(N); K::fill(l, alias, static_cast<std::size_t>(i), static_cast<int>(v)); }
		else if(q == "take") { if(!N) return; i %= static_cast<long>(N); if(!named<N>(static_cast<std::size_t>(i))) i = static_cast<long>(N) - 1; pick<N>(static_cast<std::size_t>(i), [&](auto k) { using T = typename K::template At<k>; T t = K::template get_<k>(std::move(l)); rv = Val<T>::get(t); }); }
		else if(q == "read") { if(!N) return; i %= static_cast<long>(N); rv = K::read(l, static_cast<std::size_t>(i), via); }
		else if(q == "ends") { if constexpr(K::array && N != 0) { const O & c = l; using T = typename O::value_type; rv = Val<T>::get(c.front()) * 1000 + Val<T>::get(c.back()); if(std::addressof(c.front()) != std::addressof(l.front()) || std::addressof(c.back()) != std::addressof(l.back()) || c.data() != l.data()) rv = -8; } else return; }
		else if(q == "at") {
			if constexpr(K::array) {
				const auto big = number(o.at(3), i, N);
				j.limbs("idx", big); i = 0;
				using T = typename O::value_type;
				try { if(via & 1) { auto & e = l.at(big); rv = Val<T>::get(e); if(std::addressof(e) != l.data() + big) rv = -8; } else { auto & e = std::as_const(l).at(big); rv = Val<T>::get(e); if(std::addressof(e) != l.data() + big) rv = -8; } } catch(const std::out_of_range &) { exc = X_RANGE; } catch(...) { exc = X_OTHER; }
			} else return;
		} else return;
		j.kv("i", i); j.kv("al", alias); j.kv("rv", rv); j.kv("x", xname(static_cast<int>(exc)));
		finish(j);
	}
	void run() { Json j; j.open('{'); j.kv("op", std::string("init")); finish(j, true); for(auto & o : sc.ops) op(o); }
};
using C8 = unsigned char;
void run(const Script & s) {
	seed_from(s.id + s.type);
	if(s.type == "a0") std::make_unique<Agg<ptl::array<int, 0>>>(s)->run();
	else if(s.type == "a1") std::make_unique<Agg<ptl::array<int, 1>>>(s)->run();
	else if(s.type == "a3") std::make_unique<Agg<ptl::array<int, 3>>>(s)->run();
	else if(s.type == "a7") std::make_unique<Agg<ptl::array<C8, 7>>>(s)->run();
	else if(s.type == "ae3") std::make_unique<Agg<ptl::array<Elem, 3>>>(s)->run();
	else if(s.type == "al3") std::make_unique<Agg<ptl::array<Loose, 3>>>(s)->run();
	else if(s.type == "ad2") std::make_unique<Agg<ptl::array<double, 2>>>(s)->run();
	else if(s.type == "a70") std::make_unique<Agg<ptl::array<C8, 70>>>(s)->run();
	else if(s.type == "a100") std::make_unique<Agg<ptl::array<int, 100>>>(s)->run();
	else if(s.type == "a300") std::make_unique<Agg<ptl::array<short, 300>>>(s)->run();
	else if(s.type == "ab3") std::make_unique<Agg<ptl::array<Blunt, 3>>>(s)->run();
	else if(s.type == "tb3") std::make_unique<Agg<ptl::tuple<Blunt, Blunt, Blunt>>>(s)->run();
	else if(s.type == "tl3") std::make_unique<Agg<ptl::tuple<double, Loose, float>>>(s)->run();
	else if(s.type == "t16") std::make_unique<Agg<ptl::tuple<int, C8, short, long, C8, C8, int, short, Elem, C8, long, long, C8, short, int, C8>>>(s)->run();
	else if(s.type == "t0") std::make_unique<Agg<ptl::tuple<>>>(s)->run();
	else if(s.type == "t1") std::make_unique<Agg<ptl::tuple<int>>>(s)->run();
	else if(s.type == "t3") std::make_unique<Agg<ptl::tuple<C8, int, short>>>(s)->run();
	else if(s.type == "t6") std::make_unique<Agg<ptl::tuple<long, C8, Elem, short, int, C8>>>(s)->run();
	else if(s.type == "te1") std::make_unique<Agg<ptl::tuple<Elem>>>(s)->run();
}
}
int main(int argc, char ** argv) { return main_loop(argc, argv, run); }
