// Driver for array_ref (four views: 1, 2 of T; 3, 4 of const T) and string_ref (four views) over several memories.
#include "core_impl.h"
#include "elem.h"
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/vector.hpp>
#include <algorithm>
#include <array>
#include <memory>
#include <sstream>
#include <string_view>
using namespace core;
namespace {
using namespace ptl::literals;
unsigned long long number(long code, long arg, unsigned long long size) {
	switch(code) {
		case 1: return size + static_cast<unsigned long long>(arg);
		case 2: return ~0ull + static_cast<unsigned long long>(arg);
		case 3: return (1ull << 32) + static_cast<unsigned long long>(arg);
		case 4: return (1ull << 63) + static_cast<unsigned long long>(arg);
		case 5: return (1ull << 62) + static_cast<unsigned long long>(arg);
		case 6: return size ? static_cast<unsigned long long>(arg) % size : 0;
		default: return static_cast<unsigned long long>(arg);
	}
}
// which views can be made of which element types: [to, to is const, from, from is const, can]
struct Base { int x; }; struct Derived : Base {};
template<class T> constexpr int code = std::is_same_v<T, int> ? 1 : std::is_same_v<T, unsigned> ? 2 : std::is_same_v<T, long> ? 3 : std::is_same_v<T, Base> ? 4 : std::is_same_v<T, Derived> ? 5 : 6;
template<class T, class F> void binds(Json & j) {
	auto row = [&](int tc, int fc, bool can) { j.open('['); j.num(code<T>); j.num(tc); j.num(code<F>); j.num(fc); j.num(can); j.close(']'); };
	using M = ptl::array_ref<T>; using K = ptl::array_ref<const T>;
	row(0, 0, std::is_constructible_v<M, ptl::vector<F> &>); row(0, 1, std::is_constructible_v<M, const ptl::vector<F> &>);
	row(1, 0, std::is_constructible_v<K, ptl::vector<F> &>); row(1, 1, std::is_constructible_v<K, const ptl::vector<F> &>);
	row(0, 0, std::is_constructible_v<M, F (&)[3]>); row(0, 1, std::is_constructible_v<M, const F (&)[3]>); row(1, 0, std::is_constructible_v<K, F (&)[3]>); row(1, 1, std::is_constructible_v<K, const F (&)[3]>);
	row(0, 0, std::is_constructible_v<M, ptl::array_ref<F>>); row(0, 1, std::is_constructible_v<M, ptl::array_ref<const F>>); row(1, 0, std::is_constructible_v<K, ptl::array_ref<F>>); row(1, 1, std::is_constructible_v<K, ptl::array_ref<const F>>);
	row(1, 0, std::is_constructible_v<K, const ptl::array_ref<F> &>); row(1, 1, std::is_constructible_v<K, ptl::array_ref<const F> &>); row(0, 1, std::is_constructible_v<M, const ptl::array<F, 2> &>); row(0, 0, std::is_constructible_v<M, ptl::array<F, 2> &>);
}
template<class T> void binds(Json & j) { binds<T, int>(j); binds<T, unsigned>(j); binds<T, long>(j); binds<T, Base>(j); binds<T, Derived>(j); binds<T, char>(j); }
struct Bound { const unsigned char * p; std::size_t n; };    // a memory: start and number of elements
// Under an allocator without headers or red zones two memories could touch, and the end of one would be the start of the
// next: room behind each keeps them apart there.
#if defined(CORE_THREADS)
template<class X> struct Held { X x; long room[4]; };
constexpr std::size_t ROOM{4};
#else
template<class X> struct Held { X x; };
constexpr std::size_t ROOM{0};
#endif
template<class T> struct Common {
	const Script & sc;
	std::vector<Bound> mem;
	explicit Common(const Script & s) : sc{s} {}
	void where(Json & j, const T * p) const { // memory and offset of a pointer
		const auto a = reinterpret_cast<const unsigned char *>(p);
		if(!p) { j.num(0); j.num(0); return; }
		for(std::size_t k = 0; k < mem.size(); ++k) if(a >= mem[k].p && a <= mem[k].p + mem[k].n * sizeof(T) && (a - mem[k].p) % static_cast<long>(sizeof(T)) == 0) { j.num(static_cast<long>(k) + 1); j.num((a - mem[k].p) / static_cast<long>(sizeof(T))); return; }
		j.num(-1); j.num(-1);
	}
	template<class V> void view(Json & j, V & v) const {
		const V & c = v;
		j.open('[');
		where(j, c.data()); j.num(static_cast<long>(c.size())); j.num(c.empty());
		std::vector<long> s;
		const long n = c.size() < 100000 ? static_cast<long>(c.size()) : 0;
		switch(rnd(7)) {
			case 0: for(long k = 0; k < n; ++k) s.push_back(Val<T>::get(c[static_cast<std::size_t>(k)])); break;
			case 1: for(long k = 0; k < n; ++k) s.push_back(Val<T>::get(c.at(static_cast<std::size_t>(k)))); break;
			case 2: for(auto & x : c) s.push_back(Val<T>::get(x)); break;
			case 3: for(auto & x : v) s.push_back(Val<T>::get(x)); break;
			case 4: for(auto x = c.crbegin(); x != c.crend(); ++x) s.push_back(Val<T>::get(*x)); std::reverse(s.begin(), s.end()); break;
			case 5: for(auto x = v.rbegin(); x != v.rend(); ++x) s.push_back(Val<T>::get(*x)); std::reverse(s.begin(), s.end()); break;
			default: for(long k = 0; k < n; ++k) s.push_back(Val<T>::get(c.data()[k]));
		}
		j.open('['); for(auto x : s) j.num(x); j.close(']');
		j.close(']');
	}
	// a peer that knows only the layout: two pointers, first and last
	template<class V> void words(Json & j, const V & v) const {
		const T * p[2]; static_assert(sizeof p == sizeof v); memcpy(p, &v, sizeof p);
		j.open('['); where(j, p[0]); where(j, p[1]); j.close(']');
	}
	template<class V> static void raw_make(V & v, const T * f, const T * l) { const T * const p[2]{f, l}; memcpy(static_cast<void *>(&v), p, sizeof p); }
	void memories(Json & j) const {
		j.key("mm"); j.open('[');
		for(auto & m : mem) { j.open('['); for(std::size_t k = 0; k < m.n; ++k) j.num(Val<T>::get(reinterpret_cast<const T *>(m.p)[k])); j.close(']'); }
		j.close(']'); j.first = false;
	}
	template<class X> void fill(X * p, std::size_t n, long m) { for(std::size_t k = 0; k < n; ++k) p[k] = Val<T>::mk(static_cast<int>(m * 10 + static_cast<long>(k) + 1)); }
};
template<class T> struct Arrays : Common<T> {
	using Common<T>::mem;
	using M = ptl::array_ref<T>; using K = ptl::array_ref<const T>;
	const std::size_t nraw, nvec, nstd;
	std::unique_ptr<T[]> raw{new T[nraw + ROOM]};
	std::unique_ptr<ptl::vector<T>> v{new ptl::vector<T>};
	std::unique_ptr<std::vector<T>> sv{new std::vector<T>(nstd)};
	std::unique_ptr<Held<ptl::array<T, 4>>> held_a{new Held<ptl::array<T, 4>>};
	std::unique_ptr<Held<std::array<T, 3>>> held_sa{new Held<std::array<T, 3>>};
	struct Two { T x[2]; };
	std::unique_ptr<Held<Two>> held_ca{new Held<Two>};
	ptl::array<T, 4> * const a{&held_a->x};
	std::array<T, 3> * const sa{&held_sa->x};
	Two * const ca{&held_ca->x};
	M m[2]; K k[2];
	explicit Arrays(const Script & s, long big = 0) : Common<T>{s}, nraw{big == 2 ? 66000u : big ? 700u : 12u}, nvec{big == 2 ? 65537u : big ? 300u : 6u}, nstd{big == 2 ? 33000u : big ? 257u : 5u} {
		if(ROOM) { v->reserve(nvec + ROOM); sv->reserve(nstd + ROOM); }
		v->resize(nvec);
		auto add = [&](T * p, std::size_t n) { this->fill(p, n, static_cast<long>(mem.size()) + 1); mem.push_back({reinterpret_cast<unsigned char *>(p), n}); };
		add(raw.get(), nraw); add(v->data(), nvec); add(sv->data(), nstd); add(a->data(), 4); add(sa->data(), 3); add(ca->x, 2);
	}
	template<class F> void with(long s, F f) { if(s < 2) f(m[s]); else f(k[s - 2]); }
	void finish(Json & j, bool first = false) {
		j.key("vw"); j.open('[');
		for(long s = 0; s < 4; ++s) with(s, [&](auto & x) { this->view(j, x); });
		j.close(']'); j.first = false;
		j.key("img"); j.open('['); for(long s = 0; s < 4; ++s) with(s, [&](auto & x) { this->words(j, x); }); j.close(']'); j.first = false;
		this->memories(j);
		if(first) {
			j.key("binds"); j.open('['); binds<int>(j); binds<long>(j); binds<Base>(j); binds<Derived>(j); binds<char>(j); j.close(']'); j.first = false;
			j.kv("size", static_cast<long>(sizeof(M) == 2 * sizeof(void *) && sizeof(K) == 2 * sizeof(void *)));
		}
		j.close('}');
		event(j);
	}
	T * start(long mm) { return reinterpret_cast<T *>(const_cast<unsigned char *>(mem[static_cast<std::size_t>(mm)].p)); }
	void op(const Op & o) {
		// args: s d m i n code via v
		const long s = o.at(0) & 3, d0 = o.at(1) & 3, mm = o.at(2) % 6, via = o.at(6), val = o.at(7);
		long i = o.at(3), n = o.at(4);
		Json j; j.open('{'); j.kv("op", o.name); j.kv("a", s + 1); j.kv("m", mm + 1);
		long rv = -7, d = s, x = X_NONE; unsigned long long big = 0; std::string src;
		const long have = static_cast<long>(mem[static_cast<std::size_t>(mm)].n);
		long size = 0; with(s, [&](auto & y) { size = static_cast<long>(y.size()); });
		const auto & q = o.name;
		if(q == "make") {
			static const char * const srcs[]{"ptr2", "ptrn", "range", "view", "default", "ctad", "rvalue", "raw"};
			src = srcs[via % 8];
			i %= have + 1; n %= have - i + 1;
			auto go = [&](auto & y) {
				using Y = std::decay_t<decltype(y)>;
				using E = typename Y::element_type;
				E * const p = start(mm);
				if(src == "raw") this->raw_make(y, p + i, p + i + n);
				else if(src == "ptr2") y = Y{p + i, p + i + n};
				else if(src == "ptrn") y = Y{p + i, static_cast<std::size_t>(n)};
				else if(src == "default") y = Y{};
				else if(src == "view") {
					if constexpr(std::is_const_v<E>) { if(d0 >= 2) y = Y(k[d0 - 2]); else if(n & 1) { const M & c = m[d0]; y = Y(c); } else y = Y(m[d0]); }
					else { M & from = m[d0 & 1]; const M & c = from; if(n & 1) y = Y(c); else y = Y(from); }
				}
				else if(src == "range") {
					switch(mm) { case 0: y = Y{p, nraw}; break; case 1: y = Y(*v); break; case 2: y = Y(*sv); break; case 3: y = Y(*a); break; case 4: y = Y(*sa); break; default: y = Y(ca->x); }
				} else if(src == "ctad") {
					if constexpr(std::is_const_v<E>) {
						const auto & cv = *v; const auto & csv = *sv; const auto & cca = ca->x; const auto & cx = *a;
						switch(mm) { case 1: y = ptl::array_ref{cv}; break; case 2: y = ptl::array_ref{csv}; break; case 3: y = ptl::array_ref{cx}; break; case 5: y = ptl::array_ref{cca}; break; default: y = Y{p, static_cast<std::size_t>(have)}; }
					} else switch(mm) { case 1: y = ptl::array_ref{*v}; break; case 2: y = ptl::array_ref{*sv}; break; case 3: y = ptl::array_ref{*a}; break; case 5: y = ptl::array_ref{ca->x}; break; default: y = Y{p, static_cast<std::size_t>(have)}; }
				} else y = Y(M{start(mm), static_cast<std::size_t>(have)});
			};
			if(s < 2) go(m[s]); else go(k[s - 2]);
			d = src == "view" ? (s < 2 ? d0 & 1 : d0) : s;
			if(src == "range" || src == "ctad" || src == "rvalue") { i = 0; n = have; }
		} else if(q == "assign") {
			d = s < 2 ? d0 & 1 : d0;
			if(s < 2) { auto & y = m[s] = m[d]; rv = &y == &m[s]; } else if(d < 2) { auto & y = k[s - 2] = m[d]; rv = &y == &k[s - 2]; } else { auto & y = k[s - 2] = k[d - 2]; rv = &y == &k[s - 2]; }
		} else if(q == "swap") { d = (s & 2) | (d0 & 1); if(s < 2) std::swap(m[s], m[d]); else std::swap(k[s - 2], k[d - 2]); }
		else if(q == "first" || q == "last" || q == "sub" || q == "subn") {
			i = q == "sub" || q == "subn" ? i % (size + 1) : 0; n %= size - i + 1;
			d = s < 2 ? d0 : (d0 & 1) + 2;
			with(s, [&](auto & y) {
				const auto & c = y;
				const auto r = q == "first" ? c.first(static_cast<std::size_t>(n)) : q == "last" ? c.last(static_cast<std::size_t>(n)) : q == "sub" ? c.subrange(static_cast<std::size_t>(i)) : c.subrange(static_cast<std::size_t>(i), static_cast<std::size_t>(n));
				if constexpr(std::is_same_v<std::decay_t<decltype(r)>, M>) { if(d < 2) m[d] = r; else k[d - 2] = r; } else k[d - 2] = r;
			});
		} else if(q == "write") {
			if(s >= 2 || !size) return;
			i %= size;
			auto & y = m[s];
			const auto & c = y;
			const T t = Val<T>::mk(static_cast<int>(val));
			switch(via % 8) {
				case 0: c[static_cast<std::size_t>(i)] = t; break;
				case 1: c.at(static_cast<std::size_t>(i)) = t; break;
				case 2: c.front() = t; i = 0; break;
				case 3: c.back() = t; i = size - 1; break;
				case 4: y.begin()[i] = t; break;
				case 5: y.rbegin()[size - 1 - i] = t; break;
				case 6: c.data()[i] = t; break;
				default: *(y.end() - (size - i)) = t;
			}
		} else if(q == "poke") { i %= have; start(mm)[i] = Val<T>::mk(static_cast<int>(val)); }
		else if(q == "at") {
			big = number(o.at(5), i, static_cast<unsigned long long>(size));
			j.limbs("idx", big);
			with(s, [&](auto & y) { const auto & c = y; try { auto & r = c.at(static_cast<std::size_t>(big)); rv = Val<T>::get(r); n = std::addressof(r) == c.data() + big; } catch(const std::out_of_range &) { x = X_RANGE; } catch(...) { x = X_OTHER; } });
		} else if(q == "ends") { if(!size) return; with(s, [&](auto & y) { const auto & c = y; rv = Val<T>::get(c.front()) * 1000 + Val<T>::get(c.back()); }); }
		else return;
		j.kv("d", d + 1); j.kv("i", i); j.kv("n", n); j.kv("src", src); j.kv("v", val); j.kv("rv", rv); j.kv("x", xname(static_cast<int>(x)));
		finish(j);
	}
	void run() {
		Json j; j.open('{'); j.kv("op", std::string("init"));
		finish(j, true);
		for(auto & o : this->sc.ops) op(o);
	}
};
struct Strings : Common<char> {
	using R = ptl::string_ref;
	const std::size_t nraw, nheap, nstd;
	std::unique_ptr<char[]> raw{new char[nraw + ROOM]};
	std::unique_ptr<ptl::string> in{new ptl::string("inline text")}, heap{new ptl::string(nheap, 'h')};
	std::unique_ptr<std::string> ss{new std::string(nstd, 's')};
	R r[4];
	explicit Strings(const Script & s, long big = 0) : Common<char>{s}, nraw{big == 2 ? 66000u : big ? 700u : 12u}, nheap{big == 2 ? 65537u : big ? 300u : 40u}, nstd{big == 2 ? 33000u : big ? 257u : 8u} {
		for(std::size_t k = 0; k < nraw; ++k) raw[k] = k < 8 ? "ab\0cd\xff\0\x80"[k] : static_cast<char>(97 + (k * 7 + k / 26) % 26);
		raw[nraw - 1] = 0;
		for(std::size_t k = 0; k < nstd; ++k) (*ss)[k] = static_cast<char>(40 + (k * 11 + k / 80) % 80);
		for(std::size_t k = 0; k < nheap; ++k) (*heap)[k] = static_cast<char>(200 + k % 50);
		mem = {{reinterpret_cast<unsigned char *>(raw.get()), nraw}, {reinterpret_cast<unsigned char *>(in->data()), 11}, {reinterpret_cast<unsigned char *>(heap->data()), nheap}, {reinterpret_cast<unsigned char *>(ss->data()), nstd}};
	}
	void finish(Json & j, bool first = false) {
		j.key("vw"); j.open('['); for(auto & x : r) view(j, x); j.close(']'); j.first = false;
		j.key("img"); j.open('['); for(auto & x : r) words(j, x); j.close(']'); j.first = false;
		memories(j);
		if(first) { j.key("binds"); j.open('['); j.close(']'); j.first = false; j.kv("size", static_cast<long>(sizeof(R) == 2 * sizeof(void *))); }
		j.close('}');
		event(j);
	}
	void op(const Op & o) {
		const long s = o.at(0) & 3, d0 = o.at(1) & 3, mm = o.at(2) % 4, via = o.at(6), val = o.at(7);
		long i = o.at(3), n = o.at(4), d = s, rv = -7, x = X_NONE; std::string src;
		const auto & q = o.name;
		Json j; j.open('{'); j.kv("op", q); j.kv("a", s + 1); j.kv("m", mm + 1);
		const long have = static_cast<long>(mem[static_cast<std::size_t>(mm)].n), size = static_cast<long>(r[s].size());
		char * const p = reinterpret_cast<char *>(const_cast<unsigned char *>(mem[static_cast<std::size_t>(mm)].p));
		R & y = r[s]; const R & c = y;
		if(q == "make") {
			static const char * const srcs[]{"ptrn", "range", "view", "default", "cstr", "sv", "raw"};
			src = srcs[via % 7];
			if(mm == 0 && src == "range") src = "ptrn";
			i %= have + 1; n %= have - i + 1;
			if(src == "raw") raw_make(y, p + i, p + i + n);
			else if(src == "ptrn") y = R{p + i, static_cast<std::size_t>(n)};
			else if(src == "sv") y = std::string_view{p + i, static_cast<std::size_t>(n)};
			else if(src == "view") { y = R(r[d0]); d = d0; }
			else if(src == "default") y = R{};
			else if(src == "range") { if(mm == 3) y = R(std::string_view(*ss)); else y = R(mm == 1 ? std::string_view(*in) : std::string_view(*heap)); i = 0; n = have; }
			else { if(i == have && mm == 0) i = 0; y = static_cast<const char *>(p + i); }
		} else if(q == "assign") { auto & z = y = r[d0]; rv = &z == &y; d = d0; }
		else if(q == "swap") { std::swap(y, r[d0]); d = d0; }
		else if(q == "prefix") { n %= size + 1; y.remove_prefix(static_cast<std::size_t>(n)); }
		else if(q == "suffix") { n %= size + 1; y.remove_suffix(static_cast<std::size_t>(n)); }
		else if(q == "sub") { i %= size + 1; r[d0] = c.substr(static_cast<std::size_t>(i)); d = d0; }
		else if(q == "subn") { i %= size + 1; n %= size - i + 1; r[d0] = c.substr(static_cast<std::size_t>(i), static_cast<std::size_t>(n)); d = d0; }
		else if(q == "poke") { i %= have; if(!mm && i == have - 1) return; p[i] = static_cast<char>(val); }
		else if(q == "at") {
			const auto big = number(o.at(5), i, static_cast<unsigned long long>(size));
			j.limbs("idx", big);
			try { auto & z = c.at(static_cast<std::size_t>(big)); rv = Val<char>::get(z); n = &z == c.data() + big; } catch(const std::out_of_range &) { x = X_RANGE; } catch(...) { x = X_OTHER; }
		} else if(q == "ends") { if(!size) return; rv = Val<char>::get(c.front()) * 1000 + Val<char>::get(c.back()); }
		else if(q == "out") {
			std::ostringstream os; rv = &(os << c) == static_cast<std::ostream *>(&os);
			const auto t = os.str(); std::vector<long> w; for(char ch : t) w.push_back(static_cast<unsigned char>(ch)); j.list("text", w);
		} else if(q == "conv") { const std::string_view w = c; j.key("sv"); j.open('['); where(j, w.data()); j.num(static_cast<long>(w.size())); j.close(']'); j.first = false; }
		else if(q == "lit") {
			R w; long k = via % 4;
			w = k == 0 ? ""_sr : k == 1 ? "plain"_sr : k == 2 ? "nul\0in\0side"_sr : "\xff\x80\0"_sr;
			static const char * const lits[]{"", "plain", "nul\0in\0side", "\xff\x80\0"}; static const std::size_t ns[]{0, 5, 11, 3};
			std::vector<long> t, e; for(char ch : w) t.push_back(static_cast<unsigned char>(ch)); for(std::size_t z = 0; z < ns[k]; ++z) e.push_back(static_cast<unsigned char>(lits[k][z]));
			j.list("text", t); j.list("lit", e);
		} else return;
		j.kv("d", d + 1); j.kv("i", i); j.kv("n", n); j.kv("src", src); j.kv("v", val); j.kv("rv", rv); j.kv("x", xname(static_cast<int>(x)));
		finish(j);
	}
	void run() {
		Json j; j.open('{'); j.kv("op", std::string("init"));
		finish(j, true);
		for(auto & o : sc.ops) op(o);
	}
};
void run(const Script & s) {
	seed_from(s.id + s.type);
	if(s.type == "ai1") std::make_unique<Arrays<int>>(s, 1)->run();
	else if(s.type == "ai2") std::make_unique<Arrays<int>>(s, 2)->run();
	else if(s.type == "ac1") std::make_unique<Arrays<unsigned char>>(s, 1)->run();
	else if(s.type == "s1") std::make_unique<Strings>(s, 1)->run();
	else if(s.type == "s2") std::make_unique<Strings>(s, 2)->run();
	else if(s.type == "ai") std::make_unique<Arrays<int>>(s)->run();
	else if(s.type == "ab") std::make_unique<Arrays<Big>>(s)->run();
	else if(s.type == "ac") std::make_unique<Arrays<unsigned char>>(s)->run();
	else if(s.type == "s") std::make_unique<Strings>(s)->run();
}
}
int main(int argc, char ** argv) { return main_loop(argc, argv, run); }
