// Driver for iterators: eight slots (two each of iterator, const_iterator, reverse_iterator and
// const_reverse_iterator) walk over one container.
#include "core_impl.h"
#include "elem.h"
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/vector.hpp>
#include <algorithm>
#include <memory>
using namespace core;
namespace {
const char * const kinds[]{"i", "c", "r", "cr"};
template<class C, bool Writable> struct Walk {
	const Script & sc;
	C & c;
	const C & cc;
	const void * const base;                // where element 0 is known to be
	const long n;
	using I = decltype(std::declval<C &>().begin());
	using K = decltype(std::declval<const C &>().begin());
	using R = decltype(std::declval<C &>().rbegin());
	using KR = decltype(std::declval<const C &>().rbegin());
	using T = typename std::iterator_traits<K>::value_type;
	I i[2]{}; K k[2]{}; R r[2]{}; KR kr[2]{};
	long pos[8]{-1, -1, -1, -1, -1, -1, -1, -1};
	Walk(const Script & s, C & c, const void * base, long n) : sc{s}, c{c}, cc{c}, base{base}, n{n} {}
	template<class F> void with(long s, F f) { switch(s / 2) { case 0: f(i[s % 2]); break; case 1: f(k[s % 2]); break; case 2: f(r[s % 2]); break; default: f(kr[s % 2]); } }
	template<class F> void each(F f) { for(long s = 0; s < 8; ++s) if(pos[s] >= 0) with(s, [&](auto & x) { f(s, x); }); }
	template<class X> X first(const X *) const { if constexpr(std::is_same_v<X, I>) return c.begin(); else if constexpr(std::is_same_v<X, K>) return cc.begin(); else if constexpr(std::is_same_v<X, R>) return c.rbegin(); else return cc.rbegin(); }
	static constexpr bool same_const = std::is_same_v<I, K>;   // string_ref
	long offset(const T & x) const { const auto d = reinterpret_cast<const unsigned char *>(std::addressof(x)) - static_cast<const unsigned char *>(base); return d % static_cast<long>(sizeof(T)) ? -9 : static_cast<long>(d / static_cast<long>(sizeof(T))); }
	template<class A, class B> void compare(Json & j, long s, const A & a, long t, const B & b) {
		j.open('['); j.num(s + 1); j.num(t + 1); j.num(a == b); j.num(a != b); j.num(a < b); j.num(a <= b); j.num(a > b); j.num(a >= b); j.num(static_cast<long>(a - b)); j.close(']');
	}
	void finish(Json & j) {
		j.key("pos"); j.open('[');  // distance to the first position of the kind, and offset of the element denoted
		for(long s = 0; s < 8; ++s) if(pos[s] < 0) { j.open('['); j.num(-1); j.num(-1); j.close(']'); } else with(s, [&](auto & x) {
			j.open('['); j.num(static_cast<long>(x - first(&x))); j.num(pos[s] < n ? offset(*x) : -1); j.close(']');
		});
		j.close(']'); j.first = false;
		j.key("cmp"); j.open('[');
		each([&](long s, auto & a) { each([&](long t, auto & b) {
			if constexpr((std::is_same_v<std::decay_t<decltype(a)>, I> || std::is_same_v<std::decay_t<decltype(a)>, K>) == (std::is_same_v<std::decay_t<decltype(b)>, I> || std::is_same_v<std::decay_t<decltype(b)>, K>)) if((s < 4) == (t < 4)) compare(j, s, a, t, b);
		}); });
		j.close(']'); j.first = false;
		std::vector<long> v;
		const int way = static_cast<int>(rnd(8));
		switch(way) {
			case 0: for(auto & x : c) v.push_back(Val<T>::get(x)); break;
			case 1: for(auto & x : cc) v.push_back(Val<T>::get(x)); break;
			case 2: for(auto x = c.cbegin(); x != c.cend(); x++) v.push_back(Val<T>::get(*x)); break;
			case 3: for(auto x = c.end(); x != c.begin();) v.insert(v.begin(), Val<T>::get(*--x)); break;
			case 4: for(auto x = c.rbegin(); x != c.rend(); ++x) v.insert(v.begin(), Val<T>::get(*x)); break;
			case 5: for(auto x = cc.rbegin(); x < cc.rend(); x += 1) v.insert(v.begin(), Val<T>::get(*x)); break;
			case 6: for(auto x = c.crbegin(); x != c.crend(); x++) v.insert(v.begin(), Val<T>::get(*x)); break;
			default: for(long x = 0; x < cc.end() - cc.begin(); ++x) v.push_back(Val<T>::get(cc.begin()[x]));
		}
		j.list("s", v); j.kv("dist", static_cast<long>(c.end() - c.begin()) * 1000 + static_cast<long>(cc.rend() - cc.rbegin()));
		j.close('}');
		event(j);
	}
	void op(const Op & o) {
		const long s = o.at(0) & 7, d = (s & 6) | (o.at(1) & 1);
		const long to = o.at(2) % (n + 1), via = o.at(3), val = o.at(4);
		const bool known = pos[s] >= 0;
		Json j; j.open('{'); j.kv("op", o.name); j.kv("a", s + 1); j.kv("k", std::string(kinds[s / 2]));
		long rv = -7, dst = s, nn = 0, st = 1;
		const auto & q = o.name;
		if(q == "get") {
			const long end = o.at(1) & 1;
			switch(s / 2) {
				case 0: i[s % 2] = end ? c.end() : c.begin(); break;
				case 1: if(via % 3 == 0) k[s % 2] = end ? cc.end() : cc.begin(); else if(via % 3 == 1) k[s % 2] = end ? c.cend() : c.cbegin(); else k[s % 2] = end ? cc.cend() : cc.cbegin(); break;
				case 2: r[s % 2] = end ? c.rend() : c.rbegin(); break;
				default: if(via % 3 == 0) kr[s % 2] = end ? cc.rend() : cc.rbegin(); else if(via % 3 == 1) kr[s % 2] = end ? c.crend() : c.crbegin(); else kr[s % 2] = end ? cc.crend() : cc.crbegin();
			}
			pos[s] = end ? n : 0; nn = end;
		} else if(!known) return;
		else if(q == "inc" || q == "pinc") { if(pos[s] >= n) return; with(s, [&](auto & x) { const auto b = first(&x); if(q == "inc") { auto & y = ++x; st = &y == &x; } else rv = static_cast<long>(x++ - b); }); ++pos[s]; }
		else if(q == "dec" || q == "pdec") { if(pos[s] <= 0) return; with(s, [&](auto & x) { const auto b = first(&x); if(q == "dec") { auto & y = --x; st = &y == &x; } else rv = static_cast<long>(x-- - b); }); --pos[s]; }
		else if(q == "add") { nn = to - pos[s]; with(s, [&](auto & x) { auto & y = x += nn; st = &y == &x; }); pos[s] = to; }
		else if(q == "sub") { nn = pos[s] - to; with(s, [&](auto & x) { auto & y = x -= nn; st = &y == &x; }); pos[s] = to; }
		else if(q == "plus" || q == "nplus" || q == "minus") {
			nn = q == "minus" ? pos[s] - to : to - pos[s]; dst = d;
			switch(s / 2) {
#define GO(a) if(q == "plus") a[d % 2] = a[s % 2] + nn; else if(q == "nplus") a[d % 2] = nn + a[s % 2]; else a[d % 2] = a[s % 2] - nn; break;
				case 0: GO(i) case 1: GO(k) case 2: GO(r) default: GO(kr)
#undef GO
			}
			pos[d] = to;
		} else if(q == "conv") {
			if((s / 2) % 2) return;
			dst = s + 2;
			if(s / 2 == 0) { if(via & 1) k[s % 2] = K(i[s % 2]); else k[s % 2] = i[s % 2]; } else { if(via & 1) kr[s % 2] = KR(r[s % 2]); else kr[s % 2] = r[s % 2]; }
			pos[dst] = pos[s];
		} else if(q == "copy") {
			dst = d;
			switch(s / 2) { case 0: i[d % 2] = i[s % 2]; break; case 1: k[d % 2] = k[s % 2]; break; case 2: r[d % 2] = r[s % 2]; break; default: kr[d % 2] = kr[s % 2]; }
			pos[d] = pos[s];
		} else if(q == "swap") {
			if(pos[d] < 0) return;
			dst = d;
			switch(s / 2) { case 0: std::swap(i[d % 2], i[s % 2]); break; case 1: std::swap(k[d % 2], k[s % 2]); break; case 2: std::swap(r[d % 2], r[s % 2]); break; default: std::swap(kr[d % 2], kr[s % 2]); }
			std::swap(pos[d], pos[s]);
		} else if(q == "base") {
			if(s / 2 < 2) return;
			dst = s - 4;
			if(s / 2 == 2) i[s % 2] = r[s % 2].base(); else k[s % 2] = kr[s % 2].base();
			pos[dst] = n - pos[s];
		} else if(q == "read") {
			if(n == 0) return;
			const long target = to % n;
			if(via % 3 != 2 && pos[s] >= n) return;
			nn = via % 3 == 2 ? target - pos[s] : 0;
			with(s, [&](auto & x) { rv = via % 3 == 0 ? Val<T>::get(*x) : via % 3 == 1 ? Val<T>::get(*(x.operator->())) : Val<T>::get(x[nn]); });
		} else if(q == "write") {
			if constexpr(!Writable) return;
			else {
				if(n == 0 || (s / 2) % 2) return;
				if(via % 3 != 2 && pos[s] >= n) return;
				nn = via % 3 == 2 ? to % n - pos[s] : 0;
				auto put = [&](auto & x) { if(via % 3 == 0) *x = Val<T>::mk(static_cast<int>(val)); else if(via % 3 == 1) *(x.operator->()) = Val<T>::mk(static_cast<int>(val)); else x[nn] = Val<T>::mk(static_cast<int>(val)); };
				if(s / 2 == 0) put(i[s % 2]); else put(r[s % 2]);
			}
		} else if(q == "algo") { // positions found by standard algorithms
			if(s / 2 >= 2 || n == 0) return;
			with(s, [&](auto & x) {
				const auto b = first(&x);
				const auto e = b + n;
				const T what = Val<T>::mk(static_cast<int>(val));
				auto f = std::find_if(b, e, [&](const T & y) { return Val<T>::get(y) == Val<T>::get(what); });
				rv = static_cast<long>(std::distance(b, f)) * 1000 + static_cast<long>(std::distance(b, std::next(b, to)));
				x = f;
				pos[s] = static_cast<long>(f - b);
			});
			nn = to;
		} else return;
		j.kv("d", dst + 1); j.kv("n", nn); j.kv("via", via); j.kv("v", val); j.kv("rv", rv); j.kv("st", st);
		finish(j);
	}
	void run(const std::vector<long> & v) {
		Json j; j.open('{'); j.kv("op", std::string("init")); j.list("v", v);
		finish(j);
		for(auto & o : sc.ops) op(o);
	}
};
template<bool W, class C> void walk(const Script & s, C & c, const void * base, const std::vector<long> & v) { auto w = std::make_unique<Walk<C, W>>(s, c, base, static_cast<long>(v.size())); w->run(v); }
template<std::size_t N> void arr(const Script & s, std::vector<long> v) {
	while(v.size() < N) v.push_back(static_cast<long>(v.size()) + 40);
	v.resize(N);
	ptl::array<int, N> a;
	for(std::size_t k = 0; k < N; ++k) a[k] = static_cast<int>(v[k]);
	walk<true>(s, a, a.data(), v);
}
void run(const Script & s) {
	seed_from(s.id + s.type);
	std::vector<long> v(s.par.begin(), s.par.end());
	if(s.type == "string") { ptl::string c; for(auto x : v) c.push_back(static_cast<char>(x)); walk<true>(s, c, c.data(), v); }
	else if(s.type == "sref") { std::string b; for(auto x : v) b += static_cast<char>(x); std::unique_ptr<char[]> exact(new char[b.size() + !b.size()]); memcpy(exact.get(), b.data(), b.size()); ptl::string_ref c(exact.get(), b.size()); walk<false>(s, c, exact.get(), v); }
	else if(s.type == "vi") { ptl::vector<int> c; for(auto x : v) c.push_back(static_cast<int>(x)); walk<true>(s, c, c.data(), v); }
	else if(s.type == "ve") { ptl::vector<Elem> c; for(auto x : v) c.push_back(Elem{static_cast<int>(x)}); walk<true>(s, c, c.data(), v); }
	else if(s.type == "vb") { ptl::vector<Big> c; for(auto x : v) c.push_back(Val<Big>::mk(static_cast<int>(x))); walk<true>(s, c, c.data(), v); }
	else if(s.type == "ar") { std::unique_ptr<int[]> b(new int[v.size() + 1]); std::copy(v.begin(), v.end(), b.get()); ptl::array_ref<int> c(b.get(), v.size()); walk<true>(s, c, b.get(), v); }
	else if(s.type == "arc") { std::unique_ptr<int[]> b(new int[v.size() + 1]); std::copy(v.begin(), v.end(), b.get()); ptl::array_ref<const int> c(b.get(), v.size()); walk<false>(s, c, b.get(), v); }
	else if(s.type == "a0") arr<0>(s, v);
	else if(s.type == "a1") arr<1>(s, v);
	else if(s.type == "a3") arr<3>(s, v);
	else if(s.type == "a7") arr<7>(s, v);
}
}
int main(int argc, char ** argv) { return main_loop(argc, argv, run); }
