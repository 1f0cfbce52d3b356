// Driver for optional_ref (type "o": slots 1, 2 of S; 3, 4 of const S) and variant_ref (types "v..": three slots).
#include "core_impl.h"
#include "elem.h"
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/variant_ref.hpp>
#include <functional>
#include <memory>
#include <optional>
using namespace core;
namespace {
struct S { ELUSIVE(S) int v; S(int x = 0) : v{x} {} S & operator=(const S &) =default; S(const S &) =default; S(S && o) noexcept : v{o.v} { o.v = -5; } S & operator=(S && o) noexcept { const int x = o.v; o.v = -5; v = x; return *this; } }; // what is moved from shows it
struct Pad { int p{7}; };
struct D : Pad, S { D(int x = 0) : S{x} {} };
// ---------------------------------------------------------------- optional_ref
struct Optionals {
	using M = ptl::optional_ref<S>; using K = ptl::optional_ref<const S>;
	const Script & sc;
	// targets 1..3 plain objects, 4, 5 in ptl::optional, 6 in std::optional, 7 behind a pointer, 8 behind a unique_ptr, 9 the base of a D in std::optional, 10 plain const
	S x[3]{1, 2, 3}; ptl::optional<S> po[2]; std::optional<S> so; S * raw{nullptr}; S rawS{0}; std::unique_ptr<S> up; std::optional<D> sd; const S cs{77};
	M m[2]; K k[2];
	explicit Optionals(const Script & s) : sc{s} {}
	bool has(long t) const { switch(t) { case 4: return !!po[0]; case 5: return !!po[1]; case 6: return !!so; case 7: return raw; case 8: return !!up; case 9: return !!sd; default: return true; } }
	const S * target(long t) const { if(!has(t)) return nullptr; switch(t) { case 1: case 2: case 3: return std::addressof(x[t - 1]); case 4: return std::addressof(*po[0]); case 5: return std::addressof(*po[1]); case 6: return std::addressof(*so); case 7: return raw; case 8: return up.get(); case 9: return std::addressof(*sd); default: return std::addressof(cs); } }
	void set(long t, int v) { switch(t) { case 1: case 2: case 3: x[t - 1].v = v; break; case 4: po[0].emplace(v); break; case 5: po[1].emplace(v); break; case 6: so.emplace(v); break; case 7: rawS.v = v; raw = std::addressof(rawS); break; case 8: if(up) up->v = v; else up.reset(new S{v}); break; case 9: sd.emplace(v); break; } }
	void clear(long t) { switch(t) { case 4: po[0].reset(); break; case 5: po[1].reset(); break; case 6: so.reset(); break; case 7: raw = nullptr; break; case 8: up.reset(); break; case 9: sd.reset(); break; } }
	long which(const S * p) const { if(!p) return 0; for(long t = 1; t <= 10; ++t) if(has(t) && target(t) == p) return t; return -1; }
	template<class F> void with(long s, F f) { if(s < 2) f(m[s]); else f(k[s - 2]); }
	static void types(Json & j) {
		auto row = [&](const char * what, bool expected, bool is) { j.open('['); j.str(what); j.num(expected); j.num(is); j.close(']'); };
		using std::is_constructible_v; using std::is_same_v;
		row("S&", true, is_constructible_v<M, S &>); row("const S&", false, is_constructible_v<M, const S &>); row("K of S&", true, is_constructible_v<K, S &>); row("K of const S&", true, is_constructible_v<K, const S &>);
		row("optional", true, is_constructible_v<M, ptl::optional<S> &>); row("const optional", false, is_constructible_v<M, const ptl::optional<S> &>); row("K optional", true, is_constructible_v<K, ptl::optional<S> &>); row("K const optional", true, is_constructible_v<K, const ptl::optional<S> &>);
		row("std const optional", false, is_constructible_v<M, const std::optional<S> &>); row("K std const optional", true, is_constructible_v<K, const std::optional<S> &>);
		row("M of K", false, is_constructible_v<M, K &>); row("M of K", false, is_constructible_v<M, const K &>); row("K of M", true, is_constructible_v<K, M &>); row("K of const M", true, is_constructible_v<K, const M &>);
		row("other", false, is_constructible_v<M, ptl::optional<int> &>); row("other", false, is_constructible_v<M, int &>); row("pointer", true, is_constructible_v<M, S *&>); row("pointer to const", false, is_constructible_v<M, const S *&>); row("K pointer to const", true, is_constructible_v<K, const S *&>);
		row("nullopt", true, is_constructible_v<M, std::nullopt_t>); row("derived", true, is_constructible_v<M, std::optional<D> &>); row("base", false, is_constructible_v<ptl::optional_ref<D>, std::optional<S> &>);
		row("* M", true, is_same_v<decltype(*std::declval<const M &>()), S &>); row("* K", true, is_same_v<decltype(*std::declval<K &>()), const S &>); row("value M", true, is_same_v<decltype(std::declval<const M &>().value()), S &>); row("value K", true, is_same_v<decltype(std::declval<K &>().value()), const S &>);
	}
	void finish(Json & j, bool first = false) {
		j.key("vals"); j.open('['); for(long t = 1; t <= 10; ++t) j.num(has(t) ? target(t)->v : -1); j.close(']'); j.first = false;
		j.key("refs"); j.open('[');
		for(long s = 0; s < 4; ++s) with(s, [&](auto & r) {
			const auto & c = r;
			j.open('['); j.num(c.has_value()); j.num(static_cast<bool>(c)); j.num(which(c.operator->())); j.num(c.has_value() ? which(std::addressof(*c)) : 0); j.close(']');
		});
		j.close(']'); j.first = false;
		if(first) { j.key("types"); j.open('['); types(j); j.close(']'); j.first = false; j.kv("size", static_cast<long>(sizeof(M) == sizeof(void *) && sizeof(K) == sizeof(void *))); }
		j.key("img"); j.open('['); for(long z = 0; z < 4; ++z) with(z, [&](auto & y) { const S * q; static_assert(sizeof q == sizeof y); memcpy(&q, &y, 8); j.num(which(q)); }); j.close(']'); j.first = false;
		j.close('}');
		event(j);
	}
	void op(const Op & o) { // args: s d t via v
		const long s = o.at(0) & 3, d0 = o.at(1) & 3, t = o.at(2) % 10 + 1, via = o.at(3), v = o.at(4);
		const auto & q = o.name;
		Json j; j.open('{'); j.kv("op", q); j.kv("a", s + 1); j.kv("t", t); j.kv("v", v);
		long d = d0, rv = -7, rt = 0, exc = X_NONE; std::string src;
		if(q == "bind") {
			src = "target";
			const bool mutable_ = s < 2;
			if(mutable_ && t == 10) return;
			auto go = [&](auto & r) {
				using R = std::decay_t<decltype(r)>;
				constexpr bool cst = std::is_same_v<R, K>;
				if(via >= 8) { const S * q = target(t); memcpy(static_cast<void *>(&r), &q, 8); return; } // by code that knows only the layout
				switch(t) {
					case 1: case 2: case 3: if(cst && via & 1) r = std::as_const(*this).pick(t, r); else r = R{x[t - 1]}; break;
					case 4: case 5: if constexpr(cst) { if(via & 1) { const auto & c = po[t - 4]; r = c; } else if(via & 2) r = ptl::optional_ref{std::as_const(po[t - 4])}; else r = R{po[t - 4]}; } else { if(via & 1) r = po[t - 4]; else if(via & 2) r = ptl::optional_ref{po[t - 4]}; else r = R{po[t - 4]}; } break;
					case 6: if constexpr(cst) { if(via & 1) { const auto & c = so; r = c; } else r = R(so); } else { if(via & 1) r = so; else r = ptl::optional_ref{so}; } break;
					case 7: if constexpr(cst) { if(via & 1) { const S * p = raw; r = R(p); } else r = R(raw); } else r = R(raw); break;
					case 8: r = R(up); break;
					case 9: if constexpr(cst) { if(via & 1) { const auto & c = sd; r = R(c); } else r = R(sd); } else r = R(sd); break;
					default: if constexpr(cst) r = R{cs};
				}
			};
			with(s, go);
		} else if(q == "clear") {
			src = via & 1 ? "nullopt" : via & 2 ? "default" : "braces";
			with(s, [&](auto & r) { using R = std::decay_t<decltype(r)>; if(via & 1) { if(via & 4) r = std::nullopt; else r = R{std::nullopt}; } else if(via & 2) r = R{}; else { R e; r = e; } });
		} else if(q == "assign" || q == "copy") {
			if(s < 2) d = d0 & 1;
			auto go = [&](auto & r) {
				using R = std::decay_t<decltype(r)>;
				if constexpr(std::is_same_v<R, M>) { if(q == "assign") { auto & z = r = m[d]; rv = &z == &r; } else { const M c{via & 1 ? std::as_const(m[d]) : m[d]}; r = c; rv = 1; } }
				else if(d < 2) { if(via & 1) r = m[d]; else r = std::as_const(m[d]); rv = 1; }
				else { if(q == "assign") { auto & z = r = k[d - 2]; rv = &z == &r; } else { const K c{k[d - 2]}; r = c; rv = 1; } }
			};
			with(s, go);
		} else if(q == "swap") { d = (s & 2) | (d0 & 1); if(s < 2) std::swap(m[s], m[d]); else std::swap(k[s - 2], k[d - 2]); }
		else if(q == "write") {
			if(s >= 2 || !m[s]) return;
			switch(via % 4) { case 0: (*m[s]).v = static_cast<int>(v); break; case 1: m[s]->v = static_cast<int>(v); break; case 2: m[s].value().v = static_cast<int>(v); break; default: *std::as_const(m[s]) = S{static_cast<int>(v)}; }
		} else if(q == "value") with(s, [&](auto & r) { const auto & c = r; try { auto & z = c.value(); rv = z.v; rt = which(std::addressof(z)); } catch(const std::bad_optional_access &) { exc = X_BADOPT; } catch(...) { exc = X_OTHER; } });
		else if(q == "value_or") with(s, [&](auto & r) {
			const auto & c = r;
			if(via & 1) rv = c.value_or(static_cast<int>(v)).v; else { S y{static_cast<int>(v)}; const auto z = c.value_or(y); rv = z.v; if(y.v != v) rv = -9; }
		});
		else if(q == "poke") { if(t == 10) return; if(t > 3 && !has(t)) { /* becomes engaged */ } set(t, static_cast<int>(v)); }
		else if(q == "empty") { // only while nothing refers to it
			if(t <= 3 || t == 10) return;
			for(long z = 0; z < 4; ++z) { bool used = false; with(z, [&](auto & r) { used = r.has_value() && which(r.operator->()) == t; }); if(used) return; }
			clear(t);
		} else return;
		j.kv("d", d + 1); j.kv("src", src); j.kv("rv", rv); j.kv("rt", rt); j.kv("x", xname(static_cast<int>(exc)));
		finish(j);
	}
	K pick(long t, K) const { return K{x[t - 1]}; }
	M pick(long, M r) const { return r; }
	void run() { Json j; j.open('{'); j.kv("op", std::string("init")); finish(j, true); for(auto & o : sc.ops) op(o); }
};
// ---------------------------------------------------------------- variant_ref
template<int N> struct T { ELUSIVE(T) int v; char pad[N % 5 + 1]; };
template<class X> int & val(X & x) { return x.v; }
inline int & val(int & x) { return x; }
inline const int & val(const int & x) { return x; }
template<class X> const int & val(const X & x) { return x.v; }
template<class... Types> struct Variants {
	using V = ptl::variant_ref<Types...>;
	static constexpr std::size_t N = sizeof...(Types);
	const Script & sc;
	// two objects for every alternative (targets 2k+1, 2k+2)
	std::tuple<std::remove_const_t<Types>...> a{}, b{};
	std::unique_ptr<V> r[3];
	template<std::size_t I> using At = std::tuple_element_t<I, std::tuple<Types...>>;
	explicit Variants(const Script & s) : sc{s} { setup(std::make_index_sequence<N>{}); for(auto & p : r) p.reset(new V{std::get<0>(a)}); }
	template<std::size_t... I> void setup(std::index_sequence<I...>) { (void)std::initializer_list<int>{(val(std::get<I>(a)) = static_cast<int>(10 * I + 1), val(std::get<I>(b)) = static_cast<int>(10 * I + 2), 0)...}; }
	template<class F, std::size_t... I> void pick(std::size_t n, F f, std::index_sequence<I...>) { (void)std::initializer_list<int>{(n == I ? (f(std::integral_constant<std::size_t, I>{}), 0) : 0)...}; }
	template<class F> void pick(std::size_t n, F f) { pick(n % N, f, std::make_index_sequence<N>{}); }
	template<class F> void all(F f) { for(std::size_t n = 0; n < N; ++n) pick(n, f); }
	long which(const void * p) { long w = p ? -1 : 0; all([&](auto i) { if(p == std::addressof(std::get<i>(a))) w = 2 * static_cast<long>(i()) + 1; if(p == std::addressof(std::get<i>(b))) w = 2 * static_cast<long>(i()) + 2; }); return w; }
	struct Probe { long * calls; int * index; bool * cst; const void ** p; template<class X> long operator()(X & x) const { ++*calls; *cst = std::is_const_v<X>; *p = std::addressof(x); *index = 0; return val(x); } };
	template<class... Fs> struct Over : Fs... { using Fs::operator()...; };
	template<class X> struct One { long * calls; const void ** p; long * id; long operator()(X & x) const { ++*calls; *p = std::addressof(x); *id = code<X>(); return val(x); } };
	template<class X> static constexpr long code() { long n = 0, f = -1; (void)std::initializer_list<int>{(f < 0 && std::is_same_v<X, Types> ? (f = n, 0) : 0, ++n, 0)...}; return f + 1; }
	void finish(Json & j, bool first = false) {
		j.key("vals"); j.open('['); all([&](auto i) { j.num(val(std::get<i>(a))); j.num(val(std::get<i>(b))); }); j.close(']'); j.first = false;
		j.key("refs"); j.open('[');
		for(auto & p : r) {
			const V & v = *p;
			j.open('[');
			j.open('['); // what the accessors say: [alternative, holds, get_if, get or -1]
			all([&](auto i) {
				using X = At<i>;
				j.open('['); j.num(v.template holds<X>()); j.num(which(v.template get_if<X>()));
				try { X & x = v.template get<X>(); j.num(which(std::addressof(x))); } catch(const std::bad_variant_access &) { j.num(-1); } catch(...) { j.num(-2); }
				j.close(']');
			});
			j.close(']');
			long calls = 0; int index = 0; bool cst = false; const void * q = nullptr;
			long res = -7;
			const auto way = rnd(3);
			if(way == 0) { Probe pr{&calls, &index, &cst, &q}; res = v.visit(pr); }
			else if(way == 1) { const Probe pr{&calls, &index, &cst, &q}; res = p->visit(pr); }
			else res = v.visit(Probe{&calls, &index, &cst, &q});
			j.open('['); j.num(calls); j.num(cst); j.num(which(q)); j.num(res); j.close(']');
			calls = 0; q = nullptr; long id = 0;
			res = v.visit(One<Types>{&calls, &q, &id}...);
			j.open('['); j.num(calls); j.num(id); j.num(which(q)); j.num(res); j.close(']');
			j.close(']');
		}
		j.close(']'); j.first = false;
		if(first) {
			j.key("alts"); j.open('['); // [type, is const]
			all([&](auto i) { using X = At<i>; long n = 0, f = -1; (void)std::initializer_list<int>{(f < 0 && std::is_same_v<std::remove_const_t<X>, std::remove_const_t<Types>> ? (f = n, 0) : 0, ++n, 0)...}; j.open('['); j.num(f + 1); j.num(std::is_const_v<X>); j.close(']'); });
			j.close(']'); j.first = false;
			j.key("binds"); j.open('['); // [type, as const, as prvalue, can]
			all([&](auto i) {
				using X = std::remove_const_t<At<i>>; long n = 0, f = -1; (void)std::initializer_list<int>{(f < 0 && std::is_same_v<X, std::remove_const_t<Types>> ? (f = n, 0) : 0, ++n, 0)...};
				auto row = [&](int c, int pr, bool can) { j.open('['); j.num(f + 1); j.num(c); j.num(pr); j.num(can); j.close(']'); };
				row(0, 0, std::is_constructible_v<V, X &>); row(1, 0, std::is_constructible_v<V, const X &>); row(0, 1, std::is_constructible_v<V, X>); row(1, 1, std::is_constructible_v<V, const X>);
			});
			j.open('['); j.num(0); j.num(0); j.num(0); j.num(std::is_constructible_v<V, Pad &>); j.close(']');
			j.close(']'); j.first = false;
			j.kv("size", static_cast<long>(sizeof(V) == 2 * sizeof(void *)));
		}
		raw_words(j);
		j.close('}');
		event(j);
	}
	void raw_words(Json & j) { j.key("img"); j.open('['); for(auto & p : r) { const void * q; std::size_t n; memcpy(&q, p.get(), 8); memcpy(&n, reinterpret_cast<const char *>(p.get()) + 8, 8); j.open('['); j.num(which(q)); j.num(static_cast<long>(n)); j.close(']'); } j.close(']'); j.first = false; }
	void op(const Op & o) { // args: s d t via v
		const std::size_t s = static_cast<std::size_t>(o.at(0)) % 3, d = static_cast<std::size_t>(o.at(1)) % 3, t = static_cast<std::size_t>(o.at(2)) % (2 * N); const long via = o.at(3), v = o.at(4);
		const auto & q = o.name;
		Json j; j.open('{'); j.kv("op", q); j.kv("a", static_cast<long>(s) + 1); j.kv("d", static_cast<long>(d) + 1); j.kv("t", static_cast<long>(t) + 1); j.kv("v", v);
		long rv = -7, rt = 0, exc = X_NONE, as = 0;
		bool done = true;
		if(q == "bind") pick(t / 2, [&](auto i) {
			using X = std::remove_const_t<At<i>>;
			auto & x = t % 2 ? std::get<i>(b) : std::get<i>(a); const auto & c = x;
			if(via >= 8) { // by code that knows only the layout: pointer and index
				as = via & 1 || !std::is_constructible_v<V, X &>;
				if(as ? !std::is_constructible_v<V, const X &> : false) { done = false; return; }
				constexpr std::size_t none = ~std::size_t{0};
				std::size_t nm = none, nc = none, z = 0;
				(void)std::initializer_list<int>{(std::is_same_v<Types, X> ? (nm = z, 0) : 0, std::is_same_v<Types, const X> ? (nc = z, 0) : 0, ++z, 0)...};
				const std::size_t idx = !as && nm != none ? nm : nc;
				const void * q = std::addressof(x); memcpy(static_cast<void *>(r[s].get()), &q, 8); memcpy(reinterpret_cast<char *>(r[s].get()) + 8, &idx, 8);
			}
			else if(via & 1 || !std::is_constructible_v<V, X &>) { if constexpr(std::is_constructible_v<V, const X &>) { as = 1; if(via & 2) *r[s] = c; else r[s].reset(new V{c}); } else done = false; }
			else if constexpr(std::is_constructible_v<V, X &>) { if(via & 2) *r[s] = x; else r[s].reset(new V(x)); }
		});
		else if(q == "temp") pick(t / 2, [&](auto i) { // lives until the end of the full expression
			using X = std::remove_const_t<At<i>>;
			X x{}; val(x) = static_cast<int>(v);
			if constexpr(std::is_constructible_v<V, X>) { rv = val(V(X(x)).template get<const X>()); } else done = false;
		});
		else if(q == "assign") { auto & z = *r[s] = *r[d]; rv = &z == r[s].get(); }
		else if(q == "copy") { std::unique_ptr<V> c{via & 1 ? new V{*r[d]} : new V(std::as_const(*r[d]))}; r[s] = std::move(c); rv = 1; }
		else if(q == "swap") std::swap(*r[s], *r[d]);
		else if(q == "write") {
			const V & w = *r[s];
			w.visit([&](auto & x) { if constexpr(!std::is_const_v<std::remove_reference_t<decltype(x)>>) { val(x) = static_cast<int>(v); rv = 1; } else rv = 0; });
		} else if(q == "throw") { // a visitor that throws
			long calls = 0;
			try { r[s]->visit([&](auto &) -> int { ++calls; throw user_fault{}; }); } catch(const user_fault &) { exc = X_USER; } catch(...) { exc = X_OTHER; }
			rv = calls;
		} else if(q == "result") { // a visitor that returns a reference
			const void * p = nullptr;
			int & z = r[s]->visit([&](auto & x) -> int & { p = std::addressof(x); return const_cast<int &>(val(std::as_const(x))); });
			rv = z; rt = which(p); if(reinterpret_cast<const void *>(&z) < p || reinterpret_cast<const char *>(&z) > static_cast<const char *>(p) + 16) rt = -2;
		} else if(q == "poke") pick(t / 2, [&](auto i) { val(t % 2 ? std::get<i>(b) : std::get<i>(a)) = static_cast<int>(v); });
		else return;
		if(!done) return;
		j.kv("as", as); j.kv("rv", rv); j.kv("rt", rt); j.kv("x", xname(static_cast<int>(exc)));
		finish(j);
	}
	void run() { Json j; j.open('{'); j.kv("op", std::string("init")); finish(j, true); for(auto & o : sc.ops) op(o); }
};
using V1 = Variants<int, const int, T<1>, T<2>>;
using V2 = Variants<const int, T<1>>;
using V3 = Variants<T<0>>;
using V4 = Variants<const T<0>, const int>;
using V5 = Variants<T<0>, T<1>, T<2>, const T<1>, T<3>, T<4>, const T<4>, T<5>, const T<6>, T<7>, T<8>, T<9>, const T<0>, T<10>, const T<11>, T<12>, const T<12>, T<13>, T<14>, int>;
void run(const Script & s) {
	seed_from(s.id + s.type);
	if(s.type == "o") std::make_unique<Optionals>(s)->run();
	else if(s.type == "v1") std::make_unique<V1>(s)->run();
	else if(s.type == "v2") std::make_unique<V2>(s)->run();
	else if(s.type == "v3") std::make_unique<V3>(s)->run();
	else if(s.type == "v4") std::make_unique<V4>(s)->run();
	else if(s.type == "v5") std::make_unique<V5>(s)->run();
}
}
int main(int argc, char ** argv) { return main_loop(argc, argv, run); }
