// Driver for function_ref: three slots of one signature, eight targets, calls logged by the targets themselves.
#include "core_impl.h"
#include "elem.h"
#include "layout.h"
#include <ptl/function_ref.hpp>
#include <functional>
#include <memory>
#include <optional>
using namespace core;
namespace {
// one logged call: target object, constness of the overload, argument values, argument object
struct Call { long target, cst, val; const void * obj; };
CORE_TL std::vector<Call> calls;
struct Counted { // argument passed by value: remembers whether it arrived intact
	int v; int copies{0}; bool gone{false};
	Counted(int x) noexcept : v{x} {}
	Counted(const Counted & o) : v{o.v}, copies{o.copies + 1} { counted(); }
	static void counted();
	Counted(Counted && o) noexcept : v{o.v}, copies{o.copies}, gone{o.gone} { o.v = -1; o.gone = true; }
};
long number(long x) { return x; }
long number(const Counted & c) { return c.gone ? -2 : c.v; }
long number(const std::unique_ptr<int> & p) { return p ? *p : -1; }
const void * object(const long & x) { return &x; }
template<class T> const void * object(const T & x) { return &x; }
struct Two { long x; long & y; };
long number(const Two & t) { return t.x * 31 + t.y; }
const void * object(const Two & t) { return &t.y; }
CORE_TL long cells[4]{11, 12, 13, 14};           // what reference results refer to
struct Three { const Counted & a, & b, & c; };
long number(const Three & t) { return t.a.gone || t.b.gone || t.c.gone ? -2 : t.a.v * 9 + t.b.v * 3 + t.c.v; }
const void * object(const Three & t) { return &t.c; }
struct Ten { long x[10]; };
long number(const Ten & t) { long r = 0; for(long k = 0; k < 10; ++k) r += (k + 1) * t.x[k]; return r; }
struct Large { long x[20]; };
long number(const Large & l) { return l.x[0] == l.x[19] ? l.x[7] : -3; }
CORE_TL int copied;                              // copies made of arguments passed by value
template<class R> struct Out;
template<> struct Out<Large> { static Large make(long t, long v) { Large l; for(auto & x : l.x) x = t * 1000 + v; return l; } };
template<> struct Out<long &&> { static long && make(long t, long); };
void Counted::counted() { ++copied; }
long && Out<long &&>::make(long t, long) { return std::move(cells[t & 3]); }
template<> struct Out<long> { static long make(long t, long v) { return t * 1000 + v; } };
template<> struct Out<short> { static short make(long t, long v) { return static_cast<short>(t * 1000 + v); } };
template<> struct Out<int> { static int make(long t, long v) { return static_cast<int>(t * 1000 + v); } };
template<> struct Out<void> { static void make(long, long) {} };
template<> struct Out<long &> { static long & make(long t, long) { return cells[t & 3]; } };
template<> struct Out<const long &> { static const long & make(long t, long) { return cells[t & 3]; } };
template<> struct Out<Counted> { static Counted make(long t, long v) { return Counted{static_cast<int>(t * 1000 + v)}; } };
template<> struct Out<std::unique_ptr<int>> { static std::unique_ptr<int> make(long t, long v) { return std::make_unique<int>(static_cast<int>(t * 1000 + v)); } };
void hit(long t, long cst, long v, const void * o, bool may) { calls.push_back({t, cst, v, o}); if(may && v == 666) throw user_fault{}; }
// a case: signature type, how to call it, and the targets
template<class Sig> struct Case;
#define TARGETS(RES, PARS, ARG, NX, MAY) \
	static RES free1 PARS NX { hit(1, -1, number(ARG), object(ARG), MAY); return Out<RES>::make(1, number(ARG)); } \
	static RES free2 PARS noexcept { hit(2, -1, number(ARG), object(ARG), false); return Out<RES>::make(2, number(ARG)); } \
	struct Both { ELUSIVE(Both) long id; mutable long n{0}; \
		RES operator() PARS & NX { ++n; hit(id, 0, number(ARG), object(ARG), MAY); return Out<RES>::make(id, number(ARG)); } RES operator() PARS const & NX { ++n; hit(id, 1, number(ARG), object(ARG), MAY); return Out<RES>::make(id, number(ARG)); } \
		RES operator() PARS && NX { ++n; hit(id, 2, number(ARG), object(ARG), MAY); return Out<RES>::make(id, number(ARG)); } RES operator() PARS const && NX { ++n; hit(id, 3, number(ARG), object(ARG), MAY); return Out<RES>::make(id, number(ARG)); } }; \
	struct Mut { ELUSIVE(Mut) long id; mutable long n{0}; RES operator() PARS NX { ++n; hit(id, 0, number(ARG), object(ARG), MAY); return Out<RES>::make(id, number(ARG)); } }; \
	struct Con { ELUSIVE(Con) long id; mutable long n{0}; RES operator() PARS const NX { ++n; hit(id, 1, number(ARG), object(ARG), MAY); return Out<RES>::make(id, number(ARG)); } };
enum Arg { VAL, REF, CREF, RREF, BYVAL, OWN, TWO, NONE, THREE, TEN };
#define CASE2(RES, TRES, PARS, ARG, SIGC, NX, MAY, CONST, NOEX, KIND) \
	template<> struct Case<RES PARS SIGC NX> { static constexpr bool is_const = CONST, nothrow = NOEX; static constexpr Arg arg = KIND; using Result = RES; TARGETS(TRES, PARS, ARG, NX, MAY) };
#define CASE(RES, PARS, ARG, SIGC, NX, MAY, CONST, NOEX, KIND) CASE2(RES, RES, PARS, ARG, SIGC, NX, MAY, CONST, NOEX, KIND)
CASE(long, (long x), x, , , true, false, false, VAL)
CASE(long, (long x), x, const, , true, true, false, VAL)
CASE(long, (long x), x, , noexcept, false, false, true, VAL)
CASE(long, (long x), x, const, noexcept, false, true, true, VAL)
CASE(long &, (long & x), x, , , true, false, false, REF)
CASE(const long &, (const long & x), x, const, , true, true, false, CREF)
CASE(void, (Counted x), x, , , true, false, false, BYVAL)
CASE(Counted, (Counted && x), x, const, , true, true, false, RREF)
CASE(std::unique_ptr<int>, (std::unique_ptr<int> x), x, , noexcept, false, false, true, OWN)
CASE(int, (long x, long & y), (Two{x, y}), const, , true, true, false, TWO)
CASE2(void, long, (Counted x, const Counted & y, Counted && z), (Three{x, y, z}), const, noexcept, false, true, true, THREE)
CASE2(Counted, int, (long x), x, , noexcept, false, false, true, VAL)
CASE(Large, (long a, long b, long c, long d, long e, long f, long g, long h, long i, long j), (Ten{{a, b, c, d, e, f, g, h, i, j}}), const, , true, true, false, TEN)
CASE(long &&, (long & x), x, , , true, false, false, REF)
CASE2(long, short, (const long & x), x, const, noexcept, false, true, true, CREF)
CASE(long, (), 0L, , , false, false, false, NONE)
// calls and dispatchers of code that knows only the layout: two words, the second called with the address of the first and the arguments
template<class Sig> struct Raw;
template<class C, class R, class... A> struct RawImpl {
	static R dispatch(const void * words, A... a) { auto & f = *peer::ptr<typename C::Both>(peer::word(words, 0)); if constexpr(C::is_const) return static_cast<R>(std::as_const(f)(std::forward<A>(a)...)); else return static_cast<R>(f(std::forward<A>(a)...)); }
	static void write(void * words, typename C::Both & f) { R (*d)(const void *, A...) = &dispatch; peer::put_word(words, 0, peer::as_word(std::addressof(f))); peer::put_word(words, 8, peer::as_word(d)); }
	struct View { const void * words; R operator()(A... a) const { R (*d)(const void *, A...); const auto w = peer::word(words, 8); memcpy(&d, &w, 8); return d(words, std::forward<A>(a)...); } };
};
template<class R, class... A> struct Raw<R(A...)> : RawImpl<Case<R(A...)>, R, A...> {};
template<class R, class... A> struct Raw<R(A...) const> : RawImpl<Case<R(A...) const>, R, A...> {};
template<class R, class... A> struct Raw<R(A...) noexcept> : RawImpl<Case<R(A...) noexcept>, R, A...> {};
template<class R, class... A> struct Raw<R(A...) const noexcept> : RawImpl<Case<R(A...) const noexcept>, R, A...> {};
template<class Sig> struct Calls {
	using C = Case<Sig>; using F = ptl::function_ref<Sig>; using R = typename C::Result;
	const Script & sc;
	typename C::Both both1{3}, both2{4}; typename C::Mut mut{5}; typename C::Con con{6}; const typename C::Both cboth{7};
	typename C::Both & lref{both1};
	std::unique_ptr<F> r[3];
	explicit Calls(const Script & s) : sc{s} { for(auto & p : r) p.reset(new F{C::free2}); cells[0] = 11; cells[1] = 12; cells[2] = 13; cells[3] = 14; }
	// whether a target fits is a fact about the types
	template<class X> static constexpr bool fits = std::is_constructible_v<F, X>;
	static void types(Json & j) { // [signature const, noexcept, target's const overload, non-const overload, target nothrow, object const, can]
		auto row = [&](long c, long n, long tn, long oc, bool can) { j.open('['); j.num(C::is_const); j.num(C::nothrow); j.num(c); j.num(n); j.num(tn); j.num(oc); j.num(can); j.close(']'); };
		const bool nx = C::nothrow;
		row(1, 1, nx, 0, fits<typename C::Both &>); row(1, 1, nx, 1, fits<const typename C::Both &>); row(0, 1, nx, 0, fits<typename C::Mut &>); row(0, 1, nx, 1, fits<const typename C::Mut &>); row(1, 0, nx, 0, fits<typename C::Con &>); row(1, 0, nx, 1, fits<const typename C::Con &>);
		row(1, 1, nx, 0, fits<decltype(C::free1) &>); row(1, 1, 1, 0, fits<decltype(C::free2) &>); row(1, 1, nx, 0, fits<decltype(&C::free1)>); row(1, 1, 1, 0, fits<decltype(&C::free2)>);
		using T = Throwing; row(1, 1, 0, 0, fits<T &>);
		row(0, 0, 1, 0, fits<int &>); row(0, 0, 1, 0, fits<Pad>); row(0, 0, 1, 0, fits<int Pad::*>);
	}
	struct Pad { int x; };
	struct Throwing { template<class... A> R operator()(A &&...) const; };
	template<class X> bool bind(long s, X && x, long via) {
		if constexpr(std::is_constructible_v<F, X>) { if(via & 1) { const F f(std::forward<X>(x)); *r[s] = f; } else r[s].reset(new F(std::forward<X>(x))); return true; }
		else { (void)s; (void)via; return false; }
	}
	void finish(Json & j, bool first = false) {
		j.key("cells"); j.open('['); for(long c : cells) j.num(c); j.close(']'); j.first = false;
		j.key("n"); j.open('['); j.num(both1.n); j.num(both2.n); j.num(mut.n); j.num(con.n); j.num(cboth.n); j.close(']'); j.first = false;
		j.key("img"); j.open('['); for(auto & p : r) { j.open('['); j.num(which(peer::word(p.get(), 0))); j.num(peer::word(p.get(), 8) != 0); j.close(']'); } j.close(']'); j.first = false;
		if(first) { j.key("types"); j.open('['); types(j); j.close(']'); j.first = false; j.kv("size", static_cast<long>(sizeof(F) == 2 * sizeof(void *))); j.kv("const", C::is_const); j.kv("nothrow", C::nothrow); j.kv("arg", static_cast<long>(C::arg)); j.kv("res", static_cast<long>(std::is_void_v<R> ? 0 : std::is_reference_v<R> ? 2 : 1)); }
		j.close('}');
		event(j);
	}
	long which(peer::Word w) const { // the target at that address
		const peer::Word t[]{peer::as_word(&C::free1), peer::as_word(&C::free2), peer::as_word(std::addressof(both1)), peer::as_word(std::addressof(both2)), peer::as_word(std::addressof(mut)), peer::as_word(std::addressof(con)), peer::as_word(std::addressof(cboth))};
		for(long k = 0; k < 7; ++k) if(t[k] == w) return k + 1;
		return 0;
	}
	template<class G> void call(G && g, long via, long v, long & rv, long & ref) {
		if constexpr(std::is_void_v<R>) { g(); rv = 0; }
		else if constexpr(std::is_reference_v<R>) {
			auto && z = g(); static_assert(std::is_same_v<decltype(g()), R>);
			rv = z; ref = -1;
			for(long k = 0; k < 4; ++k) if(&z == &cells[k]) ref = k;
			if constexpr(!std::is_const_v<std::remove_reference_t<R>>) if(via & 2) z = v + 1;
		} else { const auto z = g(); rv = number(z); }
		(void)via; (void)v;
	}
	void op(const Op & o) { // args: s d t via v
		const long s = o.at(0) % 3, d = o.at(1) % 3, t = o.at(2) % 8 + 1, via = o.at(3), v = o.at(4);
		const auto & q = o.name;
		Json j; j.open('{'); j.kv("op", q); j.kv("a", s + 1); j.kv("d", d + 1); j.kv("t", t); j.kv("v", v);
		long rv = -7, ref = -7, exc = X_NONE, same = 1;
		calls.clear(); copied = 0; j.kv("w", static_cast<long>((via & 2) != 0));
		if(q == "bind") {
			bool ok = false;
			switch(t) {
				case 1: ok = via & 2 ? bind(s, &C::free1, via) : bind(s, C::free1, via); if(via & 4) { auto p = &C::free1; ok = bind(s, p, via); p = nullptr; } break;
				case 2: ok = via & 2 ? bind(s, &C::free2, via) : bind(s, C::free2, via); if(via & 4) { const auto p = &C::free2; ok = bind(s, p, via); } break;
				case 3: if(via & 8) { ok = true; Raw<Sig>::write(r[s].get(), both1); break; } ok = via & 2 ? bind(s, lref, via) : bind(s, both1, via); break;
				case 4: ok = via & 2 ? bind(s, std::as_const(both2), via) : bind(s, both2, via); break;
				case 5: ok = bind(s, mut, via); break;
				case 6: ok = via & 2 ? bind(s, std::as_const(con), via) : bind(s, con, via); break;
				case 7: ok = bind(s, cboth, via); break;
				default: return;
			}
			if(!ok) return;
			j.kv("cst", static_cast<long>(t == 7 || (t == 4 && via & 2)));
		} else if(q == "assign") { auto & z = *r[s] = *r[d]; rv = &z == r[s].get(); }
		else if(q == "copy") { std::unique_ptr<F> c{via & 1 ? new F{*r[d]} : new F(std::as_const(*r[d]))}; r[s] = std::move(c); rv = 1; }
		else if(q == "swap") std::swap(*r[s], *r[d]);
		else if(q == "call" || q == "temp") { // temp: through a function_ref made of a temporary functor for the duration of the call
			F * f = r[s].get();
			auto go = [&](const auto & f) {
				try {
					const int w = static_cast<int>(v);
					if constexpr(C::arg == VAL) call([&]() -> R { return f(v); }, via, v, rv, ref);
					else if constexpr(C::arg == NONE) call([&]() -> R { return f(); }, via, v, rv, ref);
					else if constexpr(C::arg == TWO) { long y = v + 1; call([&]() -> R { return f(v, y); }, via, v, rv, ref); same = calls.size() == 1 && calls[0].obj == &y; }
					else if constexpr(C::arg == REF || C::arg == CREF) { long x = v; call([&]() -> R { return f(x); }, via, v, rv, ref); same = calls.size() == 1 && calls[0].obj == &x; }
					else if constexpr(C::arg == BYVAL) {
						Counted x{w};
						if(via & 1) { call([&]() -> R { return f(std::move(x)); }, via, v, rv, ref); if(copied) same = 0; }
						else { call([&]() -> R { return f(x); }, via, v, rv, ref); if(x.v != v || x.gone || copied > 1) same = 0; }
					} else if constexpr(C::arg == RREF) { Counted x{w}; call([&]() -> R { return f(std::move(x)); }, via, v, rv, ref); same = calls.size() == 1 && calls[0].obj == &x && x.v == v; }
					else if constexpr(C::arg == THREE) {
						Counted x{w}, y{w + 1}, z{w + 2};
						if(via & 1) call([&]() -> R { return f(std::move(x), y, std::move(z)); }, via, v, rv, ref); else call([&]() -> R { return f(x, y, std::move(z)); }, via, v, rv, ref);
						same = calls.size() == 1 && calls[0].obj == &z && z.v == w + 2 && y.v == w + 1 && copied == ((via & 1) ? 0 : 1);
					} else if constexpr(C::arg == TEN) call([&]() -> R { return f(v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7, v + 8, v + 9, v + 10); }, via, v, rv, ref);
					else { auto x = std::make_unique<int>(w); call([&]() -> R { return f(std::move(x)); }, via, v, rv, ref); if(x) same = 0; }
				} catch(const user_fault &) { exc = X_USER; } catch(...) { exc = X_OTHER; }
			};
			if(q == "temp") { if constexpr(std::is_constructible_v<F, typename C::Con>) go(F(typename C::Con{8})); else return; }
			else if(via & 8) go(typename Raw<Sig>::View{f}); else go(*f);
		} else return;
		j.key("calls"); j.open('['); for(auto & c : calls) { j.open('['); j.num(c.target); j.num(c.cst); j.num(c.val); j.close(']'); } j.close(']'); j.first = false;
		j.kv("rv", rv); j.kv("ref", ref); j.kv("same", same); j.kv("x", xname(static_cast<int>(exc)));
		finish(j);
	}
	void run() { Json j; j.open('{'); j.kv("op", std::string("init")); finish(j, true); for(auto & o : sc.ops) op(o); }
};
void run(const Script & s) {
	seed_from(s.id + s.type);
	if(s.type == "n") std::make_unique<Calls<long(long)>>(s)->run();
	else if(s.type == "c") std::make_unique<Calls<long(long) const>>(s)->run();
	else if(s.type == "nn") std::make_unique<Calls<long(long) noexcept>>(s)->run();
	else if(s.type == "cn") std::make_unique<Calls<long(long) const noexcept>>(s)->run();
	else if(s.type == "r") std::make_unique<Calls<long &(long &)>>(s)->run();
	else if(s.type == "cr") std::make_unique<Calls<const long &(const long &) const>>(s)->run();
	else if(s.type == "bv") std::make_unique<Calls<void(Counted)>>(s)->run();
	else if(s.type == "rr") std::make_unique<Calls<Counted(Counted &&) const>>(s)->run();
	else if(s.type == "two") std::make_unique<Calls<int(long, long &) const>>(s)->run();
	else if(s.type == "three") std::make_unique<Calls<void(Counted, const Counted &, Counted &&) const noexcept>>(s)->run();
	else if(s.type == "conv") std::make_unique<Calls<Counted(long) noexcept>>(s)->run();
	else if(s.type == "ten") std::make_unique<Calls<Large(long, long, long, long, long, long, long, long, long, long) const>>(s)->run();
	else if(s.type == "rx") std::make_unique<Calls<long &&(long &)>>(s)->run();
	else if(s.type == "crl") std::make_unique<Calls<long(const long &) const noexcept>>(s)->run();
	else if(s.type == "none") std::make_unique<Calls<long()>>(s)->run();
	else if(s.type == "own") std::make_unique<Calls<std::unique_ptr<int>(std::unique_ptr<int>) noexcept>>(s)->run();
}
}
int main(int argc, char ** argv) { return main_loop(argc, argv, run); }
