// Operations of ptl::optional<T> and ptl::variant<Ts...>; compiled once per type (SUM_TYPE) and compiler.
#define BLUNT
#include "sum.h"
#include "elem.h"
#include <ptl/optional.hpp>
#include <ptl/variant.hpp>
#include <ptl/string.hpp>
#include <cstdlib>
#include <string_view>

template<> struct Val<ptl::string> {
	// no std::string here: libstdc++ allocates behind the back of the module
	struct Text { char b[64]{}; std::size_t n{0}; operator std::string_view() const { return {b, n}; } };
	static Text text(int v) {
		Text t;
		if(!v) return t;
		char d[12]; std::size_t k = 0;
		for(int x = v < 0 ? -v : v; x; x /= 10) d[k++] = static_cast<char>('0' + x % 10);
		if(v < 0) t.b[t.n++] = '-';
		while(k) t.b[t.n++] = d[--k];
		if(v % 2) for(int x = 0; x < 40; ++x) t.b[t.n++] = '.';
		return t;
	}
	static ptl::string mk(int v) { return ptl::string{std::string_view{text(v)}}; }
	static int get(const ptl::string & s) {
		int v = 0;
		for(std::size_t k = 0; k < s.size() && k < 9 && s.data()[k] >= '0' && s.data()[k] <= '9'; ++k) v = 10 * v + s.data()[k] - '0';
		const auto t = text(v);
		return std::string_view(s.data(), s.size()) == std::string_view{t} && s.data()[s.size()] == 0 ? v : -3;
	}
};
namespace {
template<class T> constexpr bool tracked = std::is_same_v<T, Elem> || std::is_same_v<T, NElem> || std::is_same_v<T, LElem>;
template<class T> const void * data_of(const T & x) { if constexpr(std::is_same_v<T, ptl::string>) return x.data(); else { (void)x; return nullptr; } }
template<class T> void set(T & x, int v) {
	if constexpr(tracked<T>) { core_life(6, std::addressof(x), nullptr); x.v = v; }
	else if constexpr(std::is_same_v<T, Big>) x = Val<Big>::mk(v);
	else if constexpr(std::is_same_v<T, ptl::string>) { const auto t = Val<ptl::string>::text(v); core_window(1); x = std::string_view{t}; core_window(0); }
	else x = Val<T>::mk(v);
}
template<class F> void guarded(SumRes & r, F f) {
	try { core_window(1); f(); core_window(0); return; }
	catch(const user_fault &) { r.x = X_USER; }
	catch(const std::bad_optional_access &) { r.x = X_BADOPT; }
	catch(const std::bad_variant_access &) { r.x = X_BADVAR; }
	catch(const std::length_error &) { r.x = X_LENGTH; }
	catch(const std::bad_alloc &) { r.x = X_ALLOC; }
	catch(...) { r.x = X_OTHER; }
	core_window(0);
}
// calls f with constructor arguments that give value v
template<class T, class F> decltype(auto) with_args(int v, F f) {
	if constexpr(std::is_same_v<T, Big>) return f(v, v, v, v, v, v);
	else if constexpr(std::is_same_v<T, ptl::string>) { const auto t = Val<ptl::string>::text(v); return f(std::string_view{t}); }
	else if constexpr(std::is_same_v<T, char>) return f(static_cast<char>(v));
	else return f(v);
}
template<class R> constexpr int constness() { return std::is_const_v<std::remove_reference_t<R>>; }
template<class R> constexpr int category() { return std::is_rvalue_reference_v<R>; }
// notes what kind of reference an access returned
template<class R, class T> void ref(SumRes & r, R && x, const T * p) {
	r.same = static_cast<const void *>(std::addressof(x)) == static_cast<const void *>(p);
	r.rv = Val<T>::get(x); r.cq = constness<R>(); r.rq = category<R &&>();
}

#if SUM_TYPE <= 3 || SUM_TYPE == 9
#if SUM_TYPE == 0
using T = int;
#elif SUM_TYPE == 1
using T = Elem;
#elif SUM_TYPE == 2
using T = Big;
#elif SUM_TYPE == 9
using T = NElem;
#else
using T = ptl::string;
#endif
using C = ptl::optional<T>;
using V = Val<T>;
constexpr int alts = 1;
constexpr bool is_optional = true;
const T * where(const C & c) { return c.operator->(); }

// the default converts to the value type
template<class O> void value_or_int(const O & c, int v, SumRes & r) {
	if constexpr(std::is_convertible_v<int, T>) { auto x = c.value_or(v); r.rv = V::get(x); }
	else { const auto d = V::mk(v); auto x = c.value_or(d); r.rv = V::get(x); }
}
void apply(const SumReq * qp, SumRes * rp) {
	const SumReq & q = *qp; SumRes & r = *rp;
	r = SumRes{0, -1, -1, -1, -1, -1, -1, -1, -1};
	auto & s = *static_cast<C *>(q.self);
	auto & o = *static_cast<C *>(q.other);
	switch(q.op) {
		case U_DESTROY: guarded(r, [&] { s.~C(); }); break;
		case U_INIT: guarded(r, [&] { new(&s) C; }); break;
		case U_CREATE: {
			guarded(r, [&] { s.~C(); });
			switch(q.ov) {
				case 0: guarded(r, [&] { new(&s) C; }); break;
				case 1: guarded(r, [&] { new(&s) C(static_cast<const C &>(o)); }); break;
				case 2: { const auto t = V::mk(q.v); guarded(r, [&] { new(&s) C(t); }); break; }
				case 3: { guarded(r, [&] { auto t = V::mk(q.v); new(&s) C(std::move(t)); }); break; }
				case 4: with_args<T>(q.v, [&](auto... a) { guarded(r, [&] { new(&s) C(std::in_place, a...); }); }); break;
				case 5: guarded(r, [&] { new(&s) C(std::nullopt); }); break;
				case 6: guarded(r, [&] { new(&s) C(std::in_place); }); break;
				default: { const auto t = V::mk(q.v); guarded(r, [&] { new(&s) C(std::in_place, pass(t)); }); break; }
			}
			if(r.x) new(&s) C;
			break;
		}
		case U_MVCREATE: guarded(r, [&] { s.~C(); new(&s) C(std::move(o)); }); break;
		case U_ASSIGN:
			switch(q.ov) {
				case 0: guarded(r, [&] { auto & x = (s = static_cast<const C &>(o)); r.rv = std::addressof(x) == &s; }); break;
				case 1: { const auto t = V::mk(q.v); guarded(r, [&] { auto & x = (s = t); r.rv = std::addressof(x) == &s; }); break; }
				case 2: { guarded(r, [&] { auto t = V::mk(q.v); auto & x = (s = std::move(t)); r.rv = std::addressof(x) == &s; }); break; }
				case 3: guarded(r, [&] { auto & x = (s = std::nullopt); r.rv = std::addressof(x) == &s; }); break;
				case 4: guarded(r, [&] { auto & x = (s = static_cast<const T &>(*o)); r.rv = std::addressof(x) == &s; }); break; // the value inside o (possibly s itself)
				default: guarded(r, [&] { auto & x = (s = std::move(*o)); r.rv = std::addressof(x) == &s; }); break;
			}
			break;
		case U_MVASSIGN: guarded(r, [&] { auto & x = (s = std::move(o)); r.rv = std::addressof(x) == &s; }); break;
		case U_EMPLACE: {
			auto note = [&](T & x) { r.rv = std::addressof(x) == where(s); };
			switch(q.ov) {
				case 0: with_args<T>(q.v, [&](auto... a) { guarded(r, [&] { note(s.emplace(a...)); }); }); break;
				case 1: guarded(r, [&] { note(s.emplace()); }); break;
				case 2: { const auto t = V::mk(q.v); guarded(r, [&] { note(s.emplace(pass(t))); }); break; }
				case 3: { guarded(r, [&] { auto t = V::mk(q.v); note(s.emplace(pass(t, 0))); }); break; }
				case 4: guarded(r, [&] { note(s.emplace(pass(static_cast<const T &>(*o)))); }); break;
				default: guarded(r, [&] { note(s.emplace(pass(*o, 0))); }); break;
			}
			break;
		}
		case U_RESET: guarded(r, [&] { s.reset(); }); break;
		case U_SWAP: guarded(r, [&] { switch(q.ov) { case 0: s.swap(o); break; case 1: swap(s, o); break; default: { using std::swap; swap(s, o); } } }); break;
		case U_WRITE:
			switch(q.ov) {
				case 0: set(*s, q.v); break;
				case 1: set(*s.operator->(), q.v); break;
				case 2: set(s.value(), q.v); break;
				default: { guarded(r, [&] { auto t = V::mk(q.v); *s = std::move(t); }); }
			}
			break;
		case U_READ: {
			const C & c = s;
			const T * p = c.has_value() ? where(c) : nullptr;
			guarded(r, [&] {
				switch(q.ov) {
					case 0: switch(q.cat) {
						case 0: ref<const T &>(r, c.value(), p); r.cq = constness<decltype(c.value())>(); r.rq = category<decltype(c.value())>(); break;
						case 1: { auto && x = s.value(); ref<decltype(s.value())>(r, static_cast<decltype(s.value())>(x), p); break; }
						case 2: { auto && x = std::move(c).value(); ref<decltype(std::move(c).value())>(r, static_cast<decltype(std::move(c).value())>(x), p); break; }
						default: { auto && x = std::move(s).value(); ref<decltype(std::move(s).value())>(r, static_cast<decltype(std::move(s).value())>(x), p); break; }
					} break;
					case 1: if(p) switch(q.cat) {
						case 0: { auto && x = *c; ref<decltype(*c)>(r, static_cast<decltype(*c)>(x), p); break; }
						case 1: { auto && x = *s; ref<decltype(*s)>(r, static_cast<decltype(*s)>(x), p); break; }
						case 2: { auto && x = *std::move(c); ref<decltype(*std::move(c))>(r, static_cast<decltype(*std::move(c))>(x), p); break; }
						default: { auto && x = *std::move(s); ref<decltype(*std::move(s))>(r, static_cast<decltype(*std::move(s))>(x), p); break; }
					} break;
					case 2: { const auto d = V::mk(q.v); auto x = c.value_or(d); r.rv = V::get(x); break; }
					case 3: { auto d = V::mk(q.v); auto x = c.value_or(std::move(d)); r.rv = V::get(x); break; }
					case 4: { const auto d = V::mk(q.v); auto x = std::move(s).value_or(d); r.rv = V::get(x); break; }
					case 5: value_or_int(c, q.v, r); break;
					case 6: r.rv = c.has_value(); break;
					default: r.rv = static_cast<bool>(c); break;
				}
			});
			break;
		}
	}
}
void observe(const void * obj, int via, SumObs * ob) {
	const C & c = *static_cast<const C *>(obj);
	C & m = const_cast<C &>(c);
	ob->holds = c.has_value(); ob->gif = static_cast<bool>(c);
	ob->a = ob->holds; ob->v = 0; ob->p = ob->data = nullptr; ob->tracked = 0;
	if(!ob->holds) { bool thrown = false; try { (void)c.value(); } catch(const std::bad_optional_access &) { thrown = true; } if(!thrown) ob->a = -1; return; }
	switch(via % 6) {
		case 0: ob->v = V::get(*c); break;
		case 1: ob->v = V::get(*m); break;
		case 2: ob->v = V::get(c.value()); break;
		case 3: ob->v = V::get(m.value()); break;
		case 4: ob->v = V::get(*c.operator->()); break;
		default: ob->v = V::get(*m.operator->()); break;
	}
	ob->p = where(c); ob->data = data_of(*c); ob->tracked = tracked<T>;
}
#else
#if SUM_TYPE == 4
using C = ptl::variant<Elem>;
constexpr int alts = 1;
#elif SUM_TYPE == 5
using C = ptl::variant<int, Elem>;
constexpr int alts = 2;
#elif SUM_TYPE == 6
using C = ptl::variant<Elem, char, Big, NElem, LElem>;
constexpr int alts = 5;
#elif SUM_TYPE == 7
using C = ptl::variant<char, ptl::string, Elem>;
constexpr int alts = 3;
#endif
template<std::size_t I, class> struct alt;
template<std::size_t I, class H, class... Ts> struct alt<I, ptl::variant<H, Ts...>> : alt<I - 1, ptl::variant<Ts...>> {};
template<class H, class... Ts> struct alt<0, ptl::variant<H, Ts...>> { using type = H; };
template<std::size_t I> using Alt = typename alt<I, C>::type;
constexpr bool is_optional = false;
template<class T, class> struct index_of;
template<class T, class... Ts> struct index_of<T, ptl::variant<Ts...>> { static constexpr int value() { int k = 0; bool f = false; ((f = f || std::is_same_v<T, Ts>, k += !f), ...); return k; } };

// a visitor that records everything
struct Recorder {
	SumRes * r; const void * p; const SumReq * q;
	template<class X> long operator()(X && x) const {
		using T = std::remove_const_t<std::remove_reference_t<X>>;
		r->calls = (r->calls < 0 ? 0 : r->calls) + 1;
		r->va = index_of<T, C>::value() + 1; r->vv = Val<T>::get(x);
		r->same = static_cast<const void *>(std::addressof(x)) == p;
		r->cq = constness<X>(); r->rq = category<X &&>();
		if(q->thr == 1) throw user_fault{};
		if constexpr(!std::is_const_v<std::remove_reference_t<X>>) if(q->thr == 2) { core_window(0); set(x, q->v); core_window(1); }
		return 1000 + r->va;
	}
};
template<class T> struct OneOf : Recorder { // accepts only alternative T
	explicit OneOf(const Recorder & b) : Recorder{b} {}
	long operator()(const T & x) const { return Recorder::operator()(x); }
	long operator()(T & x) const { return Recorder::operator()(x); }
	long operator()(T && x) const { return Recorder::operator()(std::move(x)); }
	long operator()(const T && x) const { return Recorder::operator()(std::move(x)); }
};
struct Rest : Recorder { // everything else
	explicit Rest(const Recorder & b) : Recorder{b} {}
	template<class X> long operator()(X && x) const { return Recorder::operator()(std::forward<X>(x)); }
};
thread_local long cell_;
struct RefResult : Recorder { template<class X> long & operator()(X && x) const { Recorder::operator()(std::forward<X>(x)); return cell_; } };
struct VoidResult : Recorder { template<class X> void operator()(X && x) const { Recorder::operator()(std::forward<X>(x)); } };

const void * where_any(const C & c);
template<class Expr> void visits(Expr && c, const SumReq & q, SumRes & r, const void * p) {
	Recorder rec{&r, p, &q};
	long res = -1;
	guarded(r, [&] {
		switch(q.ov) {
			case 0: res = std::forward<Expr>(c).visit(rec); break;
			case 1: res = std::forward<Expr>(c).visit(OneOf<Alt<0>>{rec}, Rest{rec}); break;
			case 2: if constexpr(alts > 1) res = std::forward<Expr>(c).visit(OneOf<Alt<(alts > 1)>>{rec}, OneOf<Alt<0>>{rec}, Rest{rec}); else res = std::forward<Expr>(c).visit(rec); break;
			case 3: { RefResult rr{rec}; auto & x = std::forward<Expr>(c).visit(rr); res = std::addressof(x) == &cell_ ? 1000 + r.va : -2; break; }
			case 4: { VoidResult vr{rec}; std::forward<Expr>(c).visit(vr); static_assert(std::is_void_v<decltype(std::forward<Expr>(c).visit(vr))>); res = 1000 + r.va; break; }
			default: { const auto l = [&](auto && x) { return rec(std::forward<decltype(x)>(x)); }; res = std::forward<Expr>(c).visit(l); }
		}
	});
	r.res = static_cast<int>(res);
}

template<std::size_t I> struct Per {
	using T = Alt<I>;
	using V = Val<T>;
	static void apply(C & s, C & o, const SumReq & q, SumRes & r) {
		(void)o;
		switch(q.op) {
			case U_CREATE:
				switch(q.ov) {
					case 2: { const auto t = V::mk(q.v); guarded(r, [&] { new(&s) C(t); }); break; }
					case 3: { guarded(r, [&] { auto t = V::mk(q.v); new(&s) C(std::move(t)); }); break; }
					case 4: with_args<T>(q.v, [&](auto... a) { guarded(r, [&] { new(&s) C(std::in_place_index<I>, a...); }); }); break;
					case 5: with_args<T>(q.v, [&](auto... a) { guarded(r, [&] { new(&s) C(std::in_place_type<T>, a...); }); }); break;
					case 6: guarded(r, [&] { new(&s) C(std::in_place_index<I>); }); break;
					default: { auto t = V::mk(q.v); guarded(r, [&] { new(&s) C(t); }); break; }
				}
				break;
			case U_ASSIGN:
				switch(q.ov) {
					case 1: { const auto t = V::mk(q.v); guarded(r, [&] { auto & x = (s = t); r.rv = std::addressof(x) == &s; }); break; }
					case 2: { guarded(r, [&] { auto t = V::mk(q.v); auto & x = (s = std::move(t)); r.rv = std::addressof(x) == &s; }); break; }
					case 3: { auto t = V::mk(q.v); guarded(r, [&] { auto & x = (s = t); r.rv = std::addressof(x) == &s; }); break; }
					case 4: guarded(r, [&] { auto & x = (s = static_cast<const T &>(*o.template get_if<T>())); r.rv = std::addressof(x) == &s; }); break;
					default: guarded(r, [&] { auto & x = (s = std::move(*o.template get_if<T>())); r.rv = std::addressof(x) == &s; }); break;
				}
				break;
			case U_EMPLACE: {
				auto note = [&](T & x) { r.rv = std::addressof(x) == static_cast<const C &>(s).template get_if<T>(); };
				switch(q.ov) {
					case 0: with_args<T>(q.v, [&](auto... a) { guarded(r, [&] { note(s.template emplace<I>(a...)); }); }); break;
					case 1: with_args<T>(q.v, [&](auto... a) { guarded(r, [&] { note(s.template emplace<T>(a...)); }); }); break;
					case 2: guarded(r, [&] { note(s.template emplace<I>()); }); break;
					case 3: { const auto t = V::mk(q.v); guarded(r, [&] { note(s.template emplace<T>(pass(t))); }); break; }
					default: { guarded(r, [&] { auto t = V::mk(q.v); note(s.template emplace<I>(pass(t, 0))); }); break; }
				}
				break;
			}
			case U_WRITE:
				switch(q.ov) {
					case 0: set(s.template get<T>(), q.v); break;
					case 1: set(*s.template get_if<T>(), q.v); break;
					default: { guarded(r, [&] { auto t = V::mk(q.v); s.template get<T>() = std::move(t); }); }
				}
				break;
			case U_READ: {
				const C & c = s;
				const T * p = c.template get_if<T>();
				guarded(r, [&] {
					switch(q.ov) {
						case 0: switch(q.cat) {
							case 0: { auto && x = c.template get<T>(); ref<decltype(c.template get<T>())>(r, static_cast<decltype(c.template get<T>())>(x), p); break; }
							case 1: { auto && x = s.template get<T>(); ref<decltype(s.template get<T>())>(r, static_cast<decltype(s.template get<T>())>(x), p); break; }
							case 2: { auto && x = std::move(c).template get<T>(); ref<decltype(std::move(c).template get<T>())>(r, static_cast<decltype(std::move(c).template get<T>())>(x), p); break; }
							default: { auto && x = std::move(s).template get<T>(); ref<decltype(std::move(s).template get<T>())>(r, static_cast<decltype(std::move(s).template get<T>())>(x), p); break; }
						} break;
						case 1: if(q.cat % 2) { auto x = s.template get_if<T>(); r.rv = x ? V::get(*x) : -1; r.same = x == p; r.cq = constness<decltype(*x)>(); } else { auto x = c.template get_if<T>(); r.rv = x ? V::get(*x) : -1; r.same = x == p; r.cq = constness<decltype(*x)>(); } break;
						default: r.rv = c.template holds<T>();
					}
				});
				break;
			}
		}
	}
	static void observe(const C & c, int via, SumObs & ob) {
		C & m = const_cast<C &>(c);
		const bool h = c.template holds<T>();
		const T * p = c.template get_if<T>();
		ob.holds += h; ob.gif += p != nullptr;
		if(m.template get_if<T>() != p || h != (p != nullptr)) ob.gif += 1000;
		if(!h) {
			bool thrown = false;
			try { (void)c.template get<T>(); } catch(const std::bad_variant_access &) { thrown = true; }
			if(!thrown) ob.gif += 1000;
			return;
		}
		ob.a = I + 1; ob.p = p; ob.tracked = tracked<T>; ob.data = data_of(*p);
		switch(via % 4) { case 0: ob.v = V::get(*p); break; case 1: ob.v = V::get(c.template get<T>()); break; case 2: ob.v = V::get(m.template get<T>()); break; default: ob.v = V::get(*m.template get_if<T>()); }
	}
};
template<std::size_t... I> void dispatch(std::index_sequence<I...>, int a, C & s, C & o, const SumReq & q, SumRes & r) {
	using F = void (*)(C &, C &, const SumReq &, SumRes &);
	static constexpr F f[]{&Per<I>::apply...};
	f[a - 1](s, o, q, r);
}
using Idx = std::make_index_sequence<alts>;
template<std::size_t... I> void look(std::index_sequence<I...>, const C & c, int via, SumObs & ob) { (Per<I>::observe(c, via, ob), ...); }
const void * where_any(const C & c) { SumObs ob{}; look(Idx{}, c, 0, ob); return ob.p; }

void apply(const SumReq * qp, SumRes * rp) {
	const SumReq & q = *qp; SumRes & r = *rp;
	r = SumRes{0, -1, -1, -1, -1, -1, -1, -1, -1};
	auto & s = *static_cast<C *>(q.self);
	auto & o = *static_cast<C *>(q.other);
	switch(q.op) {
		case U_DESTROY: guarded(r, [&] { s.~C(); }); break;
		case U_INIT: guarded(r, [&] { new(&s) C; }); break;
		case U_CREATE:
			guarded(r, [&] { s.~C(); });
			if(q.ov == 0) guarded(r, [&] { new(&s) C; });
			else if(q.ov == 1) guarded(r, [&] { new(&s) C(static_cast<const C &>(o)); });
			else dispatch(Idx{}, q.a, s, o, q, r);
			if(r.x) new(&s) C;
			break;
		case U_MVCREATE: guarded(r, [&] { s.~C(); new(&s) C(std::move(o)); }); break;
		case U_ASSIGN:
			if(q.ov == 0) guarded(r, [&] { auto & x = (s = static_cast<const C &>(o)); r.rv = std::addressof(x) == &s; });
			else dispatch(Idx{}, q.a, s, o, q, r);
			break;
		case U_MVASSIGN: guarded(r, [&] { auto & x = (s = std::move(o)); r.rv = std::addressof(x) == &s; }); break;
		case U_SWAP: guarded(r, [&] { switch(q.ov) { case 0: s.swap(o); break; case 1: swap(s, o); break; default: { using std::swap; swap(s, o); } } }); break;
		case U_VISIT: {
			const void * p = where_any(s);
			switch(q.cat) {
				case 0: visits(static_cast<const C &>(s), q, r, p); break;
				case 1: visits(s, q, r, p); break;
				case 2: visits(static_cast<const C &&>(s), q, r, p); break;
				default: visits(std::move(s), q, r, p); break;
			}
			break;
		}
		default: dispatch(Idx{}, q.a, s, o, q, r);
	}
}
void observe(const void * obj, int via, SumObs * ob) {
	*ob = SumObs{-1, 0, 0, 0, nullptr, nullptr, 0};
	look(Idx{}, *static_cast<const C *>(obj), via, *ob);
}
#endif
}
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
extern "C" const SumMod *CAT(sum_mod_, SUM_TYPE)() {
	static const SumMod m{sizeof(C), alignof(C), alts, is_optional, apply, observe};
	return &m;
}
