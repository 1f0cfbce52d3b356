// A variant with a great many alternatives: everything that depends on the width of the index.
#include "sum.h"
#include "elem.h"
#include <ptl/variant.hpp>
#include <array>
#ifndef WIDE
#define WIDE 130
#endif
namespace {
template<class> struct wide;
template<std::size_t... I> struct wide<std::index_sequence<I...>> { using type = ptl::variant<Tag<I>...>; };
using C = wide<std::make_index_sequence<WIDE>>::type;
template<class T> struct tag_index;
template<std::size_t I> struct tag_index<Tag<I>> { static constexpr int value = I; };
struct Who { int * a; int * v; const void ** p; template<std::size_t I> long operator()(const Tag<I> & x) const { *a = I + 1; *v = x.v; *p = std::addressof(x); return 1000 + *a; } };

template<std::size_t I> void per(C & s, const SumReq & q, SumRes & r) {
	using T = Tag<I>;
	switch(q.op) {
		case U_CREATE: if(q.ov == 6) new(&s) C(std::in_place_index<I>); else if(q.ov % 2) new(&s) C(T{q.v}); else new(&s) C(std::in_place_index<I>, q.v); break;
		case U_ASSIGN: { auto & x = (s = T{q.v}); r.rv = &x == &s; break; }
		case U_EMPLACE: { T * x; if(q.ov == 2) x = std::addressof(s.template emplace<I>()); else if(q.ov % 2) x = std::addressof(s.template emplace<I>(q.v)); else x = std::addressof(s.template emplace<T>(q.v)); r.rv = x == s.template get_if<T>(); break; }
		case U_WRITE: s.template get_if<T>()->v = q.v; break;
		case U_READ:
			switch(q.ov) {
				case 0: { const C & c = s; auto & x = c.template get<T>(); r.rv = x.v; r.same = std::addressof(x) == s.template get_if<T>(); r.cq = 1; r.rq = 0; break; }
				case 1: { const C & c = s; auto x = c.template get_if<T>(); r.rv = x ? x->v : -1; r.same = x == s.template get_if<T>(); r.cq = 1; break; }
				default: r.rv = s.template holds<T>();
			}
			break;
	}
}
template<std::size_t I> void check(const C & c, SumObs & ob) {
	const bool h = c.template holds<Tag<I>>();
	auto p = c.template get_if<Tag<I>>();
	if(h != (ob.a == static_cast<int>(I) + 1) || h != (p != nullptr)) ob.gif += 1000;
	if(h && (p != ob.p || p->v != ob.v)) ob.gif += 1000;
}
// the alternatives that are used
using Some = std::index_sequence<0, 1, 2, 63, 64, 126, 127, 128, WIDE - 2, WIDE - 1>;
template<std::size_t... I> void dispatch(std::index_sequence<I...>, int a, C & s, const SumReq & q, SumRes & r) {
	((a == static_cast<int>(I) + 1 ? per<I>(s, q, r) : void()), ...);
}
template<std::size_t... I> void checks(std::index_sequence<I...>, const C & c, SumObs & ob) { (check<I>(c, ob), ...); }
void apply(const SumReq * qp, SumRes * rp) {
	const SumReq & q = *qp; SumRes & r = *rp;
	r = SumRes{0, -1, -1, -1, -1, -1, -1, -1, -1};
	auto & s = *static_cast<C *>(q.self);
	auto & o = *static_cast<C *>(q.other);
	try {
		switch(q.op) {
			case U_DESTROY: s.~C(); break;
			case U_INIT: new(&s) C; break;
			case U_CREATE: s.~C(); if(q.ov == 0) new(&s) C; else if(q.ov == 1) new(&s) C(static_cast<const C &>(o)); else dispatch(Some{}, q.a, s, q, r); break;
			case U_MVCREATE: s.~C(); new(&s) C(std::move(o)); break;
			case U_ASSIGN: if(q.ov == 0) { auto & x = (s = static_cast<const C &>(o)); r.rv = &x == &s; } else dispatch(Some{}, q.a, s, q, r); break;
			case U_MVASSIGN: { auto & x = (s = std::move(o)); r.rv = &x == &s; break; }
			case U_SWAP: s.swap(o); break;
			case U_VISIT: {
				int a = -1, v = 0; const void * p = nullptr;
				r.res = static_cast<int>(static_cast<const C &>(s).visit(Who{&a, &v, &p}));
				r.calls = 1; r.va = a; r.vv = v; r.same = 1; r.cq = 1; r.rq = 0;
				break;
			}
			default: dispatch(Some{}, q.a, s, q, r);
		}
	} catch(const std::bad_variant_access &) { r.x = X_BADVAR; } catch(...) { r.x = X_OTHER; }
}
void observe(const void * obj, int, SumObs * ob) {
	*ob = SumObs{-1, 0, 1, 1, nullptr, nullptr, 0};
	auto & c = *static_cast<const C *>(obj);
	c.visit(Who{&ob->a, &ob->v, &ob->p});
	checks(Some{}, c, *ob);
}
}
extern "C" const SumMod *sum_mod_8() {
	static const SumMod m{sizeof(C), alignof(C), WIDE, false, apply, observe};
	return &m;
}
