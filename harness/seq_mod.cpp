// Operations of ptl::string and ptl::vector<T>; compiled once per type (SEQ_TYPE) and compiler.
#define BLUNT
#include "seq.h"
#include "elem.h"
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/vector.hpp>
#include <vector>

namespace {
#if SEQ_TYPE == 0
using C = ptl::string; using T = char;
constexpr bool is_string = true;
#else
constexpr bool is_string = false;
#if SEQ_TYPE == 1
using T = int;
#elif SEQ_TYPE == 2
using T = unsigned char;
#elif SEQ_TYPE == 3
using T = Elem;
#elif SEQ_TYPE == 4
using T = Big;
#elif SEQ_TYPE == 6
using T = NElem;
#else
using T = Over;
#endif
using C = ptl::vector<T>;
#endif
using V = Val<T>;

template<class F> void guarded(SeqRes & r, F f) {
	try { core_window(1); f(); core_window(0); return; }
	catch(const user_fault &) { r.x = X_USER; }
	catch(const std::length_error &) { r.x = X_LENGTH; }
	catch(const std::bad_alloc &) { r.x = X_ALLOC; }
	catch(const std::out_of_range &) { r.x = X_RANGE; }
	catch(...) { r.x = X_OTHER; }
	core_window(0);
}

// the values of a literal argument, in several arrangements
struct Lits {
	std::vector<T> fwd, rev, spaced;
	explicit Lits(const SeqReq & q) {
		if(q.src || q.shape == OBJ || q.shape == NOARG || q.shape == LIT || q.shape == DEFN) return;
		const auto n = q.nx;
		auto fill = [&](std::vector<T> & v, std::size_t k, auto val) { v.reserve(k ? k : 1); for(std::size_t i = 0; i < k; ++i) v.push_back(V::mk(val(i))); };
		const int it = q.it % 9;
		if(q.shape == IT && it == 5) fill(rev, n, [&](std::size_t i) { return q.xs[n - 1 - i]; });
		else if(q.shape == IT && (it == 3 || it == 4 || it == 6 || it == 7)) fill(spaced, 3 * n + 3, [&](std::size_t i) { return i % 3 == 1 && i / 3 < n ? q.xs[i / 3] : 99; });
		else fill(fwd, n, [&](std::size_t i) { return q.xs[i]; });
	}
};

template<class F> void with_range(const SeqReq & q, Lits & l, F f) {
	if(q.src) {
		auto & s = *static_cast<C *>(q.src);
		const auto & cs = s;
		const auto i = static_cast<std::ptrdiff_t>(q.si), j = static_cast<std::ptrdiff_t>(q.sj);
		if(q.sr) switch(q.it % 3) {
			case 0: f(s.rend() - j, s.rend() - i); break;
			case 1: f(cs.rend() - j, cs.rend() - i); break;
			default: f(std::make_reverse_iterator(cs.data() + j), std::make_reverse_iterator(cs.data() + i)); break;
		} else switch(q.it % 7) {
			case 0: f(cs.begin() + i, cs.begin() + j); break;
			case 1: f(s.begin() + i, s.begin() + j); break;
			case 2: f(cs.data() + i, cs.data() + j); break;
			case 3: f(s.data() + i, s.data() + j); break;
			case 4: f(FwdIt<T>{cs.data() + i, 1}, FwdIt<T>{cs.data() + j, 1}); break;
			case 5: { const T * cur = cs.data() + i; f(InIt<T>{&cur, cs.data() + j}, InIt<T>{nullptr, nullptr}); break; }
			default: f(RndIt<T>{cs.data() + i, 1}, RndIt<T>{cs.data() + j, 1}); break;
		}
		return;
	}
	const auto n = static_cast<std::ptrdiff_t>(q.nx);
	const T * p = l.fwd.data();
	switch(q.it % 9) {
		case 0: f(p, p + n); break;
		case 1: f(l.fwd.data(), l.fwd.data() + n); break;
		case 2: { const T * cur = p; f(InIt<T>{&cur, p + n}, InIt<T>{nullptr, nullptr}); break; }
		case 3: f(FwdIt<T>{l.spaced.data() + 1, 3}, FwdIt<T>{l.spaced.data() + 1 + 3 * n, 3}); break;
		case 4: f(BidIt<T>{l.spaced.data() + 1, 3}, BidIt<T>{l.spaced.data() + 1 + 3 * n, 3}); break;
		case 5: f(std::make_reverse_iterator(l.rev.data() + n), std::make_reverse_iterator(l.rev.data())); break;
		case 6: f(RndIt<T>{l.spaced.data() + 1, 3}, RndIt<T>{l.spaced.data() + 1 + 3 * n, 3}); break;
		case 7: f(std::make_reverse_iterator(RndIt<T>{l.spaced.data() + 1 + 3 * n, 3}), std::make_reverse_iterator(RndIt<T>{l.spaced.data() + 1, 3})); break; // delivers xs reversed
		default: f(l.fwd.begin(), l.fwd.end()); break;
	}
}
template<class F> void with_il(const SeqReq & q, Lits & l, F f) {
	const auto & a = l.fwd;
	switch(q.nx) {
		case 0: f(std::initializer_list<T>{}); break;
		case 1: f({a[0]}); break;
		case 2: f({a[0], a[1]}); break;
		case 3: f({a[0], a[1], a[2]}); break;
		case 4: f({a[0], a[1], a[2], a[3]}); break;
		case 5: f({a[0], a[1], a[2], a[3], a[4]}); break;
		default: f({a[0], a[1], a[2], a[3], a[4], a[5]}); break;
	}
}
[[maybe_unused]] std::string_view sv_arg(const SeqReq & q, Lits & l) {
#if SEQ_TYPE == 0
	if(q.src) { auto & s = *static_cast<const C *>(q.src); return {s.data() + q.si, q.sj - q.si}; }
	return {l.fwd.data(), q.nx};
#else
	(void)q; (void)l; return {};
#endif
}
// element argument by reference: from the source object or literal
const T & ref_arg(const SeqReq & q, Lits & l) { return q.src ? (*static_cast<const C *>(q.src))[q.si] : l.fwd[0]; }

#if SEQ_TYPE == 0
using namespace ptl::literals;
C lit(int k) {
	switch(k % 6) {
		case 0: return ""_s;
		case 1: return "a"_s;
		case 2: return "ab\0cd"_s;
		case 3: return "0123456789012345678901"_s;
		case 4: return "01234567890123456789012"_s;
		default: return "0123456789\0\xff" "012345678901234567890123456789"_s;
	}
}
#endif

template<class R> long index_of(const C & c, R it) { return static_cast<long>(it - c.begin()); }

void apply(const SeqReq * qp, SeqRes * rp) {
	const SeqReq & q = *qp; SeqRes & r = *rp;
	r.x = X_NONE; r.rv = -1;
	auto & s = *static_cast<C *>(q.self);
	[[maybe_unused]] auto & o = *static_cast<C *>(q.other);
	Lits l{q};
	const auto i = static_cast<std::ptrdiff_t>(q.i), j = static_cast<std::ptrdiff_t>(q.j);
	auto pos = [&](std::ptrdiff_t k) -> typename C::const_iterator { return (q.it & 1) ? typename C::const_iterator{s.begin() + k} : s.cbegin() + k; };
	switch(q.op) {
		case CREATE:
			guarded(r, [&] { s.~C(); });
			// a failing constructor leaves no object behind: re-create an empty one
			switch(q.shape) {
				case NOARG: guarded(r, [&] { new(&s) C; }); break;
				case OBJ: guarded(r, [&] { new(&s) C(static_cast<const C &>(o)); }); break;
				case IT: with_range(q, l, [&](auto f, auto e) { guarded(r, [&] { new(&s) C(f, e); }); }); break;
				case IL: with_il(q, l, [&](std::initializer_list<T> il) { guarded(r, [&] { new(&s) C(il); }); }); break;
				case FILL: guarded(r, [&] { new(&s) C(q.n, ref_arg(q, l)); }); break;
#if SEQ_TYPE == 0
				case SV: guarded(r, [&] { new(&s) C(sv_arg(q, l)); }); break;
				case LIT: guarded(r, [&] { new(&s) C(lit(static_cast<int>(q.n))); }); break;
#else
				case DEFN: guarded(r, [&] { new(&s) C(q.n); }); break;
#endif
			}
			if(r.x != X_NONE) new(&s) C;
			break;
		case SEQ_OPS: guarded(r, [&] { new(&s) C; }); break;
		case MVCREATE: guarded(r, [&] { s.~C(); new(&s) C(std::move(o)); }); break;
		case DESTROY: guarded(r, [&] { s.~C(); }); break;
		case ASSIGN:
			switch(q.shape) {
				case OBJ: guarded(r, [&] { auto & x = (s = static_cast<const C &>(o)); r.rv = &x == &s; }); break;
				case IT: with_range(q, l, [&](auto f, auto e) { guarded(r, [&] { s.assign(f, e); }); }); break;
				case FILL: guarded(r, [&] { s.assign(q.n, ref_arg(q, l)); }); break;
				case IL: with_il(q, l, [&](std::initializer_list<T> il) { guarded(r, [&] { if(q.ov & 1) s.assign(il); else { auto & x = (s = il); r.rv = &x == &s; } }); }); break;
#if SEQ_TYPE == 0
				case SV: guarded(r, [&] { if(q.ov & 1) s.assign(sv_arg(q, l)); else { auto & x = (s = sv_arg(q, l)); r.rv = &x == &s; } }); break;
#endif
			}
			break;
		case MVASSIGN: guarded(r, [&] { auto & x = (s = std::move(o)); r.rv = &x == &s; }); break;
		case APPEND:
#if SEQ_TYPE == 0
			switch(q.shape) {
				case IT: with_range(q, l, [&](auto f, auto e) { guarded(r, [&] { s.append(f, e); }); }); break;
				case FILL: guarded(r, [&] { s.append(q.n, ref_arg(q, l)); }); break;
				case IL: with_il(q, l, [&](std::initializer_list<T> il) { guarded(r, [&] { if(q.ov & 1) s.append(il); else { auto & x = (s += il); r.rv = &x == &s; } }); }); break;
				case SV: guarded(r, [&] { if(q.ov & 1) s.append(sv_arg(q, l)); else { auto & x = (s += sv_arg(q, l)); r.rv = &x == &s; } }); break;
				case OBJ: guarded(r, [&] { auto & x = (s += static_cast<const C &>(o)); r.rv = &x == &s; }); break;
				case CH: guarded(r, [&] { if(q.ov & 1) { auto & x = (s += ref_arg(q, l)); r.rv = &x == &s; } else { auto & x = s.push_back(ref_arg(q, l)); r.rv = &x - s.data(); } }); break;
			}
#else
			switch(q.shape) {
				case ONE_L: guarded(r, [&] { auto & x = s.push_back(ref_arg(q, l)); r.rv = std::addressof(x) - s.data(); }); break;
				case ONE_R: guarded(r, [&] { auto & x = s.push_back(std::move(l.fwd[0])); r.rv = std::addressof(x) - s.data(); }); break;
				case EMPL:
					if(q.src) guarded(r, [&] { auto & x = s.emplace_back(pass(ref_arg(q, l))); r.rv = std::addressof(x) - s.data(); });
#if SEQ_TYPE == 4
					else { const int v = q.xs[0]; guarded(r, [&] { auto & x = s.emplace_back(v, v, v, v, v, v); r.rv = std::addressof(x) - s.data(); }); }
#elif SEQ_TYPE == 2
					else { const auto v = static_cast<unsigned char>(q.xs[0]); guarded(r, [&] { auto & x = s.emplace_back(v); r.rv = &x - s.data(); }); }
#else
					else { const int v = q.xs[0]; guarded(r, [&] { auto & x = s.emplace_back(v); r.rv = std::addressof(x) - s.data(); }); }
#endif
					break;
			}
#endif
			break;
		case INSERT:
			switch(q.shape) {
				case IT: with_range(q, l, [&](auto f, auto e) { guarded(r, [&] { auto x = s.insert(pos(i), f, e); r.rv = index_of(s, x); }); }); break;
				case FILL: guarded(r, [&] { auto x = s.insert(pos(i), q.n, ref_arg(q, l)); r.rv = index_of(s, x); }); break;
				case IL: with_il(q, l, [&](std::initializer_list<T> il) { guarded(r, [&] { auto x = s.insert(pos(i), il); r.rv = index_of(s, x); }); }); break;
				case CH: case ONE_L: guarded(r, [&] { auto x = s.insert(pos(i), ref_arg(q, l)); r.rv = index_of(s, x); }); break;
#if SEQ_TYPE == 0
				case SV: guarded(r, [&] { auto x = s.insert(pos(i), sv_arg(q, l)); r.rv = index_of(s, x); }); break;
#else
				case ONE_R: guarded(r, [&] { auto x = s.insert(pos(i), std::move(l.fwd[0])); r.rv = index_of(s, x); }); break;
				case EMPL: guarded(r, [&] { auto x = s.emplace(pos(i), pass(ref_arg(q, l))); r.rv = index_of(s, x); }); break;
#endif
			}
			break;
		case ERASE: guarded(r, [&] { auto x = (q.ov & 1) ? s.erase(pos(i)) : s.erase(pos(i), pos(j)); r.rv = index_of(s, x); }); break;
		case POP: guarded(r, [&] { s.pop_back(); }); break;
		case CLEAR: guarded(r, [&] { s.clear(); }); break;
		case RESIZE:
			if(q.shape == NOARG) guarded(r, [&] { s.resize(q.n); });
			else guarded(r, [&] { s.resize(q.n, ref_arg(q, l)); });
			break;
		case RESERVE: guarded(r, [&] { s.reserve(q.n); }); break;
		case SHRINK: guarded(r, [&] { s.shrink_to_fit(); }); break;
#if SEQ_TYPE == 0
		case REPLACE:
			switch(q.shape) {
				case IT: with_range(q, l, [&](auto f, auto e) { guarded(r, [&] { auto & x = s.replace(pos(i), pos(j), f, e); r.rv = &x == &s; }); }); break;
				case FILL: guarded(r, [&] { auto & x = s.replace(pos(i), pos(j), q.n, ref_arg(q, l)); r.rv = &x == &s; }); break;
				case IL: with_il(q, l, [&](std::initializer_list<T> il) { guarded(r, [&] { auto & x = s.replace(pos(i), pos(j), il); r.rv = &x == &s; }); }); break;
				case SV: guarded(r, [&] { auto & x = s.replace(pos(i), pos(j), sv_arg(q, l)); r.rv = &x == &s; }); break;
			}
			break;
		case CONCAT: { // s := lhs + rhs, other is the ptl::string operand
			guarded(r, [&] { s.~C(); });
			const C & p = o;
			switch(q.ov) {
				case 0: guarded(r, [&] { new(&s) C(p + *static_cast<const C *>(q.src)); }); break;
				case 1: guarded(r, [&] { new(&s) C(std::string_view{l.fwd.data(), q.nx} + p); }); break;
				case 2: guarded(r, [&] { new(&s) C(p + std::string_view{l.fwd.data(), q.nx}); }); break;
				case 3: guarded(r, [&] { new(&s) C(l.fwd[0] + p); }); break;
				default: guarded(r, [&] { new(&s) C(p + l.fwd[0]); }); break;
			}
			if(r.x != X_NONE) new(&s) C;
			break;
		}
		case SUBSTR:
			guarded(r, [&] { s.~C(); });
			switch(q.ov) {
				case 0: guarded(r, [&] { new(&s) C(static_cast<const C &>(o).substr(q.i)); }); break;
				case 1: guarded(r, [&] { new(&s) C(static_cast<const C &>(o).substr(q.i, q.j - q.i)); }); break;
				case 2: guarded(r, [&] { new(&s) C(std::move(o).substr(q.i)); }); break;
				default: guarded(r, [&] { new(&s) C(std::move(o).substr(q.i, q.j - q.i)); }); break;
			}
			if(r.x != X_NONE) new(&s) C;
			break;
#endif
		case WRITE: {
			auto val = V::mk(q.v);
			const auto & n = s.size();
			guarded(r, [&] {
				switch(q.ov) {
					case 0: s[q.i] = val; break;
					case 1: s.at(q.i) = val; break;
					case 2: s.front() = val; break;
					case 3: s.back() = val; break;
					case 4: s.data()[q.i] = val; break;
					case 5: *(s.begin() + i) = val; break;
					case 6: s.rbegin()[static_cast<std::ptrdiff_t>(n) - 1 - i] = val; break;
					default: s.end()[i - static_cast<std::ptrdiff_t>(n)] = val; break;
				}
			});
			break;
		}
		case SWAP:
			guarded(r, [&] { switch(q.ov) { case 0: s.swap(o); break; case 1: swap(s, o); break; default: { using std::swap; swap(s, o); } } });
			break;
		case HUGE_OP: { // requests beyond max_size: q.n is the count, q.ov selects the operation
			GenIt<T> f, e;
			const T val = V::mk(q.v);
			f.val = e.val = std::addressof(val);
			e.i = static_cast<std::ptrdiff_t>(q.n);
			switch(q.ov) {
				case 0: guarded(r, [&] { s.reserve(q.n); }); break;
				case 1: guarded(r, [&] { s.resize(q.n); }); break;
				case 2: guarded(r, [&] { s.resize(q.n, val); }); break;
				case 3: guarded(r, [&] { s.assign(q.n, val); }); break;
				case 4: guarded(r, [&] { s.insert(pos(i), q.n, val); }); break;
				case 5: guarded(r, [&] { s.insert(pos(i), f, e); }); break;
				case 6: guarded(r, [&] { s.assign(f, e); }); break;
				case 7: { alignas(64) char buf[sizeof(C)]; r.rv = 1; guarded(r, [&] { new(buf) C(q.n, val); }); if(r.x == X_NONE) { reinterpret_cast<C *>(buf)->~C(); r.rv = 2; } break; }
				case 8: { alignas(64) char buf[sizeof(C)]; r.rv = 1; guarded(r, [&] { new(buf) C(f, e); }); if(r.x == X_NONE) { reinterpret_cast<C *>(buf)->~C(); r.rv = 2; } break; }
#if SEQ_TYPE == 0
				case 9: guarded(r, [&] { s.append(q.n, val); }); break;
				case 10: guarded(r, [&] { s.append(f, e); }); break;
				case 11: guarded(r, [&] { s.replace(pos(i), pos(j), q.n, val); }); break;
				case 12: guarded(r, [&] { s.replace(pos(i), pos(j), f, e); }); break;
#else
				case 9: { alignas(64) char buf[sizeof(C)]; r.rv = 1; guarded(r, [&] { new(buf) C(q.n); }); if(r.x == X_NONE) { reinterpret_cast<C *>(buf)->~C(); r.rv = 2; } break; }
#endif
			}
			break;
		}
		case READ: { // checked and unchecked access; out: value, or -1; second: index denoted by the reference
			const C & cs = s;
			guarded(r, [&] {
				const T * p = nullptr;
				switch(q.ov) {
					case 0: p = std::addressof(s.at(q.n)); break;
					case 1: p = std::addressof(cs.at(q.n)); break;
					case 2: p = std::addressof(s[q.n]); break;
					case 3: p = std::addressof(cs[q.n]); break;
					case 4: p = std::addressof(s.front()); break;
					case 5: p = std::addressof(cs.front()); break;
					case 6: p = std::addressof(s.back()); break;
					default: p = std::addressof(cs.back()); break;
				}
				r.rv = p - cs.data();
			});
			break;
		}
	}
}

void observe(const void * obj, int via, SeqObs * ob) {
	const C & c = *static_cast<const C *>(obj);
	C & m = const_cast<C &>(c);
	ob->n = c.size(); ob->cap = c.capacity(); ob->data = c.data(); ob->empty = c.empty(); ob->max = C::max_size();
	ob->nul = 0; ob->cstr = 1;
	if(ob->n > ob->cn) return;
	const auto n = ob->n;
	std::size_t k = 0;
	auto put = [&](const T & x) { if(k < ob->cn) ob->c[k] = V::get(x); ++k; };
	switch(via % 9) {
		case 0: for(std::size_t i = 0; i < n; ++i) put(c.data()[i]); break;
		case 1: for(auto & x : c) put(x); break;
		case 2: for(auto & x : m) put(x); break;
		case 3: for(std::size_t i = 0; i < n; ++i) put(c[i]); break;
		case 4: for(std::size_t i = 0; i < n; ++i) put(m.at(i)); break;
		case 5: { k = n; for(auto it = c.rbegin(); it != c.rend() && k > 0; ++it) { --k; ob->c[k] = V::get(*it); } k = k ? 0 : n; break; }
		case 6: { k = n; for(auto it = m.rbegin(); it != m.rend() && k > 0; ++it) { --k; ob->c[k] = V::get(*it); } k = k ? 0 : n; break; }
		case 7: for(auto it = c.cend(); it != c.cbegin() && k < n;) { --it; ++k; ob->c[n - k] = V::get(*it); } break;
		default:
#if SEQ_TYPE == 0
			{ std::string_view v = c; for(char x : v) put(x); }
#else
			for(std::size_t i = 0; i < n; ++i) put(m.data()[i]);
#endif
	}
	ob->n = k > ob->cn ? ob->cn + 1 : k;
#if SEQ_TYPE == 0
	ob->nul = static_cast<unsigned char>(c.data()[c.size()]);
	ob->cstr = c.c_str() == c.data();
#endif
}
}
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
extern "C" const SeqMod *CAT(seq_mod_, SEQ_TYPE)() {
	static const SeqMod m{sizeof(C), alignof(C), sizeof(T), alignof(T), apply, observe};
	return &m;
}
