// Operations of ptl::bitset<N>.
#include "bits.h"
#include "core.h"
#include <ptl/bitset.hpp>
#include <sstream>
#include <cstring>
#include <new>
struct bool_tag {};
namespace ptl { template<> inline constexpr bool enable_bitset_operator_bool<bool_tag>{true}; }
namespace {
using std::get;
template<class C, std::size_t... I> int structured(const C & c, std::size_t k, std::index_sequence<I...>) {
	int r = -1;
	((I == k ? void(r = get<I>(c)) : void()), ...);
	return r;
}
template<std::size_t N> struct B {
	using C = ptl::bitset<N, bool_tag>;
	static void apply(const BitReq * qp, BitRes * rp) {
		const BitReq & q = *qp; BitRes & r = *rp;
		r.x = X_NONE; r.rv = r.fail = r.left = r.same = -1; r.nout = 0;
		auto & s = *static_cast<C *>(q.self);
		auto & o = *static_cast<C *>(q.other);
		auto & t = *static_cast<C *>(q.third);
		const auto i = static_cast<std::size_t>(q.i), j = static_cast<std::size_t>(q.j);
		auto me = [&](C & x) { r.rv = &x == &s; };
		try {
			switch(q.op) {
				case B_DESTROY: s.~C(); break;
				case B_INIT: new(&s) C; break;
				case B_CREATE: s.~C(); switch(q.ov) { case 0: new(&s) C; break; case 1: new(&s) C(static_cast<const C &>(o)); break; default: new(&s) C(i); } break;
				case B_MVCREATE: s.~C(); new(&s) C(std::move(o)); break;
				case B_ASSIGN: if(q.ov) me(s = std::move(o)); else me(s = static_cast<const C &>(o)); break;
				case B_SET: switch(q.ov) { case 0: me(s.set()); break; case 1: me(s.set(i)); break; default: me(s.set(i, q.b)); } break;
				case B_RESET: if(q.ov) me(s.reset(i)); else me(s.reset()); break;
				case B_FLIP: if(q.ov) me(s.flip(i)); else me(s.flip()); break;
				case B_COMPOUND: switch(q.ov) { case 0: me(s &= o); break; case 1: me(s |= o); break; default: me(s ^= o); } break;
				case B_BINARY: switch(q.ov) { case 0: s = o & t; break; case 1: s = o | t; break; default: s = o ^ t; } break;
				case B_NOT: s = ~o; break;
				case B_SHIFT: if(q.ov) me(s >>= i); else me(s <<= i); break;
				case B_SHIFTED: if(q.ov) s = o >> i; else s = o << i; break;
				case B_REF:
					if constexpr(N > 0) switch(q.ov) {
						case 0: s[i] = static_cast<bool>(q.b); break;
						case 1: s.at(i) = static_cast<bool>(q.b); break;
						case 2: s[i] = o[j]; break;
						case 3: { auto x = o[j]; s[i] = x; break; }
						case 4: s[i].flip(); break;
						case 5: { auto x = s[i]; auto y = o[j]; x.swap(y); break; }
						case 6: swap(s[i], o[j]); break;
						case 7: s.at(i).flip(); break;
						case 8: { const auto x = static_cast<const C &>(o)[j]; s[i] = x; break; }
						default: { auto x = s[i]; auto y{x}; y = static_cast<bool>(q.b); r.rv = static_cast<bool>(x); }
					}
					break;
				case B_SWAP: switch(q.ov) { case 0: s.swap(o); break; case 1: swap(s, o); break; default: { using std::swap; swap(s, o); } } break;
				case B_READ: {
					const C & c = s;
					switch(q.ov) {
						case 0: r.rv = c.test(i); break;
						case 1: r.rv = c.at(i); break;
						case 2: r.rv = static_cast<bool>(s.at(i)); break;
						case 3: r.rv = c[i]; break;
						case 4: if constexpr(N > 0) r.rv = static_cast<bool>(s[i]); break;
						default: if constexpr(N > 0) r.rv = ~s[i]; break;
					}
					break;
				}
				case B_IN: {
					std::istringstream is(std::string(q.text, q.ntext));
					if(q.ov == 1) is >> std::noskipws;
					if(q.ov == 2) is.setstate(std::ios::failbit);
					r.same = &(is >> s) == static_cast<std::istream *>(&is);
					r.fail = is.fail();
					is.clear();
					r.left = static_cast<int>(q.ntext) - static_cast<int>(is.tellg());
					break;
				}
				case B_OUT: {
					std::ostringstream os;
					r.same = &(os << static_cast<const C &>(s)) == static_cast<std::ostream *>(&os);
					r.fail = os.fail();
					const auto text = os.str();
					r.nout = text.size() < N + 64 ? text.size() : N + 64;
					memcpy(r.out, text.data(), r.nout);
					break;
				}
			}
		} catch(const std::out_of_range &) { r.x = X_RANGE; } catch(...) { r.x = X_OTHER; }
	}
	static void observe(const void * obj, int via, BitObs * ob) {
		const C & c = *static_cast<const C *>(obj);
		C & m = const_cast<C &>(c);
		ob->nbits = 0; ob->agree = 1;
		for(std::size_t k = 0; k < N; ++k) {
			bool v = false;
			switch(via % 6) {
				case 0: v = c[k]; break; case 1: v = c.test(k); break; case 2: v = c.at(k); break; case 3: v = m[k]; break; case 4: v = m.at(k); break;
				default: if constexpr(N > 0 && N <= 33) v = structured(c, k, std::make_index_sequence<N>{}); else v = !~m[k];
			}
			if(v) ob->bits[ob->nbits++] = static_cast<int>(k);
		}
		ob->count = c.count(); ob->size = c.size(); ob->max = c.max_size(); ob->hash = std::hash<C>{}(c);
		ob->all = c.all(); ob->any = c.any(); ob->none = c.none(); ob->boolean = static_cast<bool>(c); ob->empty = c.empty();
		if constexpr(std::tuple_size<C>::value != N) ob->agree = 0;
	}
	static void equal(const void * a, const void * b, int * eq, int * ne) { *eq = *static_cast<const C *>(a) == *static_cast<const C *>(b); *ne = *static_cast<const C *>(a) != *static_cast<const C *>(b); }
};
}
extern "C" __attribute__((visibility("default"))) const BitMod *bit_mod(int t) {
#define X(n) {n, sizeof(B<n>::C), alignof(B<n>::C), &B<n>::apply, &B<n>::observe, &B<n>::equal},
	static const BitMod m[]{BIT_SIZES};
#undef X
	return &m[t];
}
