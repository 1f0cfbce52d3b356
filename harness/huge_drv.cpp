// Views and containers of more than 2^32 elements.  The memory is mapped but hardly ever touched: views are made
// over it, and strings and vectors are handed it by a peer that only knows their representation.
#include "core_impl.h"
#include "elem.h"
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/bitset.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/vector.hpp>
#include <algorithm>
#include <memory>
#include <new>
#include <sys/mman.h>
using namespace core;
namespace {
using Big = unsigned long long;
// a position: anchor and distance
Big number(long code, long d, Big size) {
	const Big x = static_cast<Big>(d);
	switch(code) {
		case 0: return x;
		case 1: return size + x;
		case 2: return (1ull << 31) + x;
		case 3: return (1ull << 32) + x;
		case 4: return (1ull << 32) + (1ull << 31) + x;
		case 5: return (1ull << 31) + (1ull << 30) + x;
		case 6: return size / 2 + x;
		case 7: return ~0ull + x;
		case 8: return (1ull << 63) + x;
		case 9: return (1ull << 16) + x;
		default: return size - (1ull << 32) + x;
	}
}
Big within(long code, long d, Big size) { const Big x = number(code, d, size); return size ? x % size : 0; }        // < size
Big upto(long code, long d, Big size) { const Big x = number(code, d, size); return x <= size ? x : x % (size + 1); }
void big(Json & j, Big x) { j.open('['); for(int i = 0; i < 4; ++i) j.num(static_cast<long>((x >> (16 * i)) & 0xFFFF)); j.close(']'); }
void big(Json & j, const char * k, Big x) { j.key(k); big(j, x); j.first = false; }
void sbig(Json & j, long x) { j.open('['); j.num(x < 0); big(j, x < 0 ? -static_cast<Big>(x) : static_cast<Big>(x)); j.close(']'); }
void sbig(Json & j, const char * k, long x) { j.key(k); sbig(j, x); j.first = false; }
struct Map {
	unsigned char * p; Big bytes;
	explicit Map(Big n) : bytes{n} { void * m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(m == MAP_FAILED) _exit(76); p = static_cast<unsigned char *>(m); madvise(p, n, MADV_NOHUGEPAGE); }
	Map(const Map &) = delete;
	void zero() { madvise(p, bytes, MADV_DONTNEED); }
	~Map() { munmap(p, bytes); }
};
constexpr Big BYTES = (1ull << 32) + (1ull << 31) + 1000, INTS = (1ull << 32) + (1ull << 31) + 1000;
long released;  // buffers handed back to the peer
template<class T> void release(T *) noexcept { ++released; }
// ---- iterators: walk from position p to q, and back
template<class T> struct Access {
	T * base;
	Big where(const T & x) const { const auto d = reinterpret_cast<const unsigned char *>(std::addressof(x)) - reinterpret_cast<const unsigned char *>(base); return d % static_cast<long>(sizeof(T)) ? ~0ull >> 1 : static_cast<Big>(d / static_cast<long>(sizeof(T))); }
	template<class It> void walk(Json & j, It b, It e, Big size, Big p, Big q, long how) {
		const long d = static_cast<long>(q) - static_cast<long>(p);
		big(j, "p", p); big(j, "q", q);
		It i = b; switch(how % 3) { case 0: i += static_cast<long>(p); break; case 1: i = b + static_cast<long>(p); break; default: i = e - (static_cast<long>(size) - static_cast<long>(p)); }
		It k = i; switch(how / 3 % 4) { case 0: k += d; break; case 1: k = i + d; break; case 2: k -= -d; break; default: k = d + i; }
		sbig(j, "di", i - b); sbig(j, "dk", k - b); sbig(j, "ki", k - i); sbig(j, "ik", i - k); sbig(j, "all", e - b);
		j.key("cmp"); j.open('['); for(long x : {long(i == k), long(i != k), long(i < k), long(i <= k), long(i > k), long(i >= k)}) j.num(x); j.close(']'); j.first = false;
		j.key("el"); j.open('['); // elements denoted
		if(q < size) { big(j, where(*k)); big(j, where(i[d])); big(j, where(*(k.operator->()))); if(q + 1 < size) { It m = k; big(j, where(*++m)); m--; --m; m++; big(j, where(*m)); } }
		j.close(']'); j.first = false;
	}
	template<class C> void walks(Json & j, C & c, Big size, Big p, Big q, long how) {
		const auto & cc = c; const long kind = how % 6; how /= 6;
		j.kv("rev", static_cast<long>(kind >= 3));
		switch(kind) { case 0: walk(j, c.begin(), c.end(), size, p, q, how); break; case 1: walk(j, cc.begin(), cc.end(), size, p, q, how); break; case 2: walk(j, c.cbegin(), c.cend(), size, p, q, how); break;
			case 3: walk(j, c.rbegin(), c.rend(), size, p, q, how); break; case 4: walk(j, cc.rbegin(), cc.rend(), size, p, q, how); break; default: walk(j, c.crbegin(), c.crend(), size, p, q, how); }
	}
	template<class C> void at(Json & j, C & c, Big idx, long how) {
		big(j, "idx", idx); long x = X_NONE, rv = -7; Big w = 0;
		auto see = [&](auto & e) { w = where(e); if(w == idx + static_cast<Big>(c.data() - base)) rv = Val<std::decay_t<decltype(e)>>::get(e); };
		try { if(how & 1) see(c.at(idx)); else see(std::as_const(c).at(idx)); } catch(const std::out_of_range &) { x = X_RANGE; } catch(...) { x = X_OTHER; }
		j.kv("x", std::string(xname(static_cast<int>(x)))); j.kv("rv", rv); big(j, "w", w);
	}
};
// ---- views: two views over one memory
template<class V, class T, Big N> struct Views {
	static constexpr bool text = std::is_same_v<V, ptl::string_ref>, mut = !text && !std::is_const_v<typename V::value_type> && !std::is_const_v<std::remove_reference_t<typename V::reference>>;
	const Script & sc; Map mem{N * sizeof(T)}; T * const base{reinterpret_cast<T *>(mem.p)}; V v[2]; Access<T> ac{base};
	explicit Views(const Script & s) : sc{s} { v[0] = make(0, N, 0); v[1] = V{}; }
	struct Held { T * p; Big n; T * data() const { return p; } Big size() const { return n; } using value_type = T; };
	V make(Big o, Big n, long how) {
		if constexpr(text) { if(how % 3 == 0) return V{base + o, n}; if(how % 3 == 1) return V{std::string_view{base + o, n}}; const V all{base, N}; return all.substr(o, n); }
		else { if(how % 4 == 0) return V{base + o, n}; if(how % 4 == 1) return V{base + o, base + o + n}; if(how % 4 == 2) { Held h{base + o, n}; return V(h); } const V all{base, N}; return V(all.subrange(o, n)); }
	}
	void finish(Json & j) {
		j.key("vw"); j.open('[');
		for(auto & x : v) { j.open('['); j.num(x.data() == nullptr); big(j, x.data() ? static_cast<Big>(x.data() - base) : 0); big(j, x.size()); j.num(x.empty()); j.close(']'); }
		j.close(']'); j.first = false; j.close('}'); event(j);
	}
	void op(const Op & o) { // args: a b code d code2 d2 how v
		const long a = o.at(0) & 1, b = o.at(1) & 1, how = o.at(6); V & x = v[a]; V & y = v[b]; const Big size = x.size();
		const auto & q = o.name;
		Json j; j.open('{'); j.kv("op", q); j.kv("a", a + 1); j.kv("b", b + 1);
		if(q == "make") { const Big f = upto(o.at(2), o.at(3), N), n = upto(o.at(4), o.at(5), N - f); big(j, "i", f); big(j, "n", n); x = make(f, n, how); }
		else if(q == "assign") x = y;
		else if(q == "first" || q == "last" || q == "prefix" || q == "suffix") {
			const Big n = upto(o.at(2), o.at(3), size); big(j, "n", n);
			if constexpr(text) { V t = x; if(q == "first") y = t.substr(0, n); else if(q == "last") y = t.substr(size - n); else if(q == "prefix") y = (t.remove_prefix(n), t); else y = (t.remove_suffix(n), t); }
			else { if(q == "first") y = x.first(n); else if(q == "last") y = x.last(n); else if(q == "prefix") y = x.subrange(n); else y = x.first(size - n); }
		} else if(q == "sub") {
			const Big f = upto(o.at(2), o.at(3), size), n = upto(o.at(4), o.at(5), size - f); big(j, "i", f); big(j, "n", n);
			if constexpr(text) y = x.substr(f, n); else y = x.subrange(f, n);
		} else if(q == "write") {
			if(!size) return; const Big i = within(o.at(2), o.at(3), size); big(j, "i", i); const long z = o.at(7); j.kv("v", z); const T t = Val<T>::mk(static_cast<int>(z));
			if constexpr(mut) { switch(how % 5) { case 0: x[i] = t; break; case 1: x.at(i) = t; break; case 2: x.begin()[static_cast<long>(i)] = t; break; case 3: x.rbegin()[static_cast<long>(size - 1 - i)] = t; break; default: x.data()[i] = t; } }
			else base[static_cast<Big>(x.data() - base) + i] = t;
		} else if(q == "at") ac.at(j, x, number(o.at(2), o.at(3), size), how);
		else if(q == "ends") { if(!size) return; j.key("el"); j.open('['); big(j, ac.where(x.front())); big(j, ac.where(x.back())); big(j, ac.where(x[size / 2])); j.close(']'); j.first = false; }
		else if(q == "walk") { if(!x.data()) return; ac.walks(j, x, size, upto(o.at(2), o.at(3), size), upto(o.at(4), o.at(5), size), how); }
		else return;
		finish(j);
	}
	void run() { Json j; j.open('{'); j.kv("op", std::string("init")); j.kv("kind", std::string("view")); big(j, "room", N); finish(j); for(auto & o : sc.ops) op(o); }
};
// ---- string and vector: one object, whose buffer a peer provides
template<class C, class T, Big N> struct Conts {
	static constexpr bool text = std::is_same_v<C, ptl::string>;
	const Script & sc; Map mem{(N + 1) * sizeof(T)}; T * const base{reinterpret_cast<T *>(mem.p)}; std::unique_ptr<C> c{new C}; Access<T> ac{base};
	explicit Conts(const Script & s) : sc{s} { raw(N - 500); }
	void raw(Big n) {
		c.reset(); mem.zero(); c.reset(new C);
		struct { void (*dealloc)(T *) noexcept; T * p; Big cap, siz; } r{&release<T>, base, N, n};
		static_assert(sizeof r == sizeof(C)); memcpy(static_cast<void *>(c.get()), &r, sizeof r);
	}
	void finish(Json & j) {
		const C & x = *c; const Big n = x.size();
		j.key("o"); j.open('['); j.num(x.data() == base); big(j, n); big(j, x.capacity()); j.num(x.empty()); if constexpr(text) j.num(x.data()[n] == 0 && x.c_str() == base); else j.num(1); j.close(']'); j.first = false;
		j.key("see"); j.open('['); // elements at some positions
		std::vector<Big> ps; for(Big k = 0; k < 6; ++k) for(Big a : {0ull, n - 8, n - 4, (1ull << 32) - 2, (1ull << 31) - 2, (1ull << 31) + (1ull << 30) - 2, (1ull << 32) + 40}) ps.push_back(a + k);
		std::sort(ps.begin(), ps.end()); ps.erase(std::unique(ps.begin(), ps.end()), ps.end());
		for(Big p : ps) if(p < n && (base[p] != T() || rnd(3) == 0 || p + 8 > n)) { j.open('['); big(j, p); j.num(Val<T>::get(x[p])); j.close(']'); }
		j.close(']'); j.first = false; j.kv("rel", released);
		j.close('}'); event(j);
	}
	void op(const Op & o) {
		const long how = o.at(6), z = o.at(7); C & x = *c; const Big size = x.size(), room = N - size; const T t = Val<T>::mk(static_cast<int>(z));
		const auto & q = o.name;
		Json j; j.open('{'); j.kv("op", q); j.kv("v", z);
		auto pos = [&](auto it) { sbig(j, "ret", it - x.cbegin()); };
		if(q == "raw") { const Big n = upto(o.at(2), o.at(3), N); big(j, "n", n); raw(n); }
		else if(q == "write") { if(!size) return; const Big i = within(o.at(2), o.at(3), size); big(j, "i", i); switch(how % 5) { case 0: x[i] = t; break; case 1: x.at(i) = t; break; case 2: x.begin()[static_cast<long>(i)] = t; break; case 3: x.rbegin()[static_cast<long>(size - 1 - i)] = t; break; default: x.data()[i] = t; } }
		else if(q == "at") ac.at(j, x, number(o.at(2), o.at(3), size), how);
		else if(q == "ends") { if(!size) return; j.key("el"); j.open('['); big(j, ac.where(x.front())); big(j, ac.where(x.back())); big(j, ac.where(x[size / 2])); j.close(']'); j.first = false; }
		else if(q == "walk") ac.walks(j, x, size, upto(o.at(2), o.at(3), size), upto(o.at(4), o.at(5), size), how);
		else if(q == "push") { if(!room) return; x.push_back(t); }
		else if(q == "pop") { if(!size) return; x.pop_back(); }
		else if(q == "resize") { // never more than a few new elements
			Big n = upto(o.at(2), o.at(3), N); if(n > size + 300) n = std::min<Big>(N, size + static_cast<Big>(o.at(5)) % 300); big(j, "n", n);
			if(how & 1) { x.resize(n); j.kv("fresh", 0L); } else { x.resize(n, t); j.kv("fresh", z); }
		} else if(q == "reserve") { const Big n = upto(o.at(2), o.at(3), N); big(j, "n", n); x.reserve(n); }
		else if(q == "insert") { // near the end
			const Big back = static_cast<Big>(o.at(3)) % 40, n = static_cast<Big>(o.at(5)) % 60; if(back > size || n > room) return;
			const Big i = size - back; big(j, "i", i); big(j, "n", n);
			pos(x.insert(x.cbegin() + static_cast<long>(i), n, t));
		} else if(q == "erase") {
			const Big back = static_cast<Big>(o.at(3)) % 40; if(back > size) return;
			const Big i = size - back, n = static_cast<Big>(o.at(5)) % (back + 1); big(j, "i", i); big(j, "n", n);
			pos(x.erase(x.cbegin() + static_cast<long>(i), x.cbegin() + static_cast<long>(i + n)));
		} else if(q == "move") { C y(std::move(x)); if(how & 1) { C w; w = std::move(y); x = std::move(w); } else if(how & 2) { swap(x, y); } else x = std::move(y); }
		else if(q == "view") { // what a view of it denotes
			if constexpr(text) { const std::string_view s{x}; const ptl::string_ref r{s}; big(j, "n", r.size()); j.kv("at", static_cast<long>(s.data() == base && r.data() == base && s.size() == size)); }
			else { const ptl::array_ref<const T> r{std::as_const(x)}; const ptl::array_ref<T> m{x}; big(j, "n", r.size()); j.kv("at", static_cast<long>(r.data() == base && m.data() == base && m.size() == size)); }
		} else if(q == "shrunk") { if constexpr(text) { if(size <= 22) return; x.shrink_to_fit(); } else return; } // stays on the heap
		else return;
		finish(j);
	}
	void run() { Json j; j.open('{'); j.kv("op", std::string("init")); j.kv("kind", std::string("cont")); big(j, "room", N); big(j, "n", N - 500); finish(j); for(auto & o : sc.ops) op(o); c.reset(); Json e; e.open('{'); e.kv("op", std::string("end")); e.kv("rel", released); e.close('}'); event(e); }
};
// ---- objects that are that large themselves
template<class C, class T, Big N> struct Fixed {
	const Script & sc; Map mem{sizeof(C)}; T * const base{reinterpret_cast<T *>(mem.p)}; C & c{*reinterpret_cast<C *>(mem.p)}; Access<T> ac{base};
	explicit Fixed(const Script & s) : sc{s} {}
	void finish(Json & j) { const C & x = c; j.key("o"); j.open('['); j.num(x.data() == base); big(j, x.size()); big(j, x.max_size()); j.num(x.empty()); j.num(1); j.close(']'); j.first = false; j.key("see"); j.open('['); j.close(']'); j.first = false; j.kv("rel", 0L); j.close('}'); event(j); }
	void op(const Op & o) {
		const long how = o.at(6), z = o.at(7); C & x = c; const Big size = N; const T t = Val<T>::mk(static_cast<int>(z)); const auto & q = o.name;
		Json j; j.open('{'); j.kv("op", q); j.kv("v", z);
		if(q == "write") { const Big i = within(o.at(2), o.at(3), size); big(j, "i", i); switch(how % 5) { case 0: x[i] = t; break; case 1: x.at(i) = t; break; case 2: x.begin()[static_cast<long>(i)] = t; break; case 3: x.rbegin()[static_cast<long>(size - 1 - i)] = t; break; default: *(x.end() - static_cast<long>(size - i)) = t; } }
		else if(q == "at") ac.at(j, x, number(o.at(2), o.at(3), size), how);
		else if(q == "ends") { j.key("el"); j.open('['); big(j, ac.where(x.front())); big(j, ac.where(x.back())); big(j, ac.where(x[size / 2])); j.close(']'); j.first = false; }
		else if(q == "walk") ac.walks(j, x, size, upto(o.at(2), o.at(3), size), upto(o.at(4), o.at(5), size), how);
		else if(q == "view") { const ptl::array_ref<const T> r{std::as_const(x)}; const ptl::array_ref<T> m{x}; big(j, "n", r.size()); j.kv("at", static_cast<long>(r.data() == base && m.data() == base && m.size() == size)); }
		else return;
		finish(j);
	}
	void run() { Json j; j.open('{'); j.kv("op", std::string("init")); j.kv("kind", std::string("cont")); big(j, "room", N); big(j, "n", N); finish(j); for(auto & o : sc.ops) op(o); }
};
template<Big N> struct Bits {
	using B = ptl::bitset<N>;
	const Script & sc; Map mem{sizeof(B)}; B & b{*reinterpret_cast<B *>(mem.p)}; std::vector<Big> seen;
	explicit Bits(const Script & s) : sc{s} {}
	void finish(Json & j) {
		const B & c = b;
		j.key("o"); j.open('['); j.num(1); big(j, c.size()); big(j, N); j.num(0); j.num(1); j.close(']'); j.first = false; j.kv("rel", 0L);
		j.key("see"); j.open('['); for(Big p : seen) { j.open('['); big(j, p); j.num(rnd(2) ? c.test(p) : c[p]); j.close(']'); } j.close(']'); j.first = false;
		j.close('}'); event(j);
	}
	void op(const Op & o) {
		const long how = o.at(6), z = o.at(7) & 1; const auto & q = o.name; const Big i = within(o.at(2), o.at(3), N);
		Json j; j.open('{'); j.kv("op", q); j.kv("v", z);
		if(q == "write") { // nothing but single bits
			for(Big p : {i, i ^ 1, i ^ 8, i & 0xFFFFFFFFull}) if(p < N && std::find(seen.begin(), seen.end(), p) == seen.end()) seen.push_back(p);
			big(j, "i", i);
			switch(how % 5) { case 0: b[i] = z; break; case 1: b.set(i, z); break; case 2: if(z) b.set(i); else b.reset(i); break; case 3: if(b.test(i) != z) b.flip(i); break; default: { auto r = b[i]; r = z; } }
		} else if(q == "at") {
			const Big idx = number(o.at(2), o.at(3), N); big(j, "idx", idx); long x = X_NONE, rv = -7;
			try { if(how & 1) { rv = b.test(idx); } else { const long before = idx < N ? static_cast<long>(std::as_const(b)[idx]) : 0; if(how & 2) b.flip(idx), b.flip(idx); else b.set(idx, before); rv = before; } } catch(const std::out_of_range &) { x = X_RANGE; } catch(...) { x = X_OTHER; }
			j.kv("x", std::string(xname(static_cast<int>(x)))); j.kv("rv", rv); big(j, "w", x == X_NONE ? idx : 0);
		} else return;
		finish(j);
	}
	void run() { Json j; j.open('{'); j.kv("op", std::string("init")); j.kv("kind", std::string("cont")); big(j, "room", N); big(j, "n", N); finish(j); for(auto & o : sc.ops) op(o); }
};
using C8 = unsigned char;
void run(const Script & s) {
	seed_from(s.id + s.type); released = 0;
	if(s.type == "rc") Views<ptl::array_ref<C8>, C8, BYTES>(s).run();
	else if(s.type == "rk") Views<ptl::array_ref<const C8>, C8, BYTES>(s).run();
	else if(s.type == "ri") Views<ptl::array_ref<int>, int, INTS>(s).run();
	else if(s.type == "sr") Views<ptl::string_ref, char, BYTES>(s).run();
	else if(s.type == "st") Conts<ptl::string, char, BYTES>(s).run();
	else if(s.type == "vc") Conts<ptl::vector<C8>, C8, BYTES>(s).run();
	else if(s.type == "vi") Conts<ptl::vector<int>, int, INTS>(s).run();
	else if(s.type == "ac") Fixed<ptl::array<C8, BYTES>, C8, BYTES>(s).run();
	else if(s.type == "ai") Fixed<ptl::array<int, INTS>, int, INTS>(s).run();
	else if(s.type == "bt") Bits<BYTES>(s).run();
}
}
// nothing here has a reason to allocate much
void * operator new(std::size_t n) { if(n > (1u << 28)) throw std::bad_alloc{}; if(void * p = std::malloc(n)) return p; throw std::bad_alloc{}; }
void * operator new[](std::size_t n) { return ::operator new(n); }
void operator delete(void * p) noexcept { std::free(p); }
void operator delete[](void * p) noexcept { std::free(p); }
void operator delete(void * p, std::size_t) noexcept { std::free(p); }
void operator delete[](void * p, std::size_t) noexcept { std::free(p); }
extern "C" void * __real_calloc(std::size_t, std::size_t);
extern "C" void * __wrap_calloc(std::size_t n, std::size_t s) { return n > (1u << 28) / s ? nullptr : __real_calloc(n, s); }
int main(int argc, char ** argv) { rss_limit = 2l << 30; return main_loop(argc, argv, run); }
