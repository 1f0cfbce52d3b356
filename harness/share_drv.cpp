// Driver for shared objects: three objects which all threads read, and one more per thread which only that
// thread modifies.  Requests between two "set" requests run concurrently, each in the thread it names.
#include "core_impl.h"
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/bitset.hpp>
#include <ptl/function_ref.hpp>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/tuple.hpp>
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/vector.hpp>
#include <algorithm>
#include <memory>
#include <sstream>
#include <thread>
using namespace core;
namespace {
constexpr int SHARED = 3, THREADS = 3, OBJECTS = SHARED + THREADS;
using Vals = std::vector<int>;
using Out = std::vector<long>;
long byte(char c) { return static_cast<unsigned char>(c); }
long byte(int c) { return c; }
template<class X> bool compare(const std::string & q, const X & x, const X & y, Out & r) {
	if(q != "cmp") return false;
	r = {x == y, x != y, x < y, x <= y, x > y, x >= y};
	return true;
}
template<class X> bool hash(const std::string & q, const X & x, const X & y, Out & r) {
	if(q != "hash") return false;
	const std::hash<X> h{};
	r = {!(x == y) || h(x) == h(y), h(x) == h(x)};
	return true;
}
template<class X> bool output(const std::string & q, const X & x, Out & r) {
	if(q != "out") return false;
	std::ostringstream os; os << x; const auto t = os.str(); // the stream belongs to this thread
	for(char c : t) r.push_back(byte(c));
	return true;
}
template<class X> bool sequence(const std::string & q, const X & x, long i, Out & r) {
	const auto n = static_cast<long>(x.size());
	if(q == "size") r = {n, x.empty()};
	else if(q == "all") switch(i % 6) {
		case 0: for(const auto & e : x) r.push_back(byte(e)); break;
		case 1: for(long k = 0; k < n; ++k) r.push_back(byte(x[static_cast<std::size_t>(k)])); break;
		case 2: for(long k = 0; k < n; ++k) r.push_back(byte(x.data()[k])); break;
		case 3: for(auto p = x.cbegin(); p != x.cend(); ++p) r.push_back(byte(*p)); break;
		case 4: for(long k = 0; k < n; ++k) r.push_back(byte(x.end()[k - n])); break;
		default: for(long k = 0; k < n; ++k) r.push_back(byte(x.at(static_cast<std::size_t>(k))));
	}
	else if(q == "rev") { if(i & 1) for(auto p = x.rbegin(); p != x.rend(); ++p) r.push_back(byte(*p)); else for(auto p = x.crbegin(); p != x.crend(); ++p) r.push_back(byte(*p)); }
	else if(q == "at") { try { r = {byte(x.at(static_cast<std::size_t>(i)))}; } catch(const std::out_of_range &) { r = {-1}; } }
	else if(q == "ends") { if(n) r = {byte(x.front()), byte(x.back())}; }
	else return false;
	return true;
}
struct Str {
	using O = ptl::string; static constexpr bool owns = true;
	static std::unique_ptr<O> make(const Vals & v, long how) {
		std::string s; for(int x : v) s += static_cast<char>(x);
		auto o = std::make_unique<O>();
		if(how % 3 == 1) o->reserve(60);
		o->append(s.begin(), s.end());
		if(how % 3 == 2) { o->append(30, 'x'); o->erase(o->begin() + s.size(), o->end()); }
		return o;
	}
	static void change(O & o, int v) { o.push_back(static_cast<char>(v)); }
	static bool ask(const std::string & q, const O & x, const O & y, long i, Out & r) {
		if(q == "cstr") { for(std::size_t k = 0; k <= x.size(); ++k) r.push_back(byte(x.c_str()[k])); return true; }
		if(q == "sub") { const auto n = static_cast<std::size_t>(i) % (x.size() + 1); const auto s = x.substr(n); for(char c : s) r.push_back(byte(c)); return true; }
		if(q == "cat") { const auto s = x + y; for(char c : s) r.push_back(byte(c)); return true; }
		if(q == "view") { const ptl::string_ref s{x}; for(char c : s) r.push_back(byte(c)); return true; }
		return sequence(q, x, i, r) || compare(q, x, y, r) || hash(q, x, y, r) || output(q, x, r);
	}
};
struct Vec {
	using O = ptl::vector<int>; static constexpr bool owns = true;
	static std::unique_ptr<O> make(const Vals & v, long how) { auto o = std::make_unique<O>(); if(how & 1) o->reserve(50); for(int x : v) o->push_back(x); return o; }
	static void change(O & o, int v) { o.push_back(v); }
	static bool ask(const std::string & q, const O & x, const O & y, long i, Out & r) { return sequence(q, x, i, r) || compare(q, x, y, r); }
};
struct Strs { // a vector of strings of one character each
	using O = ptl::vector<ptl::string>; static constexpr bool owns = true;
	static ptl::string text(int v) { return ptl::string(static_cast<std::size_t>(v % 40), static_cast<char>(v)); }
	static std::unique_ptr<O> make(const Vals & v, long) { auto o = std::make_unique<O>(); for(int x : v) o->push_back(text(x)); return o; }
	static void change(O & o, int v) { o.push_back(text(v)); }
	static bool ask(const std::string & q, const O & x, const O &, long, Out & r) { if(q != "sizes") return false; for(const auto & s : x) r.push_back(static_cast<long>(s.size())); return true; }
};
struct Arr {
	using O = ptl::array<int, 5>; static constexpr bool owns = true;
	static std::unique_ptr<O> make(const Vals & v, long) { if(v.size() != 5) return nullptr; return std::make_unique<O>(O{v[0], v[1], v[2], v[3], v[4]}); }
	static void change(O & o, int v) { o[0] = v; }
	static bool ask(const std::string & q, const O & x, const O & y, long i, Out & r) { return sequence(q, x, i, r) || compare(q, x, y, r); }
};
struct StrRef {
	struct O { std::string t; ptl::string_ref r; }; static constexpr bool owns = false;
	static std::unique_ptr<O> make(const Vals & v, long) { auto o = std::make_unique<O>(); for(int x : v) o->t += static_cast<char>(x); o->r = ptl::string_ref{o->t.data(), o->t.size()}; return o; }
	static bool ask(const std::string & q, const O & x, const O & y, long i, Out & r) {
		if(q == "sub") { const auto n = static_cast<std::size_t>(i) % (x.r.size() + 1); const auto s = x.r.substr(n); for(char c : s) r.push_back(byte(c)); return true; }
		return sequence(q, x.r, i, r) || compare(q, x.r, y.r, r) || hash(q, x.r, y.r, r) || output(q, x.r, r);
	}
};
struct ArrRef {
	struct O { Vals t; ptl::array_ref<const int> r; }; static constexpr bool owns = false;
	static std::unique_ptr<O> make(const Vals & v, long) { auto o = std::unique_ptr<O>{new O{v, {}}}; o->r = ptl::array_ref<const int>{o->t.data(), o->t.size()}; return o; }
	static bool ask(const std::string & q, const O & x, const O &, long i, Out & r) { return sequence(q, x.r, i, r); }
};
struct Bits {
	static constexpr std::size_t N = 70;
	using O = ptl::bitset<N>; static constexpr bool owns = true;
	static std::unique_ptr<O> make(const Vals & v, long) { auto o = std::make_unique<O>(); for(int x : v) o->set(static_cast<std::size_t>(x)); return o; }
	static void change(O & o, int v) { o.set(static_cast<std::size_t>(v) % N); }
	static void list(const O & b, Out & r) { for(std::size_t k = 0; k < N; ++k) if(b.test(k)) r.push_back(static_cast<long>(k)); }
	static bool ask(const std::string & q, const O & x, const O & y, long i, Out & r) {
		if(q == "set") { if(i & 1) list(x, r); else for(std::size_t k = 0; k < N; ++k) if(x[k]) r.push_back(static_cast<long>(k)); }
		else if(q == "count") r = {static_cast<long>(x.count()), x.all(), x.any(), x.none(), static_cast<long>(x.size())};
		else if(q == "and") list(x & y, r); else if(q == "or") list(x | y, r); else if(q == "xor") list(x ^ y, r); else if(q == "not") list(~x, r);
		else if(q == "shl") list(x << static_cast<std::size_t>(i), r); else if(q == "shr") list(x >> static_cast<std::size_t>(i), r);
		else if(q == "eq") r = {x == y, x != y};
		else if(q == "bits") { std::ostringstream os; os << x; for(char c : os.str()) r.push_back(c - '0'); }
		else return hash(q, x, y, r);
		return true;
	}
};
struct Opt {
	using O = ptl::optional<ptl::string>; static constexpr bool owns = true;
	static std::unique_ptr<O> make(const Vals & v, long) { auto o = std::make_unique<O>(); if(!v.empty()) *o = Strs::text(v[0]); return o; }
	static void change(O & o, int v) { o = Strs::text(v); }
	static bool ask(const std::string & q, const O & x, const O & y, long i, Out & r) {
		if(q == "has") r = {x.has_value(), static_cast<bool>(x)};
		else if(q == "get") { try { r = {static_cast<long>((i % 3 == 0 ? x.value() : i % 3 == 1 && x ? *x : x.value()).size())}; } catch(const std::bad_optional_access &) { r = {-1}; } }
		else if(q == "or") r = {static_cast<long>(x.value_or(ptl::string(static_cast<std::size_t>(i % 40), 'd')).size())};
		else if(q == "eq") r = {x == y, x != y, x == x};
		else if(q == "null") r = {x == std::nullopt, std::nullopt != x};
		else return false;
		return true;
	}
};
struct Var { // <<index, value>>
	using O = ptl::variant<int, ptl::string>; static constexpr bool owns = true;
	static std::unique_ptr<O> make(const Vals & v, long) { auto o = std::make_unique<O>(0); if(v[0] == 0) *o = v[1]; else *o = Strs::text(v[1]); return o; }
	static void change(O & o, int v) { if(v & 1) o = v; else o = Strs::text(v); }
	static bool ask(const std::string & q, const O & x, const O & y, long i, Out & r) {
		if(q == "which") r = {x.holds<ptl::string>(), x.holds<int>()};
		else if(q == "alt") { try { if(i & 1) r = {static_cast<long>(x.get<ptl::string>().size())}; else r = {x.get<int>()}; } catch(const std::bad_variant_access &) { r = {-1}; } }
		else if(q == "if") { if(i & 1) { auto p = x.get_if<ptl::string>(); r = {p ? static_cast<long>(p->size()) : -1}; } else { auto p = x.get_if<int>(); r = {p ? *p : -1}; } }
		else if(q == "visit") { struct V { Out & r; void operator()(const int & k) const { r = {0, k}; } void operator()(const ptl::string & s) const { r = {1, static_cast<long>(s.size())}; } }; x.visit(V{r}); }
		else if(q == "eq") r = {x == y, x != y, x == x};
		else return false;
		return true;
	}
};
struct Tup {
	using O = ptl::tuple<int, ptl::string, unsigned char>; static constexpr bool owns = true;
	static std::unique_ptr<O> make(const Vals & v, long) { return std::make_unique<O>(v[0], Strs::text(v[1]), static_cast<unsigned char>(v[2])); }
	static void change(O & o, int v) { o.get<0>() = v; }
	static bool ask(const std::string & q, const O & x, const O & y, long, Out & r) {
		if(q == "fields") r = {x.get<0>(), static_cast<long>(x.get<1>().size()), x.get<2>()};
		else if(q == "eq") r = {x == y, x != y, x == x};
		else return false;
		return true;
	}
};
struct OptRef {
	struct O { int t; ptl::optional_ref<const int> r; }; static constexpr bool owns = false;
	static std::unique_ptr<O> make(const Vals & v, long) { auto o = std::unique_ptr<O>{new O{0, {}}}; if(!v.empty()) { o->t = v[0]; o->r = ptl::optional_ref<const int>{o->t}; } return o; }
	static bool ask(const std::string & q, const O & x, const O &, long i, Out & r) {
		if(q == "has") r = {x.r.has_value(), static_cast<bool>(x.r)};
		else if(q == "get") { try { r = {i & 1 ? x.r.value() : x.r ? *x.r : x.r.value()}; } catch(const std::bad_optional_access &) { r = {-1}; } }
		else if(q == "or") r = {x.r.value_or(static_cast<int>(i % 40))};
		else return false;
		return true;
	}
};
struct VarRef {
	struct O { int t; ptl::string s; ptl::variant_ref<const int, const ptl::string> r; O(int v, ptl::string w, bool first) : t{v}, s{w}, r{first ? ptl::variant_ref<const int, const ptl::string>{t} : ptl::variant_ref<const int, const ptl::string>{s}} {} };
	static constexpr bool owns = false;
	static std::unique_ptr<O> make(const Vals & v, long) { return std::make_unique<O>(v[1], Strs::text(v[1]), v[0] == 0); }
	static bool ask(const std::string & q, const O & x, const O &, long, Out & r) {
		if(q != "visit") return false;
		struct V { Out & r; void operator()(const int & k) const { r = {0, k}; } void operator()(const ptl::string & s) const { r = {1, static_cast<long>(s.size())}; } }; x.r.visit(V{r});
		return true;
	}
};
struct Fun {
	struct Target { long id; long operator()(long x) const { return id * 1000 + x; } };
	struct O { Target t; ptl::function_ref<long(long) const> r; explicit O(long id) : t{id}, r{t} {} }; static constexpr bool owns = false;
	static std::unique_ptr<O> make(const Vals & v, long) { return std::make_unique<O>(v[0]); }
	static bool ask(const std::string & q, const O & x, const O &, long i, Out & r) { if(q != "call") return false; r = {x.r(i)}; return true; }
};
template<class K> struct Run {
	using O = typename K::O;
	const Script & sc;
	std::unique_ptr<O> o[OBJECTS];
	std::vector<Json> logs;
	Run(const Script & s) : sc{s} {}
	void log(Json & j, const Op & q, const Out & r, long t) {
		j = Json{}; j.open('{'); j.kv("op", q.name); j.kv("t", t + 1); j.kv("x", q.at(1) + 1); j.kv("y", q.at(2) + 1); j.kv("i", q.at(3)); j.list("r", r); j.list("vals", q.v); j.close('}');
	}
	// ask.<query> t x y i | take t x | chg t 0 0 v | set t x 0 how | vals
	void one(const Op & q, Json & j) {
		const auto t = q.at(0), x = q.at(1), y = q.at(2);
		Out r;
		const auto me = static_cast<std::size_t>(SHARED + t);
		if(q.name == "take") { if constexpr(K::owns) { if(q.at(3) & 1) o[me] = std::make_unique<O>(std::as_const(*o[x])); else *o[me] = std::as_const(*o[x]); } else return; }
		else if(q.name == "chg") { if constexpr(K::owns) K::change(*o[me], static_cast<int>(q.at(3))); else return; }
		else if(!K::ask(q.name, std::as_const(*o[x]), std::as_const(*o[y]), q.at(3), r)) return;
		log(j, q, r, t);
	}
	void run() {
		Json s; s.open('{'); s.kv("op", std::string("init")); s.close('}'); event(s);
		for(std::size_t k = 0; k < sc.ops.size();) {
			if(sc.ops[k].name == "set") {
				const auto & q = sc.ops[k++];
				o[q.at(1)] = K::make(q.v, q.at(3)); if(!o[q.at(1)]) return;
				Json j; log(j, q, {}, 0); event(j);
				continue;
			}
			std::size_t e = k; while(e < sc.ops.size() && sc.ops[e].name != "set") ++e;
			std::vector<Json> js(e - k); std::vector<char> bad(THREADS);
			std::atomic<int> ready{0}; std::atomic<long> stamp{0}; std::vector<long> at(e - k);
			auto work = [&](int t) {
				ready.fetch_add(1, std::memory_order_relaxed);
				while(ready.load(std::memory_order_relaxed) < THREADS) std::this_thread::yield();
				for(std::size_t z = k; z < e; ++z) if(sc.ops[z].at(0) == t) { one(sc.ops[z], js[z - k]); at[z - k] = stamp.fetch_add(1, std::memory_order_relaxed); }
#ifdef CORE_THREADS
				bad[static_cast<std::size_t>(t)] = raced;
#endif
			};
			{ std::vector<std::thread> ts; for(int t = 0; t < THREADS; ++t) ts.emplace_back(work, t); for(auto & t : ts) t.join(); }
			std::vector<std::size_t> order; for(std::size_t z = 0; z < js.size(); ++z) order.push_back(z);
			std::sort(order.begin(), order.end(), [&](auto a, auto b) { return at[a] < at[b]; }); // in the order in which they finished
			for(auto z : order) if(!js[z].s.empty()) event(js[z]);
			for(char b : bad) if(b) { Json j; j.open('{'); j.kv("op", std::string("crash")); j.kv("race", 1); j.close('}'); event(j); }
			k = e;
		}
	}
};
void run(const Script & s) {
	seed_from(s.id + s.type);
#define TYPE(n, K) if(s.type == n) std::make_unique<Run<K>>(s)->run()
	TYPE("string", Str); TYPE("vector", Vec); TYPE("strings", Strs); TYPE("array", Arr); TYPE("string_ref", StrRef); TYPE("array_ref", ArrRef); TYPE("bitset", Bits);
	TYPE("optional", Opt); TYPE("variant", Var); TYPE("tuple", Tup); TYPE("optional_ref", OptRef); TYPE("variant_ref", VarRef); TYPE("function_ref", Fun);
}
}
int main(int argc, char ** argv) { return main_loop(argc, argv, run); }
