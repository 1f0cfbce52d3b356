// Driver for nodes that own each other through a variant, an optional and a vector of counted references.
#include "core_impl.h"
#include "elem.h"
#include <ptl/optional.hpp>
#include <ptl/string.hpp>
#include <ptl/variant.hpp>
#include <ptl/vector.hpp>
#include <initializer_list>
#include <memory>
#include <utility>
using namespace core;
namespace {
struct Node;
CORE_TL long refs;                     // references that exist
class Ref { // copies and assignments take the new node before they let the old one go
	Node * p{nullptr};
	void drop() noexcept;
	static Node * more(Node *) noexcept;
public:
	Ref() noexcept { ++refs; }
	explicit Ref(Node * n) noexcept : p{more(n)} { ++refs; }
	Ref(const Ref & o) noexcept : p{more(o.p)} { ++refs; }
	Ref(Ref && o) noexcept : p{std::exchange(o.p, nullptr)} { ++refs; }
	Ref & operator=(const Ref & o) noexcept { Ref t{o}; swap(*this, t); return *this; }
	Ref & operator=(Ref && o) noexcept { Ref t{std::move(o)}; swap(*this, t); return *this; }
	~Ref() noexcept { --refs; drop(); }
	friend void swap(Ref & a, Ref & b) noexcept { std::swap(a.p, b.p); }
	Node * get() const noexcept { return p; }
	long id() const noexcept;
};
using V = ptl::variant<int, Ref, ptl::string>;
using O = ptl::optional<Ref>;
using S = ptl::vector<Ref>;
constexpr int most = 40;
CORE_TL Node * nodes[most + 1];        // by number
struct Node {
	long id, count{0};
	V v; O o; S s;
	explicit Node(long i) : id{i} { nodes[i] = this; }
	~Node() { nodes[id] = nullptr; }
};
Node * Ref::more(Node * n) noexcept { if(n) ++n->count; return n; }
void Ref::drop() noexcept { if(auto n = std::exchange(p, nullptr)) if(--n->count == 0) delete n; }
long Ref::id() const noexcept { return p ? p->id : 0; }
std::string text(long n) { return std::string(static_cast<size_t>(n), static_cast<char>('a' + n % 26)); }
long number(const ptl::string & s) { const std::string x(s.begin(), s.end()); return x == text(static_cast<long>(x.size())) ? static_cast<long>(x.size()) : -9; }

struct Trees {
	const Script & sc;
	Ref root[2];
	explicit Trees(const Script & s) : sc{s} {}
	static void out(const Node * n, std::vector<Node *> & r) {
		auto add = [&](const Ref & x) { if(x.get()) r.push_back(x.get()); };
		if(auto x = n->v.get_if<Ref>()) add(*x);
		if(n->o) add(*n->o);
		for(auto & x : n->s) add(x);
	}
	static bool reaches(const Node * a, const Node * b) {
		if(a == b) return true;
		std::vector<Node *> r; out(a, r);
		for(auto x : r) if(reaches(x, b)) return true;
		return false;
	}
	static void in_slot(const Node * n, char k, std::vector<Node *> & r) {
		if(k == 'v') { if(auto x = n->v.get_if<Ref>(); x && x->get()) r.push_back(x->get()); }
		else if(k == 'o') { if(n->o && n->o->get()) r.push_back(n->o->get()); }
		else for(auto & x : n->s) if(x.get()) r.push_back(x.get());
	}
	static bool slot_reaches(const Node * n, char k, const Node * b) { std::vector<Node *> r; in_slot(n, k, r); for(auto x : r) if(reaches(x, b)) return true; return false; }
	static void count(const Node * n, std::map<long, long> & c) { std::vector<Node *> r; out(n, r); for(auto x : r) ++c[x->id]; }
	void finish(Json & j) {
		std::map<long, long> c; c[1] = c[2] = 1;
		j.key("nodes"); j.open('[');
		for(int k = 1; k <= most; ++k) if(auto n = nodes[k]) {
			count(n, c);
			j.open('['); j.num(k);
			if(auto i = n->v.get_if<int>()) { j.num(0); j.num(*i); } else if(auto r = n->v.get_if<Ref>()) { j.num(1); j.num(r->id()); } else { j.num(2); j.num(number(n->v.get<ptl::string>())); }
			j.num(n->o ? n->o->id() : -1);
			j.open('['); for(auto & x : n->s) j.num(x.id()); j.close(']');
			j.close(']');
		}
		j.close(']'); j.first = false;
		j.key("counts"); j.open('['); for(int k = 1; k <= most; ++k) if(auto n = nodes[k]) { j.open('['); j.num(k); j.num(n->count); j.num(c[k]); j.close(']'); } j.close(']'); j.first = false;
		j.kv("refs", refs); j.kv("extra", 2l);
		j.close('}'); event(j);
	}
	template<class F> static void way(bool move, Ref & x, F f) { if(move) f(std::move(x)); else f(std::as_const(x)); }
	void op(const Op & o) {
		const auto & q = o.name;
		const bool exact = sc.type == "x";
		std::vector<long> live; for(int k = 1; k <= most; ++k) if(nodes[k]) live.push_back(k);
		auto pick = [&](long x) -> Node * { if(exact) return x > 0 && x <= most ? nodes[x] : nullptr; return nodes[live[static_cast<size_t>(x) % live.size()]]; };
		auto h = pick(o.at(0)), g = pick(o.at(2));
		if(!h || !g) return;
		const char k = "vos"[o.at(1) % 3], p = "vos"[o.at(3) % 3];
		long i = o.at(4), jj = o.at(5), n = o.at(6), via = o.at(7), w = o.at(8), f = 0;
		auto len = [](Node * x) { return static_cast<long>(x->s.size()); };
		if(!exact) {
			i = p == 's' && len(g) ? i % len(g) + 1 : 1;
			jj = jj % (len(h) + 1) + 1;
			if(q == "erase") n = n % (len(h) - jj + 2);
		}
		// the reference at the source
		auto source = [&]() -> Ref * {
			if(p == 'v') return g->v.get_if<Ref>();
			if(p == 'o') return g->o ? std::addressof(*g->o) : nullptr;
			return i >= 1 && i <= len(g) ? std::addressof(g->s[static_cast<size_t>(i - 1)]) : nullptr;
		};
		Ref * x = nullptr;
		if(q == "link" || q == "many" || q == "fill") { x = source(); if(!x || (x->get() && reaches(x->get(), h))) return; }
		const bool at = q == "many" || q == "splice" || ((q == "new" || q == "link") && k == 's');
		if(at && (jj < 1 || jj > len(h) + 1)) return;
		if(q == "erase" && (jj < 1 || n < 0 || jj - 1 + n > len(h))) return;
		if(q == "new") { for(f = 3; f <= most && nodes[f]; ++f) {} if(f > most - 4) return; }
		if((q == "copy" || q == "move" || q == "swap") && h != g && slot_reaches(g, k, h)) return;
		if(q == "splice" && h != g && slot_reaches(g, 's', h)) return;
		if(q == "swap" && h != g && slot_reaches(h, k, g)) return;
		const auto ids = std::make_pair(h->id, g->id);
		auto pos = [&] { return h->s.cbegin() + (jj - 1); };
		auto store = [&](auto && r) { // r: reference as lvalue or rvalue
			using R = decltype(r);
			if(k == 'v') { h->v = std::forward<R>(r); }
			else if(k == 'o') { if(via & 1) h->o.emplace(std::forward<R>(r)); else h->o = std::forward<R>(r); }
			else if(jj == len(h) + 1 && (via & 1)) { if(via & 2) h->s.push_back(std::forward<R>(r)); else h->s.emplace_back(std::forward<R>(r)); }
			else if(via & 2) h->s.insert(pos(), std::forward<R>(r));
			else h->s.emplace(pos(), std::forward<R>(r));
		};
		if(q == "new") store(Ref{new Node{f}});
		else if(q == "link") way(w != 0, *x, store);
		else if(q == "many") { const Ref & r = *x; h->s.insert(pos(), static_cast<size_t>(n), r); }
		else if(q == "fill") { const Ref & r = *x; h->s.assign(static_cast<size_t>(n), r); }
		else if(q == "copy") {
			if(k == 'v') h->v = std::as_const(g->v);
			else if(k == 'o') h->o = std::as_const(g->o);
			else if(via & 1) h->s.assign(g->s.begin(), g->s.end());
			else h->s = std::as_const(g->s);
		} else if(q == "move") {
			if(k == 'v') h->v = std::move(g->v);
			else if(k == 'o') h->o = std::move(g->o);
			else h->s = std::move(g->s);
		} else if(q == "swap") {
			using std::swap;
			if(k == 'v') { if(via & 1) h->v.swap(g->v); else swap(h->v, g->v); }
			else if(k == 'o') { if(via & 1) h->o.swap(g->o); else swap(h->o, g->o); }
			else if(via & 1) h->s.swap(g->s); else swap(h->s, g->s);
		} else if(q == "splice") h->s.insert(pos(), g->s.begin(), g->s.end());
		else if(q == "int") { if(via & 1) h->v.emplace<int>(static_cast<int>(n)); else h->v = static_cast<int>(n); }
		else if(q == "text") { const auto y = text(n); if(via & 1) h->v.emplace<ptl::string>(std::string_view{y}); else h->v = ptl::string{y.begin(), y.end()}; }
		else if(q == "reset") { if(via & 1) h->o.reset(); else h->o = std::nullopt; }
		else if(q == "clear") { if(via & 1) h->s = {}; else h->s.clear(); }
		else if(q == "erase") { if(n == 1 && (via & 1)) { if(jj == len(h) && (via & 2)) h->s.pop_back(); else h->s.erase(pos()); } else h->s.erase(pos(), pos() + n); }
		else if(q == "resize") h->s.resize(static_cast<size_t>(n));
		else if(q == "reserve") h->s.reserve(static_cast<size_t>(n));
		else if(q == "shrink") h->s.shrink_to_fit();
		else return;
		Json j; j.open('{'); j.kv("op", q); j.kv("h", ids.first); j.kv("k", std::string(1, k)); j.kv("g", ids.second); j.kv("p", std::string(1, p)); j.kv("i", i); j.kv("j", jj); j.kv("n", n); j.kv("w", w); j.kv("f", f);
		finish(j);
	}
	void run() {
		for(auto & x : nodes) x = nullptr;
		refs = 2;
		{
			for(long k = 0; k < 2; ++k) root[k] = Ref{new Node{k + 1}};
			for(auto & o : sc.ops) op(o);
			for(auto & r : root) r = Ref{};
		}
		// nothing is left
		Json j; j.open('{'); j.kv("op", std::string("end")); long left = 0; for(auto x : nodes) left += x != nullptr;
		j.kv("left", left); j.kv("refs", refs); j.close('}'); event(j);
	}
};
void run(const Script & s) { seed_from(s.id + s.type); Trees{s}.run(); }
}
int main(int argc, char ** argv) { return main_loop(argc, argv, run); }
