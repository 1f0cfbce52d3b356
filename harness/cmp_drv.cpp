// Driver for comparisons, hashes and output: objects are created one after the other and every new one is
// compared with all others in both directions.
#include "core_impl.h"
#include "elem.h"
#include "loose.h"
#include <ptl/optional.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/variant.hpp>
#include <ptl/vector.hpp>
#include <iomanip>
#include <memory>
#include <sstream>
#include <string_view>
using namespace core;
namespace {
template<class A, class B> void row(Json & j, const A & a, const B & b) {
	j.num(static_cast<bool>(a == b)); j.num(static_cast<bool>(a != b)); j.num(static_cast<bool>(a < b)); j.num(static_cast<bool>(a <= b)); j.num(static_cast<bool>(a > b)); j.num(static_cast<bool>(a >= b));
}
// ---- texts: kind 0 string, 1 string_ref, 2 string_view, 3 const char *
struct Text {
	long kind;
	std::string text; std::unique_ptr<ptl::string> s; ptl::string_ref r; std::string_view v;
	char * p{nullptr}; std::size_t n{0}; bool ended{true}; // where the characters are, and whether a NUL follows
	Text(long kind, long how, const std::vector<int> & key) : kind{kind} {
		for(int x : key) text += static_cast<char>(x);
		if(kind == 3 && text.find('\0') != std::string::npos) this->kind = 0;
		const std::string_view sv{text};
		s.reset(new ptl::string);
		switch(how % 7) {
			case 0: *s = sv; break;
			case 1: s->reserve(100); s->append(sv); break;
			case 2: *s = sv; s->append(40, 'z'); s->erase(s->begin() + text.size(), s->end()); break;
			case 3: s->reserve(64); *s = sv; s->shrink_to_fit(); break;
			case 4: { ptl::string o{sv}; *s = std::move(o); break; }
			case 5: for(char c : text) s->push_back(c); break;
			default: { ptl::string o{text.begin(), text.end()}; s->append(30, '\xff'); swap(*s, o); break; }
		}
		const bool own = this->kind == 0 || (this->kind < 3 && (how & 1));
		p = own ? s->data() : text.data(); n = text.size();
		r = ptl::string_ref{p, n}; v = std::string_view{p, n};
	}
	// a part of another text
	Text(long kind, const Text & o, std::size_t from, std::size_t len) : kind{kind} {
		p = o.p + from; n = len; ended = o.ended && from + len == o.n;
		r = o.kind == 1 && len ? o.r.substr(from, len) : ptl::string_ref{p, n}; v = std::string_view{p, n};
		if(kind == 0 || (kind == 3 && (!ended || v.find('\0') != std::string_view::npos))) this->kind = 1;
	}
	void write(std::size_t i, int x) { if(kind == 0) (*s)[i] = static_cast<char>(x); else p[i] = static_cast<char>(x); }
	template<class F> void with(F f) const { switch(kind) { case 0: f(*s); break; case 1: f(r); break; case 2: f(v); break; default: f(static_cast<const char *>(p)); } }
	static bool comparable(const Text & a, const Text & b) { return (a.kind < 2 || b.kind < 2) && !(a.kind == 1 && b.kind > 1) && !(b.kind == 1 && a.kind > 1); }
	static void compare(Json & j, const Text & a, const Text & b) {
		a.with([&](const auto & x) { b.with([&](const auto & y) {
			using X = std::decay_t<decltype(x)>; using Y = std::decay_t<decltype(y)>;
			constexpr bool xs = std::is_same_v<X, ptl::string>, ys = std::is_same_v<Y, ptl::string>, xr = std::is_same_v<X, ptl::string_ref>, yr = std::is_same_v<Y, ptl::string_ref>;
			if constexpr(xs || ys || (xr && yr)) {
				row(j, x, y);
				if constexpr((xs || xr) && (ys || yr)) j.num(std::hash<X>{}(x) == std::hash<Y>{}(y)); else j.num(-1);
			}
		}); });
	}
	void out(Json & j) const {
		std::ostringstream os; bool same = true;
		with([&](const auto & x) { same = &(os << x) == static_cast<std::ostream *>(&os); });
		const auto t = os.str(); std::vector<long> w; for(char c : t) w.push_back(static_cast<unsigned char>(c));
		j.list("text", w); j.kv("same", static_cast<long>(same && os.good()));
	}
};
// ---- vectors
template<class T> struct Vec {
	ptl::vector<T> v;
	Vec(long, long how, const std::vector<int> & key) {
		switch(how % 5) {
			case 0: for(int x : key) v.push_back(Val<T>::mk(x)); break;
			case 1: v.reserve(50); for(int x : key) v.push_back(Val<T>::mk(x)); break;
			case 2: for(int x : key) v.push_back(Val<T>::mk(x)); v.resize(key.size() + 20); v.erase(v.begin() + static_cast<long>(key.size()), v.end()); break;
			case 3: { ptl::vector<T> o; for(int x : key) o.push_back(Val<T>::mk(x)); v = std::move(o); break; }
			default: { ptl::vector<T> o; o.resize(30); for(int x : key) v.push_back(Val<T>::mk(x)); swap(v, o); o.swap(v); v.shrink_to_fit(); }
		}
	}
	void set(Vec & o, long how) { if(how & 1) v = std::move(o.v); else v = std::as_const(o.v); }
	static bool comparable(const Vec &, const Vec &) { return true; }
	static void compare(Json & j, const Vec & a, const Vec & b) { row(j, a.v, b.v); j.num(-1); }
	void out(Json &) const {}
};
// ---- optionals: kind 0 optional, 1 nullopt, 2 value; a key is [] or [v]
template<class T> T from(const int * f, const int * l) { if constexpr(std::is_same_v<T, ptl::string>) { ptl::string s; for(; f != l; ++f) s.push_back(static_cast<char>(*f)); return s; } else { (void)l; return Val<T>::mk(*f); } }
template<class T> struct Opt { // keys: [] or [1, value...]
	long kind; ptl::optional<T> o; std::unique_ptr<T> v;
	Opt(long kind, long how, const std::vector<int> & key) : kind{kind} {
		if(key.empty()) { if(kind == 2) this->kind = 0; if(how % 3 == 1) { o.emplace(); o.reset(); } else if(how % 3 == 2) { o.emplace(); o = std::nullopt; } return; }
		if(kind == 1) this->kind = 0;
		v.reset(new T(from<T>(key.data() + 1, key.data() + key.size())));
		switch(how % 4) { case 0: o = *v; break; case 1: o.emplace(*v); break; case 2: { ptl::optional<T> p{*v}; o = p; break; } default: { ptl::optional<T> p{*v}; swap(o, p); } }
	}
	void set(Opt & o, long how) { kind = o.kind; v = std::move(o.v); if(how & 1) this->o = std::move(o.o); else this->o = std::as_const(o.o); }
	static bool comparable(const Opt & a, const Opt & b) { return !a.kind || !b.kind; }
	template<class F> void with(F f) const { switch(kind) { case 0: f(o); break; case 1: f(std::nullopt); break; default: f(*v); } }
	static void compare(Json & j, const Opt & a, const Opt & b) {
		a.with([&](const auto & x) { b.with([&](const auto & y) {
			if constexpr(std::is_same_v<std::decay_t<decltype(x)>, ptl::optional<T>> || std::is_same_v<std::decay_t<decltype(y)>, ptl::optional<T>>) row(j, x, y);
		}); });
		j.num(-1);
	}
	void out(Json &) const {}
};
// ---- variants; keys: [alternative, value...]
template<class A, class C, class D> struct Var {
	using V = ptl::variant<A, ptl::string, C, D>;
	V v{Val<A>::mk(0)};
	Var(long, long how, const std::vector<int> & key) {
		const int * f = key.data() + 1; const int * l = key.data() + key.size();
		if(how & 1) v = from<ptl::string>(f, l); else if(how & 2) v.template emplace<C>(Val<C>::mk(5));
		switch(key[0]) {
			case 0: if(how & 4) v = Val<A>::mk(*f); else v.template emplace<A>(Val<A>::mk(*f)); break;
			case 1: if(how & 4) v = from<ptl::string>(f, l); else v.template emplace<ptl::string>(from<ptl::string>(f, l)); break;
			case 2: if(how & 4) { V w{Val<C>::mk(*f)}; v = w; } else v.template emplace<C>(Val<C>::mk(*f)); break;
			default: if(how & 4) { V w{std::in_place_index<3>, Val<D>::mk(*f)}; v = std::move(w); } else v = Val<D>::mk(*f);
		}
	}
	void set(Var & o, long how) { if(how & 1) v = std::move(o.v); else v = std::as_const(o.v); }
	static bool comparable(const Var &, const Var &) { return true; }
	static void compare(Json & j, const Var & a, const Var & b) { row(j, a.v, b.v); j.num(-1); }
	void out(Json &) const {}
};
template<class O> void go(const Script & s) {
	std::vector<std::unique_ptr<O>> os;
	{ Json j; j.open('{'); j.kv("op", std::string("init")); j.close('}'); event(j); }
	for(auto & o : s.ops) { // args: kind how | key
		Json j; j.open('{'); j.kv("op", o.name);
		auto put = [&](std::size_t x, std::size_t y) { if(!O::comparable(*os[x], *os[y])) return; j.open('['); j.num(static_cast<long>(x) + 1); j.num(static_cast<long>(y) + 1); O::compare(j, *os[x], *os[y]); j.close(']'); };
		auto pairs = [&](std::size_t w) { const std::size_t n = os.size(); j.key("cmp"); j.open('['); for(std::size_t x = 0; x < n; ++x) { put(x, w); if(x != w) put(w, x); } j.close(']'); j.first = false; };
		auto every = [&] { const std::size_t n = os.size(); j.key("cmp"); j.open('['); for(std::size_t x = 0; x < n; ++x) for(std::size_t y = 0; y < n; ++y) put(x, y); j.close(']'); j.first = false; };
		if(o.name == "new") {
			os.emplace_back(new O(o.at(0), o.at(1), o.v));
			j.list("key", o.v); pairs(os.size() - 1);
		} else if(o.name == "sub" || o.name == "write") { // texts only: kind object from length; object index value
			if constexpr(std::is_same_v<O, Text>) {
				if(os.empty()) continue;
				const auto k = static_cast<std::size_t>(o.at(o.name == "sub")) % os.size(); const auto size = os[k]->n;
				j.kv("a", static_cast<long>(k) + 1);
				if(o.name == "sub") {
					const auto from = static_cast<std::size_t>(o.at(2)) % (size + 1), len = static_cast<std::size_t>(o.at(3)) % (size - from + 1);
					j.kv("from", static_cast<long>(from)); j.kv("len", static_cast<long>(len));
					os.emplace_back(new O(o.at(0), *os[k], from, len)); pairs(os.size() - 1);
				} else {
					if(!size) continue;
					const auto i = static_cast<std::size_t>(o.at(1)) % size; const long x = 1 + o.at(2) % 255;
					j.kv("i", static_cast<long>(i)); j.kv("v", x); os[k]->write(i, static_cast<int>(x)); every();
				}
			} else continue;
		} else if(o.name == "set") { // all others: an object gets another value
			if constexpr(!std::is_same_v<O, Text>) {
				if(os.empty()) continue;
				const auto k = static_cast<std::size_t>(o.at(2)) % os.size(); O z(o.at(0), o.at(1), o.v);
				os[k]->set(z, o.at(3)); j.kv("a", static_cast<long>(k) + 1); j.list("key", o.v); every();
			} else continue;
		} else if(o.name == "out") { if(os.empty()) continue; const auto k = static_cast<std::size_t>(o.at(0)) % os.size(); j.kv("a", static_cast<long>(k) + 1); os[k]->out(j); }
		j.close('}'); event(j);
	}
}
void run(const Script & s) {
	seed_from(s.id + s.type);
	if(s.type == "text") go<Text>(s);
	else if(s.type == "vi") go<Vec<int>>(s);
	else if(s.type == "vc") go<Vec<unsigned char>>(s);
	else if(s.type == "ve") go<Vec<Elem>>(s);
	else if(s.type == "vb") go<Vec<Big>>(s);
	else if(s.type == "oi") go<Opt<int>>(s);
	else if(s.type == "oe") go<Opt<Elem>>(s);
	else if(s.type == "os") go<Opt<ptl::string>>(s);
	else if(s.type == "od") go<Opt<double>>(s);
	else if(s.type == "ol") go<Opt<Loose>>(s);
	else if(s.type == "vd") go<Vec<double>>(s);
	else if(s.type == "vl") go<Vec<Loose>>(s);
	else if(s.type == "var") go<Var<int, Elem, unsigned char>>(s);
	else if(s.type == "vaf") go<Var<double, Loose, float>>(s);
}
}
int main(int argc, char ** argv) { return main_loop(argc, argv, run); }
