// Driver for stream output and input: one stream whose output is its input, bitsets of one size, strings and string_refs.
#include "core_impl.h"
#include <ptl/bitset.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <iomanip>
#include <iostream>
#include <memory>
#include <optional>
using namespace core;
namespace {
// delivers what was written, in portions of some size, and accepts a limited number of characters
struct Channel final : std::streambuf {
	std::string all; std::size_t at{0}, portion{1000}; long room{-1}; char one[1100];
	std::size_t pos() const { return at - static_cast<std::size_t>(egptr() - gptr()); }
	int_type underflow() override {
		if(gptr() < egptr()) return traits_type::to_int_type(*gptr());
		const auto n = std::min({portion, all.size() - at, sizeof one});
		if(!n) { setg(one, one, one); return traits_type::eof(); }
		memcpy(one, all.data() + at, n); at += n; setg(one, one, one + n);
		return traits_type::to_int_type(*gptr());
	}
	int_type overflow(int_type c) override { if(traits_type::eq_int_type(c, traits_type::eof()) || room == 0) return traits_type::eof(); if(room > 0) --room; all += traits_type::to_char_type(c); return c; }
	std::streamsize xsputn(const char * s, std::streamsize n) override { std::streamsize k = 0; for(; k < n && room != 0; ++k) { all += s[k]; if(room > 0) --room; } return k; }
	std::streamsize showmanyc() override { return static_cast<std::streamsize>(all.size() - at); }
};
template<std::size_t N> struct Streams {
	const Script & sc;
	using B = ptl::bitset<N>;
	Channel ch; std::iostream s{&ch};
	B bits[2]; std::unique_ptr<ptl::string> text[2];
	std::vector<char> raw[2];                        // exactly the characters of the text, for the views
	explicit Streams(const Script & x) : sc{x} { for(auto & t : text) t.reset(new ptl::string); ch.portion = 1 + rnd(4) * (1 + rnd(40)); }
	static void flags(Json & j, const char * k, std::ios::iostate st) { std::vector<std::string> v; if(st & std::ios::eofbit) v.push_back("eof"); if(st & std::ios::failbit) v.push_back("fail"); if(st & std::ios::badbit) v.push_back("bad"); j.list_str(k, v); }
	static constexpr std::ios::fmtflags some[]{std::ios::hex, std::ios::oct, std::ios::showbase, std::ios::boolalpha, std::ios::showpos, std::ios::uppercase, std::ios::unitbuf, std::ios::dec};
	template<class T> static void chars(Json & j, const T & t) { j.open('['); for(char c : t) j.num(static_cast<unsigned char>(c)); j.close(']'); }
	void finish(Json & j) {
		j.key("c"); j.open('{');
		j.key("ch"); chars(j, ch.all.substr(ch.pos())); j.first = false;
		flags(j, "st", s.rdstate()); flags(j, "mask", s.exceptions());
		j.kv("w", static_cast<long>(s.width())); j.kv("fill", static_cast<unsigned char>(s.fill())); j.kv("skip", (s.flags() & std::ios::skipws) != 0);
		const auto a = s.flags() & std::ios::adjustfield; j.kv("adj", std::string(a == std::ios::left ? "left" : a == std::ios::internal ? "internal" : a == std::ios::right ? "right" : ""));
		long fl = 0; for(std::size_t k = 0; k < 8; ++k) if(s.flags() & some[k]) fl |= 1 << k; 
		j.kv("fl", fl); j.kv("room", ch.room);
		j.key("bits"); j.open('['); for(auto & b : bits) { std::vector<int> v; for(std::size_t k = 0; k < N; ++k) if(static_cast<const B &>(b)[k]) v.push_back(static_cast<int>(k)); j.open('['); for(int x : v) j.num(x); j.close(']'); } j.close(']'); j.first = false;
		j.key("text"); j.open('['); for(auto & t : text) chars(j, *t); j.close(']'); j.first = false;
		j.close('}'); j.close('}');
		event(j);
	}
	// o ov v | values
	void op(const Op & op) {
		const auto o = static_cast<std::size_t>(op.at(0) & 1); long ov = op.at(1), v = op.at(2);
		std::string name, x; long same = -1;
		std::vector<int> values; std::vector<std::string> ms;
		const auto & q = op.name;
		try {
			if(q == "put") {
				switch(ov % 3) {
					case 0: name = "bits"; same = &(s << static_cast<const B &>(bits[o])) == static_cast<std::ostream *>(&s); break;
					case 1: name = "string"; same = &(s << static_cast<const ptl::string &>(*text[o])) == static_cast<std::ostream *>(&s); break;
					default: name = "ref"; same = &(s << ptl::string_ref{raw[o].data(), raw[o].size()}) == static_cast<std::ostream *>(&s);
				}
			} else if(q == "get") { if(N == 0) return; same = &(s >> bits[o]) == static_cast<std::istream *>(&s); }
			else if(q == "width") s.width(v);
			else if(q == "fill") s.fill(static_cast<char>(v));
			else if(q == "adj") { name = ov % 3 == 0 ? "left" : ov % 3 == 1 ? "right" : "internal"; s.setf(ov % 3 == 0 ? std::ios::left : ov % 3 == 1 ? std::ios::right : std::ios::internal, std::ios::adjustfield); }
			else if(q == "skip") { v &= 1; if(v) s >> std::skipws; else s >> std::noskipws; }
			else if(q == "flags") { v &= 255; auto f = s.flags(); for(std::size_t k = 0; k < 8; ++k) if(v >> k & 1) f |= some[k]; else f &= ~some[k]; s.flags(f); }
			else if(q == "feed") { values = op.v; for(int c : op.v) ch.all += static_cast<char>(c); }
			else if(q == "room") ch.room = v;
			else if(q == "clear") s.clear();
			else if(q == "state") { name = ov % 3 == 0 ? "eof" : ov % 3 == 1 ? "fail" : "bad"; s.setstate(ov % 3 == 0 ? std::ios::eofbit : ov % 3 == 1 ? std::ios::failbit : std::ios::badbit); }
			else if(q == "mask") { v &= 3; if(v & 1) ms.push_back("fail"); if(v & 2) ms.push_back("bad"); s.exceptions((v & 1 ? std::ios::failbit : std::ios::goodbit) | (v & 2 ? std::ios::badbit : std::ios::goodbit)); }
			else if(q == "bits") { bits[o] = B{}; for(int k : op.v) if(k >= 0 && static_cast<std::size_t>(k) < N) { bits[o].set(static_cast<std::size_t>(k)); values.push_back(k); } }
			else if(q == "text") { values = op.v; raw[o].assign(op.v.begin(), op.v.end()); raw[o].shrink_to_fit(); text[o].reset(new ptl::string(raw[o].begin(), raw[o].end())); if(ov & 1) text[o]->reserve(200); }
			else return;
		} catch(const std::ios::failure &) { x = "ios"; } catch(...) { x = "other"; }
		Json j; j.open('{'); j.kv("op", q); j.kv("ov", name); j.kv("o", static_cast<long>(o) + 1); j.kv("v", v); for(int & k : values) k &= q == "bits" ? ~0 : 255;
		j.list("text", values); j.list_str("ms", ms); j.kv("x", x); j.kv("same", same);
		finish(j);
	}
	void run() {
		Json j; j.open('{'); j.kv("op", std::string("init")); j.kv("n", static_cast<long>(N));
		s.setf(std::ios::right, std::ios::adjustfield);
		finish(j);
		for(auto & o : sc.ops) op(o);
	}
};
#define SIZES X(0) X(1) X(2) X(3) X(7) X(8) X(9) X(16) X(31) X(64) X(65) X(130) X(257) X(520)
void run(const Script & s) {
	seed_from(s.id + s.type);
#define X(n) if(s.type == "n" #n) return std::make_unique<Streams<n>>(s)->run();
	SIZES
#undef X
}
}
int main(int argc, char ** argv) { return main_loop(argc, argv, run); }
