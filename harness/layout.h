// A peer that knows nothing but the binary layout: reads and writes objects of the library without its headers.
#pragma once
#include "core_impl.h"
namespace peer {
using namespace core;
using Word = unsigned long long;
inline Word word(const void * p, std::size_t at) { Word w; memcpy(&w, static_cast<const unsigned char *>(p) + at, 8); return w; }
inline void put_word(void * p, std::size_t at, Word w) { memcpy(static_cast<unsigned char *>(p) + at, &w, 8); }
template<class T> T * ptr(Word w) { T * p; static_assert(sizeof p == sizeof w); memcpy(&p, &w, 8); return p; }
template<class T> Word as_word(T * p) { Word w; memcpy(&w, &p, 8); return w; }
using Free = void (*)(void *);
inline void release(void * p) { core_free(3, K_MALLOC, p); }     // what the peer's own buffers are released with
inline void * acquire(std::size_t n, std::size_t align) { core_window(1); auto p = core_alloc(3, K_MALLOC, n, align < 16 ? 16 : align, 0); core_window(0); return p; }
// destroys what is stored as [dealloc][ptr...]; the elements need no destruction
inline void destroy(void * obj) { if(const auto d = word(obj, 0)) { core_window(1); Free f; memcpy(&f, &d, 8); f(ptr<void>(word(obj, 8))); core_window(0); } }
// ---- string: dealloc, then size byte and text, or pointer, capacity, size
struct Text { bool heap; Word cap, size; const unsigned char * p; };
inline Text read_string(const void * obj) {
	const auto b = static_cast<const unsigned char *>(obj);
	if(!word(obj, 0)) return {false, 22, b[8], b + 9};
	return {true, word(obj, 16), word(obj, 24), ptr<const unsigned char>(word(obj, 8))};
}
inline void write_string(void * obj, const unsigned char * s, std::size_t n, bool heap, std::size_t spare) {
	const auto b = static_cast<unsigned char *>(obj);
	if(!heap && n <= 22) { put_word(obj, 0, 0); b[8] = static_cast<unsigned char>(n); memcpy(b + 9, s, n); b[9 + n] = 0; return; }
	const auto cap = (n < 23 ? 23 : n) + spare;
	const auto p = static_cast<unsigned char *>(acquire(cap + 1, 1));
	memcpy(p, s, n); p[n] = 0;
	put_word(obj, 0, as_word(&release)); put_word(obj, 8, as_word(p)); put_word(obj, 16, cap); put_word(obj, 24, n);
}
// ---- vector: dealloc, pointer, capacity, size
inline void write_vector(void * obj, const unsigned char * elements, std::size_t n, std::size_t size, std::size_t align, std::size_t spare) {
	const auto cap = n + spare;
	if(!cap) { for(std::size_t k = 0; k < 4; ++k) put_word(obj, 8 * k, 0); return; }
	const auto p = static_cast<unsigned char *>(acquire(cap * size, align));
	memcpy(p, elements, n * size);
	put_word(obj, 0, as_word(&release)); put_word(obj, 8, as_word(p)); put_word(obj, 16, cap); put_word(obj, 24, n);
}
// ---- values, by kind: how many bytes, and their encoding
// int, char, big (six ints), pad (a long 7, then an int, then padding)
inline std::size_t size_of(const std::string & kind) { return kind == "int" ? 4 : kind == "char" ? 1 : kind == "big" ? 24 : kind == "pad" ? 16 : 32; }
inline void write_value(unsigned char * p, const std::string & kind, int v) {
	if(kind == "int") memcpy(p, &v, 4);
	else if(kind == "char") *p = static_cast<unsigned char>(v);
	else if(kind == "big") for(int k = 0; k < 6; ++k) memcpy(p + 4 * k, &v, 4);
	else if(kind == "pad") { put_word(p, 0, 7); memcpy(p + 8, &v, 4); }
}
}
