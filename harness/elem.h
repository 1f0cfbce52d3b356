// Element types and iterator adaptors used as template arguments by the modules.
#pragma once
#include "core.h"
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#include <utility>

// what comparisons of elements look at: with BLUNT objects may be equal without being the same
#ifdef BLUNT
inline int regard(int v) { return v & 1; }
#else
inline int regard(int v) { return v; }
#endif
// Elements whose & is not their address: the library has to find objects by std::addressof.
#ifdef ELUSIVE_FORBIDDEN
#define ELUSIVE(...) void operator&() const =delete;
#else
alignas(64) inline unsigned char elsewhere[4096];
#define ELUSIVE(...) __VA_ARGS__ * operator&() noexcept { return reinterpret_cast<__VA_ARGS__ *>(elsewhere); } const __VA_ARGS__ * operator&() const noexcept { return reinterpret_cast<const __VA_ARGS__ *>(elsewhere); }
#endif

// Every special member is reported; copies may throw (injected faults); moved-from and self-moved
// objects are recognisable (v == -1).
struct Elem {
	ELUSIVE(Elem)
	int v;
	Elem() : v{0} { fault(); core_life(L_VAL, this, nullptr); }
	Elem(int x) : v{x} { fault(); core_life(L_VAL, this, nullptr); }
	Elem(const Elem & o) : v{o.v} { fault(); core_life(L_COPY, this, std::addressof(o)); }
	Elem(Elem && o) noexcept : v{o.v} { core_life(L_MOVE, this, std::addressof(o)); o.v = -1; }
	Elem & operator=(const Elem & o) { fault(); core_life(L_CASSIGN, this, std::addressof(o)); v = o.v; return *this; }
	Elem & operator=(Elem && o) noexcept { core_life(this == std::addressof(o) ? L_SELFMOVE : L_MASSIGN, this, std::addressof(o)); v = o.v; o.v = -1; return *this; }
	~Elem() { core_life(L_DTOR, this, nullptr); const_cast<volatile int &>(v) = -2; }
	static void fault() { if(core_fault(F_ELEM)) throw user_fault{}; }
	friend bool operator==(const Elem & a, const Elem & b) noexcept { rd(a, b); return regard(a.v) == regard(b.v); }
	friend bool operator!=(const Elem & a, const Elem & b) noexcept { rd(a, b); return regard(a.v) != regard(b.v); }
	friend bool operator<(const Elem & a, const Elem & b) noexcept { rd(a, b); return regard(a.v) < regard(b.v); }
	friend bool operator>(const Elem & a, const Elem & b) noexcept { rd(a, b); return regard(a.v) > regard(b.v); }
	friend bool operator<=(const Elem & a, const Elem & b) noexcept { rd(a, b); return regard(a.v) <= regard(b.v); }
	friend bool operator>=(const Elem & a, const Elem & b) noexcept { rd(a, b); return regard(a.v) >= regard(b.v); }
	static void rd(const Elem & a, const Elem & b) { core_life(L_READ, std::addressof(a), nullptr); core_life(L_READ, std::addressof(b), nullptr); }
};
// aggregate of 24 bytes
struct Big {
	ELUSIVE(Big)
	int v;
	int pad[4];
	int w;
	friend bool operator==(const Big & a, const Big & b) noexcept { return regard(a.v) == regard(b.v); }
	friend bool operator<(const Big & a, const Big & b) noexcept { return regard(a.v) < regard(b.v); }
};
struct alignas(64) Over {
	ELUSIVE(Over)
	int v;
	friend bool operator==(const Over & a, const Over & b) noexcept { return regard(a.v) == regard(b.v); }
	friend bool operator<(const Over & a, const Over & b) noexcept { return regard(a.v) < regard(b.v); }
};

template<class T> struct Val;
template<> struct Val<int> { static int mk(int x) { return x; } static int get(const int & x) { return x; } };
template<> struct Val<unsigned char> { static unsigned char mk(int x) { return static_cast<unsigned char>(x); } static int get(unsigned char x) { return x; } };
template<> struct Val<char> { static char mk(int x) { return static_cast<char>(x); } static int get(char x) { return static_cast<unsigned char>(x); } };
template<> struct Val<Elem> { static Elem mk(int x) { return Elem{x}; } static int get(const Elem & x) { return x.v; } };
template<> struct Val<Big> {
	static Big mk(int x) { return {x, {x, x, x, x}, x}; }
	static int get(const Big & x) { for(int p : x.pad) if(p != x.v) return -3; return x.w == x.v ? x.v : -3; }
};
template<> struct Val<Over> { static Over mk(int x) { return {x}; } static int get(const Over & x) { return x.v; } };

inline void it_fault() { if(core_fault(F_ITER)) throw user_fault{}; }

// single pass input iterator; copies share the position
template<class T> struct InIt {
	using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T *; using reference = const T &;
	const T ** cur; // null: end
	const T * last;
	bool done() const { return !cur || *cur == last; }
	reference operator*() const { it_fault(); return **cur; }
	InIt & operator++() { ++*cur; return *this; }
	struct proxy { T val; const T & operator*() const { return val; } };
	proxy operator++(int) { proxy p{**cur}; ++*cur; return p; }
	friend bool operator==(const InIt & a, const InIt & b) { return a.done() == b.done(); }
	friend bool operator!=(const InIt & a, const InIt & b) { return !(a == b); }
};
// non-contiguous iterators (stride may be negative)
template<class T, class Cat> struct StrideIt {
	using iterator_category = Cat; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T *; using reference = const T &;
	const T * p{nullptr}; std::ptrdiff_t st{1};
	reference operator*() const { it_fault(); return *p; }
	pointer operator->() const { return p; }
	StrideIt & operator++() { p += st; return *this; }
	StrideIt operator++(int) { auto t{*this}; p += st; return t; }
	StrideIt & operator--() { p -= st; return *this; }
	StrideIt operator--(int) { auto t{*this}; p -= st; return t; }
	StrideIt & operator+=(std::ptrdiff_t n) { p += st * n; return *this; }
	StrideIt & operator-=(std::ptrdiff_t n) { p -= st * n; return *this; }
	friend StrideIt operator+(StrideIt a, std::ptrdiff_t n) { return a += n; }
	friend StrideIt operator+(std::ptrdiff_t n, StrideIt a) { return a += n; }
	friend StrideIt operator-(StrideIt a, std::ptrdiff_t n) { return a -= n; }
	friend std::ptrdiff_t operator-(const StrideIt & a, const StrideIt & b) { return (a.p - b.p) / a.st; }
	reference operator[](std::ptrdiff_t n) const { it_fault(); return p[st * n]; }
	friend bool operator==(const StrideIt & a, const StrideIt & b) { return a.p == b.p; }
	friend bool operator!=(const StrideIt & a, const StrideIt & b) { return a.p != b.p; }
	friend bool operator<(const StrideIt & a, const StrideIt & b) { return (b - a) > 0; }
	friend bool operator>(const StrideIt & a, const StrideIt & b) { return b < a; }
	friend bool operator<=(const StrideIt & a, const StrideIt & b) { return !(b < a); }
	friend bool operator>=(const StrideIt & a, const StrideIt & b) { return !(a < b); }
};
template<class T> using FwdIt = StrideIt<T, std::forward_iterator_tag>;
template<class T> using BidIt = StrideIt<T, std::bidirectional_iterator_tag>;
template<class T> using RndIt = StrideIt<T, std::random_access_iterator_tag>;

// endless supply of one value with arbitrary distance (for requests beyond max_size)
template<class T> struct GenIt {
	using iterator_category = std::random_access_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T *; using reference = const T &;
	std::ptrdiff_t i{0}; const T * val{nullptr};
	reference operator*() const { return *val; }
	GenIt & operator++() { ++i; return *this; } GenIt operator++(int) { auto t{*this}; ++i; return t; }
	GenIt & operator--() { --i; return *this; } GenIt operator--(int) { auto t{*this}; --i; return t; }
	GenIt & operator+=(std::ptrdiff_t n) { i += n; return *this; } GenIt & operator-=(std::ptrdiff_t n) { i -= n; return *this; }
	friend GenIt operator+(GenIt a, std::ptrdiff_t n) { return a += n; } friend GenIt operator+(std::ptrdiff_t n, GenIt a) { return a += n; }
	friend GenIt operator-(GenIt a, std::ptrdiff_t n) { return a -= n; }
	friend std::ptrdiff_t operator-(const GenIt & a, const GenIt & b) { return a.i - b.i; }
	reference operator[](std::ptrdiff_t) const { return *val; }
	friend bool operator==(const GenIt & a, const GenIt & b) { return a.i == b.i; } friend bool operator!=(const GenIt & a, const GenIt & b) { return a.i != b.i; }
	friend bool operator<(const GenIt & a, const GenIt & b) { return a.i < b.i; } friend bool operator>(const GenIt & a, const GenIt & b) { return a.i > b.i; }
	friend bool operator<=(const GenIt & a, const GenIt & b) { return a.i <= b.i; } friend bool operator>=(const GenIt & a, const GenIt & b) { return a.i >= b.i; }
};

// tracked like Elem, but nothing throws; a copy made with braces is a list
struct NElem {
	ELUSIVE(NElem)
	int v;
	NElem() noexcept : v{0} { core_life(L_VAL, this, nullptr); }
	explicit NElem(int x) noexcept : v{x} { core_life(L_VAL, this, nullptr); }
	NElem(std::initializer_list<NElem>) noexcept : v{-7} { core_life(L_VAL, this, nullptr); }
	NElem(const NElem & o) noexcept : v{o.v} { core_life(L_COPY, this, std::addressof(o)); }
	NElem(NElem && o) noexcept : v{o.v} { core_life(L_MOVE, this, std::addressof(o)); o.v = -1; }
	NElem & operator=(const NElem & o) noexcept { core_life(L_CASSIGN, this, std::addressof(o)); v = o.v; return *this; }
	NElem & operator=(NElem && o) noexcept { core_life(this == std::addressof(o) ? L_SELFMOVE : L_MASSIGN, this, std::addressof(o)); v = o.v; o.v = -1; return *this; }
	~NElem() { core_life(L_DTOR, this, nullptr); const_cast<volatile int &>(v) = -2; }
	friend bool operator==(const NElem & a, const NElem & b) noexcept { return regard(a.v) == regard(b.v); }
	friend bool operator!=(const NElem & a, const NElem & b) noexcept { return regard(a.v) != regard(b.v); }
	friend bool operator<(const NElem & a, const NElem & b) noexcept { return regard(a.v) < regard(b.v); }
	friend bool operator>(const NElem & a, const NElem & b) noexcept { return regard(a.v) > regard(b.v); }
	friend bool operator<=(const NElem & a, const NElem & b) noexcept { return regard(a.v) <= regard(b.v); }
	friend bool operator>=(const NElem & a, const NElem & b) noexcept { return regard(a.v) >= regard(b.v); }
};
// the constructor from int cannot throw, the one brace initialisation prefers can
struct LElem {
	ELUSIVE(LElem)
	long pad{7};
	int v;
	LElem() noexcept : v{0} { core_life(L_VAL, this, nullptr); }
	LElem(int x) noexcept : v{x} { core_life(L_VAL, this, nullptr); }
	LElem(std::initializer_list<int> il) : v{*il.begin()} { Elem::fault(); core_life(L_VAL, this, nullptr); }
	LElem(const LElem & o) : v{o.v} { Elem::fault(); core_life(L_COPY, this, std::addressof(o)); }
	LElem(LElem && o) noexcept : v{o.v} { core_life(L_MOVE, this, std::addressof(o)); o.v = -1; }
	LElem & operator=(const LElem & o) { Elem::fault(); core_life(L_CASSIGN, this, std::addressof(o)); v = o.v; return *this; }
	LElem & operator=(LElem && o) noexcept { core_life(this == std::addressof(o) ? L_SELFMOVE : L_MASSIGN, this, std::addressof(o)); v = o.v; o.v = -1; return *this; }
	~LElem() { core_life(L_DTOR, this, nullptr); const_cast<volatile int &>(v) = -2; }
	friend bool operator==(const LElem & a, const LElem & b) noexcept { return regard(a.v) == regard(b.v); }
	friend bool operator<(const LElem & a, const LElem & b) noexcept { return regard(a.v) < regard(b.v); }
};
// what is handed to emplace: copies made by it are made with braces
template<class T> T && pass(T & x, int) { return std::move(x); }
template<class T> const T & pass(const T & x) { return x; }
inline const int & pass(NElem & x, int) { return x.v; }
inline const int & pass(const NElem & x) { return x.v; }
template<> struct Val<NElem> { static NElem mk(int x) { return NElem{x}; } static int get(const NElem & x) { return x.v; } };
template<> struct Val<LElem> { static LElem mk(int x) { return LElem(x); } static int get(const LElem & x) { return x.pad == 7 ? x.v : -3; } };
template<std::size_t I> struct Tag { ELUSIVE(Tag) int v; };
template<std::size_t I> struct Val<Tag<I>> { static Tag<I> mk(int x) { return {x}; } static int get(const Tag<I> & x) { return x.v; } };
