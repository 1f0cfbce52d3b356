// Elements that are equal without being identical, and whose order is not the order of their bytes.
// (include after core_impl.h and elem.h)
#pragma once
struct Loose {
	int key{-1}; char pad{0}; int noise{0};
	friend bool operator==(const Loose & a, const Loose & b) noexcept { return a.key == b.key; }
	friend bool operator!=(const Loose & a, const Loose & b) noexcept { return a.key != b.key; }
	friend bool operator<(const Loose & a, const Loose & b) noexcept { return a.key > b.key; }
	friend bool operator>(const Loose & a, const Loose & b) noexcept { return a.key < b.key; }
	friend bool operator<=(const Loose & a, const Loose & b) noexcept { return a.key >= b.key; }
	friend bool operator>=(const Loose & a, const Loose & b) noexcept { return a.key <= b.key; }
};
template<> struct Val<Loose> { static Loose mk(int x) { return {~x, static_cast<char>(core::rnd(5)), static_cast<int>(core::rnd(1000))}; } static int get(const Loose & x) { return ~x.key; } };
template<> struct Val<double> { static double mk(int x) { return x ? x / 4.0 : core::rnd(2) ? 0.0 : -0.0; } static int get(double x) { return static_cast<int>(x * 4); } };
template<> struct Val<float> { static float mk(int x) { return x ? static_cast<float>(x) / 4 : core::rnd(2) ? 0.0f : -0.0f; } static int get(float x) { return static_cast<int>(x * 4); } };
// equal without being the same: swaps and assignments must not depend on it (comparisons of these are not judged)
struct Blunt { int v{0}; friend bool operator==(const Blunt & a, const Blunt & b) noexcept { return (a.v & 1) == (b.v & 1); } friend bool operator!=(const Blunt & a, const Blunt & b) noexcept { return !(a == b); } friend bool operator<(const Blunt & a, const Blunt & b) noexcept { return (a.v & 1) < (b.v & 1); } friend bool operator>(const Blunt & a, const Blunt & b) noexcept { return b < a; } friend bool operator<=(const Blunt & a, const Blunt & b) noexcept { return !(b < a); } friend bool operator>=(const Blunt & a, const Blunt & b) noexcept { return !(a < b); } };
template<> struct Val<Blunt> { static Blunt mk(int x) { return {x}; } static int get(const Blunt & x) { return x.v; } };
