// Interface between the driver for ptl::bitset and its modules.
#pragma once
#include <cstddef>
enum BitOp { B_DESTROY, B_INIT, B_CREATE, B_MVCREATE, B_ASSIGN, B_SET, B_RESET, B_FLIP, B_COMPOUND, B_BINARY, B_NOT, B_SHIFT, B_SHIFTED, B_REF, B_SWAP, B_READ, B_IN, B_OUT };
struct BitReq {
	int op, ov; void *self, *other, *third;
	unsigned long long i, j; int b;      // indices, counts or the integer; bool value
	const char *text; std::size_t ntext; // stream contents
};
struct BitRes { int x; long rv; int fail, left, same; char *out; std::size_t nout; };
struct BitObs { int *bits; long nbits; unsigned long long count, size, max, hash; int all, any, none, boolean, empty, agree; };
struct BitMod { std::size_t n, size, align; void (*apply)(const BitReq *, BitRes *); void (*observe)(const void *, int via, BitObs *); void (*equal)(const void *, const void *, int *eq, int *ne); };
extern "C" const BitMod *bit_mod(int type);
#define BIT_SIZES X(0) X(1) X(2) X(3) X(4) X(7) X(8) X(9) X(15) X(16) X(17) X(31) X(32) X(33) X(63) X(64) X(65) X(100) X(128) X(130) X(256) X(257) X(300) X(520) X(1030) X(70000)
