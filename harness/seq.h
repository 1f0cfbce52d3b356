// Interface between the sequence driver and its modules.
#pragma once
#include <cstddef>
enum SeqOp { CREATE, MVCREATE, DESTROY, ASSIGN, MVASSIGN, APPEND, INSERT, ERASE, POP, CLEAR, RESIZE, RESERVE, SHRINK, REPLACE, WRITE, CONCAT, SUBSTR, SWAP, READ, HUGE_OP, COMPARE, WALK, SEQ_OPS };
// shapes of the argument of an overload
enum Shape { NOARG, OBJ, IT, FILL, IL, SV, CH, LIT, DEFN, ONE_L, ONE_R, EMPL };
struct SeqReq {
	int op, ov, shape, it;
	void *self, *other;            // other: second object (OBJ arguments, swap, moves, concat)
	std::size_t i, j, n;
	const int *xs; std::size_t nx; // literal values
	void *src; std::size_t si, sj; int sr; // argument denotes a slice of this object (null: literal)
	int v;
	const int *w; std::size_t nw;  // walk instructions
	long *out; std::size_t nout;   // results of reads, walks and comparisons
};
struct SeqRes { int x; long rv; };
struct SeqObs { std::size_t n, cap; const void *data; int *c; std::size_t cn; int empty, nul, cstr; unsigned long long max; };
struct SeqMod {
	std::size_t size, align, vsize, valign;
	void (*apply)(const SeqReq *, SeqRes *);
	void (*observe)(const void *obj, int via, SeqObs *);
};
extern "C" const SeqMod *seq_mod(int type);
enum { T_STRING, T_VI, T_VC, T_VE, T_VB, T_VO, T_VN, SEQ_TYPES };
