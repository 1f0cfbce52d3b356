// Interface between the driver for ptl::optional / ptl::variant and its modules.
#pragma once
#include <cstddef>
enum SumOp { U_CREATE, U_MVCREATE, U_DESTROY, U_INIT, U_ASSIGN, U_MVASSIGN, U_EMPLACE, U_RESET, U_SWAP, U_WRITE, U_READ, U_VISIT };
struct SumReq { int op, ov; void *self, *other; int a, v, cat, thr; };   // a: alternative, 0 = empty
struct SumRes { int x; long rv; int same, calls, va, vv, cq, rq, res; };
struct SumObs { int a, v, holds, gif; const void *p, *data; int tracked; };
struct SumMod { std::size_t size, align; int alts, optional; void (*apply)(const SumReq *, SumRes *); void (*observe)(const void *, int via, SumObs *); };
extern "C" const SumMod *sum_mod(int type);
enum { U_OI, U_OE, U_OB, U_OS, U_V1, U_V2, U_V5, U_VS, U_VW, U_ON, SUM_TYPES };
