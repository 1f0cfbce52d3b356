#include "sum.h"
#define WEAK(k) extern "C" __attribute__((weak, visibility("hidden"))) const SumMod *sum_mod_##k();
WEAK(0) WEAK(1) WEAK(2) WEAK(3) WEAK(4) WEAK(5) WEAK(6) WEAK(7) WEAK(8) WEAK(9)
extern "C" __attribute__((visibility("default"))) const SumMod *sum_mod(int t) {
	const SumMod *(*f[])() = {sum_mod_0, sum_mod_1, sum_mod_2, sum_mod_3, sum_mod_4, sum_mod_5, sum_mod_6, sum_mod_7, sum_mod_8, sum_mod_9};
	return f[t] ? f[t]() : nullptr;
}
