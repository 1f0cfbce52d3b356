#include "seq.h"
#define WEAK(k) extern "C" __attribute__((weak, visibility("hidden"))) const SeqMod *seq_mod_##k();
WEAK(0) WEAK(1) WEAK(2) WEAK(3) WEAK(4) WEAK(5) WEAK(6)
extern "C" __attribute__((visibility("default"))) const SeqMod *seq_mod(int t) {
	const SeqMod *(*f[])() = {seq_mod_0, seq_mod_1, seq_mod_2, seq_mod_3, seq_mod_4, seq_mod_5, seq_mod_6};
	return f[t] ? f[t]() : nullptr;
}
