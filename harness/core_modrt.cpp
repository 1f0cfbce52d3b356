// Linked into every module: all allocation calls of the module's code go to the core, tagged with the
// module that made them (ld --wrap).  MODULE_ID is set per module.
#include "core.h"
#include <new>
#include <cstdlib>
extern "C" {
void *__wrap_malloc(size_t n) { return core_alloc(MODULE_ID, K_MALLOC, n, 16, 0); }
void *__wrap_calloc(size_t a, size_t b) {
	if(b && a > static_cast<size_t>(-1) / b) return nullptr;
	return core_alloc(MODULE_ID, K_MALLOC, a * b, 16, 1);
}
void *__wrap_realloc(void *, size_t) { abort(); }
void *__wrap_aligned_alloc(size_t al, size_t n) { return core_alloc(MODULE_ID, K_MALLOC, n, al, 0); }
int __wrap_posix_memalign(void **p, size_t al, size_t n) { *p = core_alloc(MODULE_ID, K_MALLOC, n, al, 0); return *p ? 0 : 12; }
void __wrap_free(void *p) { core_free(MODULE_ID, K_MALLOC, p); }
static void *thr(void *p) { if(!p) throw std::bad_alloc{}; return p; }
void *__wrap__Znwm(size_t n) { return thr(core_alloc(MODULE_ID, K_NEW, n, 16, 0)); }
void *__wrap__Znam(size_t n) { return thr(core_alloc(MODULE_ID, K_NEWARR, n, 16, 0)); }
void *__wrap__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t &) { return core_alloc(MODULE_ID, K_NEW, n, 16, 0); }
void *__wrap__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t &) { return core_alloc(MODULE_ID, K_NEWARR, n, 16, 0); }
void *__wrap__ZnwmSt11align_val_t(size_t n, size_t al) { return thr(core_alloc(MODULE_ID, K_ANEW, n, al, 0)); }
void *__wrap__ZnamSt11align_val_t(size_t n, size_t al) { return thr(core_alloc(MODULE_ID, K_ANEWARR, n, al, 0)); }
void *__wrap__ZnwmSt11align_val_tRKSt9nothrow_t(size_t n, size_t al, const std::nothrow_t &) { return core_alloc(MODULE_ID, K_ANEW, n, al, 0); }
void *__wrap__ZnamSt11align_val_tRKSt9nothrow_t(size_t n, size_t al, const std::nothrow_t &) { return core_alloc(MODULE_ID, K_ANEWARR, n, al, 0); }
void __wrap__ZdlPv(void *p) { core_free(MODULE_ID, K_NEW, p); }
void __wrap__ZdaPv(void *p) { core_free(MODULE_ID, K_NEWARR, p); }
void __wrap__ZdlPvm(void *p, size_t) { core_free(MODULE_ID, K_NEW, p); }
void __wrap__ZdaPvm(void *p, size_t) { core_free(MODULE_ID, K_NEWARR, p); }
void __wrap__ZdlPvRKSt9nothrow_t(void *p, const std::nothrow_t &) { core_free(MODULE_ID, K_NEW, p); }
void __wrap__ZdaPvRKSt9nothrow_t(void *p, const std::nothrow_t &) { core_free(MODULE_ID, K_NEWARR, p); }
void __wrap__ZdlPvSt11align_val_t(void *p, size_t) { core_free(MODULE_ID, K_ANEW, p); }
void __wrap__ZdaPvSt11align_val_t(void *p, size_t) { core_free(MODULE_ID, K_ANEWARR, p); }
void __wrap__ZdlPvmSt11align_val_t(void *p, size_t, size_t) { core_free(MODULE_ID, K_ANEW, p); }
void __wrap__ZdaPvmSt11align_val_t(void *p, size_t, size_t) { core_free(MODULE_ID, K_ANEWARR, p); }
void __wrap__ZdlPvSt11align_val_tRKSt9nothrow_t(void *p, size_t, const std::nothrow_t &) { core_free(MODULE_ID, K_ANEW, p); }
void __wrap__ZdaPvSt11align_val_tRKSt9nothrow_t(void *p, size_t, const std::nothrow_t &) { core_free(MODULE_ID, K_ANEWARR, p); }
}
