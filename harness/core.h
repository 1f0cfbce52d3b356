// Shared by the driver and the op modules.  The core lives in the driver executable; modules
// (separately compiled shared objects, one per compiler) reach it through these C functions.
#pragma once
#include <cstddef>
#include <cstdint>

enum { K_MALLOC, K_NEW, K_NEWARR, K_ANEW, K_ANEWARR };           // allocation function families
enum { F_NONE, F_ALLOC, F_ELEM, F_ITER, F_ALLALLOC };            // kinds of injected faults
enum { L_VAL, L_COPY, L_MOVE, L_DTOR, L_CASSIGN, L_MASSIGN, L_VASSIGN, L_READ, L_SELFMOVE }; // life codes
enum { X_NONE, X_LENGTH, X_ALLOC, X_RANGE, X_USER, X_BADOPT, X_BADVAR, X_OTHER };

extern "C" {
void *core_alloc(int mod, int kind, size_t n, size_t align, int zero);
void core_free(int mod, int kind, void *p);
void core_life(int code, const void *self, const void *src);
int core_fault(int kind);      // 1: the caller has to throw
void core_window(int on);      // on: allocations belong to the operation under test
int core_in_window();
}

struct user_fault {};          // thrown by injected faults in element and iterator code
