// Harness API.  Symbolic runs: intrinsics of the executor (engine/builtins.cpp).  Native runs: vf_native.cpp, values read from a recorded path.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void vf_symbolic(void* p, unsigned long n, const char* name);
unsigned long vf_range(const char* name, unsigned long lo, unsigned long hi); // any value, stays symbolic
unsigned long vf_pick(const char* name, unsigned long lo, unsigned long hi);  // any value, the path splits
void vf_assume(int c);
void vf_assert(int c, const char* msg);
void vf_fail(const char* msg);
void vf_reach(const char* tag);
void vf_observe(const char* name, const void* p, unsigned long n);
long vf_param(const char* name, long def);
void vf_alloc_limit(unsigned long n); // an allocation above n bytes is a violation (0: no limit)
unsigned long vf_heap_live();
int vf_is_symbolic_run();
int vf_eq(const void* p, const void* q, unsigned long n); // equality of two buffers as one formula
unsigned long vf_concrete(unsigned long x);               // split on the value of x
void vf_print(const char* msg, unsigned long v);
void vf_file_add(const char* path, unsigned long plen, const void* data, unsigned long n); // put a file into the (virtual) file system
}
#define VF_STR1(x) #x
#define VF_STR(x) VF_STR1(x)
extern "C" const char* vf_root(); // directory of the (virtual) file system, no trailing slash
