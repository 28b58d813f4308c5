// Interface between harnesses, the modelled world, and the two back ends (the symbolic engine and the native replay).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <sys/types.h>
extern "C" {
// ---- solver interface (engine builtins; in the native replay they read the counterexample)
void vx_sym(void* p, size_t n, const char* name);                       // n arbitrary bytes
uint64_t vx_range(uint64_t lo, uint64_t hi, const char* name);          // arbitrary value in [lo,hi]
uint64_t vx_concretize(uint64_t v);                                     // one path per feasible value
int vx_is_sym(uint64_t v);
void vx_assume(int c);
void vx_check(int c, const char* msg);
void vx_fail(const char* msg);
void vx_reach(const char* label);
void vx_note(const char* msg);
void vx_note_int(const char* msg, int64_t v);
void vx_trace(const char* msg, int64_t v);
int64_t vx_param(const char* name, int64_t def);
void* vx_shared_alloc(size_t n);                                        // survives the end of a process
uint64_t vx_live(void);                                                 // heap objects allocated by the code under test and not freed
void vx_stop(void) __attribute__((noreturn));                           // path complete
void vx_kill(void) __attribute__((noreturn));                           // path outside the stated bounds
void vx_steps_reset(void);
int vx_engine(void);
void vx_unsupported(const char* msg);
int vx_proc_run(void (*fn)(void*), void* arg);
int vx_fork(int mode);
int vx_proc_resume(int pid);
void vx_proc_exit(int code) __attribute__((noreturn));
int vx_thread_create(void (*fn)(void*), void* arg);
void vx_thread_switch(int tid);
int vx_thread_self(void);
void* vx_malloc(size_t n); void* vx_calloc(size_t a, size_t b); void* vx_realloc(void* p, size_t n); void vx_free(void* p);
void vx_main(void);
}
static inline uint32_t vx_choose(uint32_t n, const char* name) { return n <= 1 ? 0 : (uint32_t)vx_concretize(vx_range(0, n - 1, name)); } // arbitrary value in [0,n), one path per value
#define VX_CHECK(c) vx_check(!!(c), #c)
