// Native replay: the vx_* interface reading a counterexample, processes as fork, threads as ucontext.
#include "vx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <new>
struct Shm { size_t used; int pos; int code; int mism; };
static Shm* shm; static char* arena; static const size_t ARENA = 1ull << 30;
struct In { int kind; char name[64]; int n, w; uint64_t* v; };
static In* ins; static int nin; struct Par { char name[64]; long v; }; static Par pars[64]; static int npar; static int quiet;
static long live; static int procdepth;
static void load(const char* path) {
    FILE* f = fopen(path, "r"); if (!f) { perror(path); exit(9); } char* line = nullptr; size_t cap = 0; ins = (In*)calloc(1 << 16, sizeof(In));
    while (getline(&line, &cap, f) > 0) {
        if (!strncmp(line, "param ", 6)) { sscanf(line, "param %63s %ld", pars[npar].name, &pars[npar].v); npar++; }
        else if (!strncmp(line, "in ", 3) && nin < (1 << 16)) { In* i = &ins[nin]; char* save; strtok_r(line, " \n", &save); i->kind = atoi(strtok_r(nullptr, " \n", &save)); char* nm = strtok_r(nullptr, " \n", &save); snprintf(i->name, 64, "%s", nm); i->n = atoi(strtok_r(nullptr, " \n", &save)); i->w = atoi(strtok_r(nullptr, " \n", &save)); i->v = (uint64_t*)calloc(i->n + 1, 8); for (int k = 0; k < i->n; k++) { char* t = strtok_r(nullptr, " \n", &save); i->v[k] = t ? strtoull(t, nullptr, 0) : 0; } nin++; }
    }
    free(line); fclose(f);
}
static In* next(int kind, const char* name, int n) {
    if (shm->pos >= nin) return nullptr; In* i = &ins[shm->pos++];
    char nm[64]; int k = 0; for (; name[k] && k < 63; k++) nm[k] = name[k] == ' ' ? '_' : name[k]; nm[k] = 0;
    if (i->kind != kind || strcmp(i->name, nm) || (kind == 0 && i->n != n)) { if (!shm->mism++) fprintf(stderr, "VX-DIVERGED: asked for %s (%d), counterexample has %s (%d)\n", nm, n, i->name, i->n); return nullptr; }
    return i;
}
extern "C" {
void vx_sym(void* p, size_t n, const char* name) { In* i = next(0, name, (int)n); for (size_t k = 0; k < n; k++) ((uint8_t*)p)[k] = i ? (uint8_t)i->v[k] : 0; if (!quiet) { printf("  %s =", name); for (size_t k = 0; k < n && k < 64; k++) printf(" %02x", ((uint8_t*)p)[k]); printf("\n"); } }
uint64_t vx_range(uint64_t lo, uint64_t hi, const char* name) { if (lo == hi) return lo; In* i = next(1, name, 1); uint64_t v = lo + (i ? i->v[0] : 0); if (v > hi || v < lo) v = lo; if (!quiet) printf("  %s = %llu\n", name, (unsigned long long)v); return v; }
uint64_t vx_concretize(uint64_t v) { return v; }
int vx_is_sym(uint64_t) { return 0; }
static void endall(int code) { fflush(stdout); fflush(stderr); _exit(code); }
void vx_assume(int c) { if (!c) { fprintf(stderr, "VX-ASSUME-FAILED\n"); endall(0); } }
void vx_fail(const char* m) { printf("VX-VIOLATION check:%s\n", m); endall(3); }
void vx_check(int c, const char* m) { if (!c) vx_fail(m); }
void vx_reach(const char* l) { if (!quiet) printf("  reached: %s\n", l); }
void vx_note(const char* m) { printf("  note: %s\n", m); }
void vx_note_int(const char* m, int64_t v) { printf("  note: %s=%lld\n", m, (long long)v); }
void vx_trace(const char* m, int64_t v) { if (getenv("VX_TRACE")) printf("  trace: %s %lld\n", m, (long long)v); }
int64_t vx_param(const char* n, int64_t d) { for (int i = 0; i < npar; i++) if (!strcmp(pars[i].name, n)) return pars[i].v; return d; }
void* vx_shared_alloc(size_t n) { n = (n + 63) & ~63ull; if (shm->used + n > ARENA) { fprintf(stderr, "VX-ARENA-FULL\n"); endall(9); } void* p = arena + shm->used; shm->used += n; return p; }
uint64_t vx_live(void) { return (uint64_t)live; }
void vx_stop(void) { if (procdepth) endall(77); endall(0); __builtin_unreachable(); }
void vx_kill(void) { fprintf(stderr, "VX-KILLED\n"); endall(0); __builtin_unreachable(); }
void vx_steps_reset(void) { alarm(20); }
int vx_engine(void) { return 0; }
void vx_unsupported(const char* m) { fprintf(stderr, "VX-UNSUPPORTED %s\n", m); endall(0); }
static void wait_child(int pid) { int st; while (waitpid(pid, &st, 0) < 0) {} if (WIFSIGNALED(st)) { fprintf(stderr, "VX-CHILD-SIGNAL %d\n", WTERMSIG(st)); endall(4); } int c = WEXITSTATUS(st); if (c == 77) { if (procdepth) endall(77); endall(0); } if (c) endall(c); }
int vx_proc_run(void (*fn)(void*), void* arg) { fflush(stdout); fflush(stderr); shm->code = 0; int pid = fork(); if (pid == 0) { procdepth++; alarm(20); fn(arg); shm->code = 0; endall(0); } wait_child(pid); return shm->code; }
static int pipes[64][2]; static int pids[64]; static int npipes;
int vx_fork(int mode) {
    fflush(stdout); fflush(stderr);
    if (mode == 0) { int pid = fork(); if (pid == 0) { procdepth++; alarm(20); return 0; } wait_child(pid); return pid; }
    int k = npipes++; if (pipe(pipes[k])) endall(9); int pid = fork(); if (pid == 0) { close(pipes[k][1]); procdepth++; char c; if (read(pipes[k][0], &c, 1) != 1) _exit(0); alarm(20); return 0; }
    close(pipes[k][0]); pids[k] = pid; return pid;
}
int vx_proc_resume(int pid) { fflush(stdout); for (int k = 0; k < npipes; k++) if (pids[k] == pid) { if (write(pipes[k][1], "x", 1) != 1) endall(9); close(pipes[k][1]); wait_child(pid); pids[k] = 0; return 0; } return -1; }
void vx_proc_exit(int code) { shm->code = code; endall(0); __builtin_unreachable(); }
static ucontext_t ctx[8]; static int nctx = 1, cur; struct TArg { void (*fn)(void*); void* arg; }; static TArg targ[8];
static void tmain(int i) { targ[i].fn(targ[i].arg); fprintf(stderr, "VX-THREAD-RETURNED\n"); endall(9); }
int vx_thread_create(void (*fn)(void*), void* arg) { int i = nctx++; getcontext(&ctx[i]); ctx[i].uc_stack.ss_sp = mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ctx[i].uc_stack.ss_size = 1 << 20; ctx[i].uc_link = nullptr; targ[i] = {fn, arg}; makecontext(&ctx[i], (void (*)())tmain, 1, i); return i; }
void vx_thread_switch(int t) { if (t == cur) return; int o = cur; cur = t; swapcontext(&ctx[o], &ctx[t]); }
int vx_thread_self(void) { return cur; }
void* vx_malloc(size_t n) { void* p = malloc(n); if (p) live++; return p; }
void* vx_calloc(size_t a, size_t b) { void* p = calloc(a, b); if (p) live++; return p; }
void* vx_realloc(void* p, size_t n) { if (!p) live++; return realloc(p, n); }
void vx_free(void* p) { if (p) live--; free(p); }
}
void* operator new(size_t n) { live++; return malloc(n); }
void* operator new[](size_t n) { live++; return malloc(n); }
void operator delete(void* p) noexcept { if (p) live--; free(p); }
void operator delete[](void* p) noexcept { if (p) live--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) live--; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) live--; free(p); }
static void onalrm(int) { static const char m[] = "VX-HANG no progress for 20 s\n"; if (write(2, m, sizeof m - 1)) {} _exit(5); }
extern "C" int main(int argc, char** argv) {
    if (argc < 2) return 9; quiet = argc > 2; 
    arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); shm = (Shm*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    load(argv[1]); live = 0; signal(SIGALRM, onalrm); alarm(20); vx_main(); printf("VX-COMPLETED\n"); fflush(stdout); _exit(0);
}
