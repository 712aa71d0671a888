#include "omp_team.h"
// Order in which a schedule(dynamic) loop hands out its iterations (native runs).
int yv_order = 0;
extern "C" {
yv_team yv_tm = {0, 1, 0, 1};
int yv_levels = 2;
int yv_only[4] = {-1, -1, -1, -1};   // run only this thread of the team at this level.
void (*yv_chunk_hook)(int64_t, int64_t) = 0;
typedef void (*mt)(int*, int*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*);
// clang
void __kmpc_fork_call(void* loc, int argc, void* fn, void* a0, void* a1, void* a2, void* a3, void* a4, void* a5, void* a6, void* a7, void* a8, void* a9, void* a10, void* a11, void* a12, void* a13, void* a14, void* a15, void* a16, void* a17, void* a18, void* a19, void* a20, void* a21, void* a22, void* a23) {
    yv_team save = yv_tm; int n = save.setn;
    for (int t = 0; t < n; t++) {
        if (yv_only[save.level & 3] >= 0 && yv_only[save.level & 3] != t) continue;
        yv_tm.tid = t; yv_tm.n = n; yv_tm.level = save.level + 1; yv_tm.setn = save.setn;
        int g = t, b = t;
        ((mt)fn)(&g, &b, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23);
    }
    yv_tm = save;
}
int __kmpc_global_thread_num(void*) { return yv_tm.tid; }
void __kmpc_push_num_threads(void*, int, int n) { yv_tm.setn = n; }
void __kmpc_for_static_init_8(void*, int, int, int* last, int64_t* lo, int64_t* hi, int64_t* st, int64_t incr, int64_t) {
    int64_t n = *hi - *lo + 1, T = yv_tm.n, t = yv_tm.tid, l0 = *lo;
    if (T > 1) {
        int64_t q = n / T, r = n - q * T;
        int64_t b = t * q + (t < r ? t : r), c = q + (t < r ? 1 : 0);
        *lo = l0 + b; *hi = l0 + b + c - 1;
    }
    *last = 0; *st = n;
    if (yv_chunk_hook) yv_chunk_hook(*lo, *hi);
}
void __kmpc_for_static_init_8u(void* a, int b, int c, int* d, int64_t* lo, int64_t* hi, int64_t* st, int64_t incr, int64_t ch) { __kmpc_for_static_init_8(a, b, c, d, lo, hi, st, incr, ch); }
void __kmpc_for_static_fini(void*, int) {}
void __kmpc_barrier(void*, int) {}
void __kmpc_serialized_parallel(void*, int) {}
void __kmpc_end_serialized_parallel(void*, int) {}
// gcc (static schedules are inlined by the compiler)
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) {
    yv_team save = yv_tm; int n = nt ? (int)nt : save.setn;
    for (int t = 0; t < n; t++) {
        if (yv_only[save.level & 3] >= 0 && yv_only[save.level & 3] != t) continue;
        yv_tm.tid = t; yv_tm.n = n; yv_tm.level = save.level + 1; yv_tm.setn = save.setn;
        fn(data);
    }
    yv_tm = save;
}
void GOMP_barrier() {}
void __kmpc_critical(void*, int, void*) {}
void __kmpc_end_critical(void*, int, void*) {}
void GOMP_critical_start() {}
void GOMP_critical_end() {}
int omp_get_level(void) { return yv_tm.level; }
int omp_in_parallel(void) { return yv_tm.level > 0; }
int omp_get_num_procs(void) { return 8; }
int omp_get_thread_num(void) { return yv_tm.tid; }
int omp_get_num_threads(void) { return yv_tm.n; }
int omp_get_max_threads(void) { return yv_tm.setn; }
int omp_get_max_active_levels(void) { return yv_levels; }
void omp_set_num_threads(int n) { yv_tm.setn = n; }
}
// schedule(dynamic): the iterations are dealt one chunk at a time; with the
// team run in turn, the first thread to ask takes them all.
extern "C" {
static int64_t dyn_lo[4], dyn_hi[4], dyn_left[4], dyn_base[4];
void __kmpc_dispatch_init_8(void*, int, int, int64_t lo, int64_t hi, int64_t st, int64_t ch) { if (yv_tm.tid == 0) { int l = yv_tm.level & 3; dyn_lo[l] = lo; dyn_hi[l] = hi; dyn_left[l] = st ? st : 1; } }
int __kmpc_dispatch_next_8(void*, int, int* last, int64_t* lo, int64_t* hi, int64_t* st) { int l = yv_tm.level & 3; if (dyn_lo[l] > dyn_hi[l]) return 0; *lo = *hi = dyn_lo[l]; *st = dyn_left[l]; *last = dyn_lo[l] == dyn_hi[l]; dyn_lo[l] += dyn_left[l]; return 1; }
void __kmpc_dispatch_init_8u(void* a, int b, int c, int64_t lo, int64_t hi, int64_t st, int64_t ch) { __kmpc_dispatch_init_8(a, b, c, lo, hi, st, ch); }
int __kmpc_dispatch_next_8u(void* a, int b, int* last, int64_t* lo, int64_t* hi, int64_t* st) { return __kmpc_dispatch_next_8(a, b, last, lo, hi, st); }
void __kmpc_dispatch_init_4(void* a, int b, int c, int lo, int hi, int st, int ch) { __kmpc_dispatch_init_8(a, b, c, lo, hi, st, ch); }
int __kmpc_dispatch_next_4(void* a, int b, int* last, int* lo, int* hi, int* st) { int64_t l, h, s; if (!__kmpc_dispatch_next_8(a, b, last, &l, &h, &s)) return 0; *lo = (int)l; *hi = (int)h; *st = (int)s; return 1; }
}
extern "C" {
void omp_set_max_active_levels(int n) { yv_levels = n; }
void omp_set_nested(int) {}
int omp_get_default_device(void) { return 0; }
int omp_get_initial_device(void) { return 0; }
double omp_get_wtime(void) { return 0.0; }
int __kmpc_single(void*, int) { return yv_tm.tid == 0; }
void __kmpc_end_single(void*, int) {}
bool GOMP_single_start() { return yv_tm.tid == 0; }
static bool dyn_next_g(int64_t* lo, int64_t* hi) {
    int l = yv_tm.level & 3; if (dyn_lo[l] >= dyn_hi[l]) return false;
    int64_t i = dyn_lo[l], n = dyn_hi[l] - dyn_base[l], k = i - dyn_base[l];
    if (yv_order == 1) k = n - 1 - k; // last iteration first
    if (yv_order == 2) k = 2 * k < n ? 2 * k : 2 * (k - (n + 1) / 2) + 1; // even ones first
    *lo = dyn_base[l] + k; *hi = *lo + 1; dyn_lo[l]++; return true;
}
bool GOMP_loop_nonmonotonic_dynamic_next(long* lo, long* hi) { return dyn_next_g((int64_t*)lo, (int64_t*)hi); }
bool GOMP_loop_nonmonotonic_dynamic_start(long a, long b, long, long, long* lo, long* hi) { if (yv_tm.tid == 0) { dyn_lo[yv_tm.level & 3] = dyn_base[yv_tm.level & 3] = a; dyn_hi[yv_tm.level & 3] = b; } return dyn_next_g((int64_t*)lo, (int64_t*)hi); }
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void*), void* data, unsigned nt, long a, long b, long, long, unsigned) { int l = (yv_tm.level + 1) & 3; dyn_lo[l] = dyn_base[l] = a; dyn_hi[l] = b; GOMP_parallel(fn, data, nt, 0); }
void GOMP_loop_end() {}
void GOMP_loop_end_nowait() {}
}
