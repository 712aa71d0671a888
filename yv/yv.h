// Harness API shared by the verifier (yv) and the native replay build.
#ifndef YV_H
#define YV_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
int yv_symbolic(void);                                     // 1 under yv, 0 natively.
int64_t yv_i64(const char* name, int64_t lo, int64_t hi);  // any integer in [lo, hi].
int yv_pick(const char* name, int n);                      // any of 0..n-1, by case split.
double yv_f64(const char* name);                           // any real.
void yv_assume(int c);
void yv_assert(int c, const char* label);
void yv_cover(const char* label);                          // must be reachable (anti-vacuity).
int64_t yv_fresh(int64_t lo, int64_t hi);                  // havoc, inside contracts only.
double yv_fresh_f64(void);
void yv_contract(void* real, void* contract);              // calls of real -> contract.
void yv_contract_named(const char* name, void* contract);  // same, for an internal function "ns::f" of the same type (none found: no contract).
void yv_loop(const char* fn, int mode, int id);            // 0 unroll, 1 arbitrary iteration, 2 witness iteration.
void yv_witness(int id, int64_t v);
int64_t yv_iter(int id);                                   // iteration number chosen by the loop rule.
void yv_ghost(void* obj);                                  // object excluded from the loop frame.
int64_t yv_concretize(int64_t v);
void* yv_symbuf(const char* name, int64_t size);           // FP buffer of symbolic size, arbitrary content.
int64_t yv_ptr_off(const void* p);                         // byte offset in its object (symbolic mode only).
int64_t yv_ptr_obj(const void* p);
int yv_same(double a, double b);                           // equal as reals.
void yv_msg(const char* s, int64_t v);
extern int yv_omp_threads;
#ifdef __cplusplus
}
#endif
#endif
