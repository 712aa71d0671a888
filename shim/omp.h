/* Sequential stand-in for <omp.h>: the harnesses are compiled with
   _OPENMP defined but without -fopenmp, so '#pragma omp' is ignored and every
   parallel region is run by one thread, in program order.  The team size that
   the code under test *asks for* is still honoured by the omp_* queries below. */
#ifndef YV_SHIM_OMP_H
#define YV_SHIM_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { int dummy; } omp_lock_t;
extern int yv_omp_threads;      /* value reported by omp_get_max_threads(). */
static inline int omp_get_thread_num(void) { return 0; }
static inline int omp_get_num_threads(void) { return 1; }
static inline int omp_get_max_threads(void) { return yv_omp_threads; }
static inline int omp_get_num_procs(void) { return 8; }
static inline int omp_get_level(void) { return 0; }
static inline int omp_in_parallel(void) { return 0; }
static inline int omp_get_max_active_levels(void) { return 2; }
static inline void omp_set_max_active_levels(int n) { (void)n; }
static inline void omp_set_nested(int n) { (void)n; }
static inline void omp_set_dynamic(int n) { (void)n; }
static inline void omp_set_num_threads(int n) { if (n > 0) yv_omp_threads = n; }
static inline int omp_get_num_devices(void) { return 0; }
static inline int omp_get_default_device(void) { return 0; }
static inline int omp_get_initial_device(void) { return 0; }
static inline int omp_is_initial_device(void) { return 1; }
static inline void omp_init_lock(omp_lock_t* l) { l->dummy = 0; }
static inline void omp_destroy_lock(omp_lock_t* l) { (void)l; }
static inline void omp_set_lock(omp_lock_t* l) { l->dummy = 1; }
static inline void omp_unset_lock(omp_lock_t* l) { l->dummy = 0; }
static inline int omp_test_lock(omp_lock_t* l) { l->dummy = 1; return 1; }
static inline double omp_get_wtime(void) { return 0.0; }
#ifdef __cplusplus
}
#endif
#endif
