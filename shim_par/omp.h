// OpenMP API for units compiled with -fopenmp against harness/omp_team.cpp.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { int a; } omp_lock_t;
int omp_get_thread_num(void);
int omp_get_num_threads(void);
int omp_get_max_active_levels(void);
int omp_get_max_threads(void);
int omp_get_num_procs(void);
int omp_get_level(void);
int omp_in_parallel(void);
void omp_set_num_threads(int);
void omp_set_max_active_levels(int);
void omp_set_nested(int);
static inline void omp_init_lock(omp_lock_t* l) { l->a = 0; }
static inline void omp_destroy_lock(omp_lock_t* l) { (void)l; }
static inline void omp_set_lock(omp_lock_t* l) { l->a = 1; }
static inline void omp_unset_lock(omp_lock_t* l) { l->a = 0; }
int omp_get_default_device(void);
int omp_get_initial_device(void);
double omp_get_wtime(void);
#ifdef __cplusplus
}
#endif
