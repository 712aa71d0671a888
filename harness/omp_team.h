// Reference OpenMP run time for '#pragma omp parallel [for]' code compiled with
// -fopenmp: a region is run by every thread of the team in turn, and the
// iterations of a schedule(static) loop are dealt to the team in contiguous
// chunks, as the OpenMP specification allows.
#pragma once
#include <stdint.h>
extern "C" {
struct yv_team { int tid, n, level, setn; };
extern yv_team yv_tm;
extern int yv_levels;
extern int yv_only[4];
// Called at the start of a work-shared loop with this thread's chunk [lo, hi].
extern void (*yv_chunk_hook)(int64_t lo, int64_t hi);
}
