// Contracts of yask_for / yask_parallel_for (common_utils.hpp), compiled with -fopenmp against omp_team.
#include "yv.h"
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <algorithm>
#include <climits>
#include <cassert>
#include <time.h>
#include <omp.h>
#include "yask_common_api.hpp"
#include "yask_assert.hpp"
#include "common_utils.hpp"
#include "omp_team.h"
using namespace yask;
namespace yask { int yask_num_threads[yask_max_levels] = {0, 0}; }
#define M31 ((int64_t)1 << 31)
struct Rec { idx_t p, begin, end, stride, wit, outer; idx_t hits, maxthr, nested; int thr[2], own; idx_t hiter, hthr, hthr2; };
static Rec R;
static void visit(idx_t s, idx_t e, idx_t t) {
    yv_assert((s >= R.begin) & (e <= R.end) & (s < e), "visited range is a non-empty part of [begin, end)");
    yv_assert(e - s <= R.stride, "visited range not longer than the stride");
    yv_assert((e == R.end) | (e - s == R.stride), "visited range is a full stride unless it ends at end");
    yv_assert((t >= 0) & (t < R.maxthr), "thread number below the number of threads");
    idx_t hit = (R.p >= s) & (R.p < e), it = R.nested && yv_tm.level < 2 ? -1 : yv_iter(1), a = R.hiter, b = R.hthr, c = R.hthr2, d = yv_tm.tid;
    R.hits += hit; R.hiter = hit ? it : a; R.hthr = hit ? t : b; R.hthr2 = hit ? d : c; // no fork
}
static void reset() { R.hits = 0; R.hiter = R.hthr = R.hthr2 = -1; yv_tm.tid = 0; yv_tm.n = 1; yv_tm.level = 0; yv_tm.setn = 1; }
static void inputs() { idx_t b0 = -M31;
    R.begin = yv_i64("begin", b0, M31); R.end = yv_i64("end", b0, M31); R.p = yv_i64("p", b0, M31);
    R.maxthr = 1; R.nested = 0; R.thr[0] = R.thr[1] = 0; R.own = -1;
    yv_ghost(&R); yv_ghost(&yv_tm);
}
static void chunk(int64_t lo, int64_t hi) { // choose the iteration that handles p, if it is in this chunk.
    idx_t w = R.wit;
    if (yv_tm.level == 2) w -= R.outer;
    if ((w >= lo) & (w <= hi)) yv_witness(1, w - lo); else yv_witness(1, 0);
}
template <typename F> static void cover_exactly_once(F call, const char* fn) {
    bool in = (R.p >= R.begin) & (R.p < R.end);
    if (!yv_symbolic()) {
        reset(); call();
        yv_assert(R.hits == (in ? 1 : 0), "each index of [begin, end) is visited exactly once and no other index");
        return;
    }
    yv_chunk_hook = 0;
    yv_loop(fn, 1, 1);
    // any one thread of each level (then any other one): the threads of a team only differ in their number.
    yv_only[0] = R.thr[0] > 1 ? yv_pick("t0", R.thr[0]) : -1; yv_only[1] = R.thr[1] > 1 ? yv_pick("t1", R.thr[1]) : -1;
    reset(); call();
    yv_assert(R.hits <= 1, "no index is visited by two threads");
    if (R.hits) { yv_assert(in, "only indices of [begin, end) are visited"); yv_cover("an index is visited");
        yv_only[0] = R.thr[0] > 1 ? yv_pick("t0b", R.thr[0]) : -1; yv_only[1] = R.thr[1] > 1 ? yv_pick("t1b", R.thr[1]) : -1;
        idx_t k1 = R.hiter, t1 = R.hthr, u1 = R.hthr2;
        reset(); call();
        if (R.hits) { yv_assert(t1 == R.hthr, "no index is visited by two threads"); yv_assert(u1 == R.hthr2, "no index is visited by two threads"); yv_assert(k1 == R.hiter, "no index is visited in two iterations"); }
    }
    if (in) {
        yv_loop(fn, 2, 1); yv_witness(1, R.wit); yv_chunk_hook = chunk;
        yv_only[0] = R.own; yv_only[1] = -1;
        reset(); call();
        yv_assert(R.hits >= 1, "every index of [begin, end) is visited");
    }
}

static idx_t stride(int k) { static const idx_t S[3] = {1, 3, 16384}; return k < 0 ? yv_i64("stride", 1, 1 << 16) : S[k]; }
extern "C" void h_yask_for() {
    inputs(); R.stride = stride(-1);
    if (!yv_symbolic()) yv_assume(R.end - R.begin <= 3000);
    R.wit = R.p >= R.begin ? (R.p - R.begin) / R.stride : 0;
    cover_exactly_once([&]() { yask_for(R.begin, R.end, R.stride, visit); }, "yask::yask_for");
}
static void par(int n0, int n1, int levels, int k) {
    inputs(); R.stride = stride(k);
    if (!yv_symbolic()) yv_assume(R.end - R.begin <= 3000);
    yask_num_threads[0] = n0; yask_num_threads[1] = n1; yv_levels = levels;
    R.maxthr = (levels > 1 && n0 > 0 && n1 > 1) ? n0 * n1 : n0 > 0 ? n0 : 1;
    yv_assert(n0 <= 0 || yask_get_num_threads() == R.maxthr, "number of threads reported is the product of the levels in use");
    R.wit = R.p >= R.begin ? (R.p - R.begin) / R.stride : 0;
    if (levels > 1 && n0 > 0 && n1 > 1 && R.p >= R.begin && R.p < R.end && n0 < (R.end - R.begin + R.stride - 1) / R.stride) { // iterations given to the outer threads before the one that owns p.
        idx_t ni = (R.end - R.begin + R.stride - 1) / R.stride; R.outer = 0;
        for (int t = 0; t < n0; t++) { idx_t c = div_equally_cumu_size_n(ni, (idx_t)n0, (idx_t)t); if (R.wit >= c) R.outer = c; else { R.own = t; break; } }
    }
    R.thr[0] = n0; R.thr[1] = levels > 1 ? n1 : 0;
    R.nested = levels > 1 && n0 > 0 && n1 > 1 && n0 < (R.end - R.begin + R.stride - 1) / R.stride;
    cover_exactly_once([&]() { yask_parallel_for(R.begin, R.end, R.stride, visit); }, "yask_parallel_for");
}
extern "C" void h_par_for_flat() { // every team size 0 (default) .. 3, with and without an unusable nested setting.
    int c = yv_pick("cfg", 6), k = yv_pick("k", 3);
    static const int N[6][3] = {{0, 0, 1}, {1, 1, 2}, {2, 0, 2}, {3, 2, 1}, {0, 2, 2}, {2, 1, 2}};
    par(N[c][0], N[c][1], N[c][2], k);
}
extern "C" void h_par_for_flat_anystride() { par(2, 0, 1, -1); }

extern "C" void h_par_for_nested_22() { par(2, 2, 2, yv_pick("k", 2)); }
extern "C" void h_par_for_nested_32() { par(3, 2, 2, 0); }
extern "C" void h_par_for_nested_13() { par(1, 3, 2, yv_pick("k", 2)); }
