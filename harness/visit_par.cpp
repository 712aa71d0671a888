// C03: parallel visits of an n-D space, compiled with -fopenmp against the reference run time (exhaustive over small sizes and teams).
#include "yask_stencil.hpp"
#include "tuple.hpp"
#include "yv.h"
#include "omp_team.h"
using namespace yask;
namespace yask { int yask_num_threads[yask_max_levels] = { 0, 0 }; }
static const char* NM[] = { "x", "y", "z" };
extern "C" void h_visit_par() {
    int nt = 1 + yv_pick("threads", 4);
    yv_tm.tid = 0; yv_tm.n = 1; yv_tm.level = 0; yv_tm.setn = nt;
    yask_num_threads[0] = nt;
    yask_num_threads[1] = 0;
    const int N = 2;
    Indices sz(idx_t(1), N);
    idx_t s[3], tot = 1;
    const char* sn[] = { "s0", "s1", "s2" };
    for (int i = 0; i < N; i++) { s[i] = sz[i] = 1 + yv_pick(sn[i], 4); tot *= s[i]; }
    bool fi = yv_pick("first_inner", 2);
    IdxTuple t;
    for (int i = 0; i < N; i++) t.add_dim_back(NM[i], s[i]);
    t.set_first_inner(fi);
    int hits[64] = { 0 }, thits[64] = { 0 };
    bool ok = true, tok = true;
    sz.visit_all_points_in_parallel(fi, [&](const Indices& p, size_t k, int thr) -> bool {
        idx_t w = 0;
        for (int i = 0; i < N; i++) { int d = fi ? N - 1 - i : i; w = w * s[d] + p[d]; ok = ok & (p[d] >= 0) & (p[d] < s[d]); }
        ok = ok & (idx_t(k) == w) & (w >= 0) & (w < tot) & (thr >= 0) & (thr < nt);
        if (ok) hits[w]++;
        return false; // ignored.
    });
    t.visit_all_points_in_parallel([&](const IdxTuple& p, size_t k, int thr) -> bool {
        idx_t w = 0;
        for (int i = 0; i < N; i++) { int d = fi ? N - 1 - i : i; w = w * s[d] + p[d]; tok = tok & (p[d] >= 0) & (p[d] < s[d]); }
        tok = tok & (idx_t(k) == w) & (w >= 0) & (w < tot) & (thr >= 0) & (thr < nt);
        if (tok) thits[w]++;
        return false;
    });
    yv_assert(ok, "parallel visit of Indices passes valid, consistent indices");
    yv_assert(tok, "parallel visit of Tuple passes valid, consistent indices");
    for (idx_t i = 0; i < tot; i++)
        yv_assert((hits[i] == 1) & (thits[i] == 1), "parallel visit reaches each point exactly once");
    yv_cover("visit_par");
}
