// C09: ranks that exchange halos compute what one rank computes (bounded).
#include "kctx.hpp"
#define DEFINE_SOLUTION
#include "yask_stencil_code.hpp"
#include "e2e/ref.hpp"
#include "omp_team.h"
#include "e2e_cfg.hpp"
#include "fmpi.h"
#include <vector>
#include <cmath>
extern int yv_order;
#include "e2e/common.hpp"
static std::vector<std::vector<idx_t>> layouts(int R, int nd) {
    std::vector<std::vector<idx_t>> r, a{{}};
    for (int j = 0; j < nd; j++) { auto b = a; a.clear(); for (auto& v : b) { idx_t p = 1; for (auto x : v) p *= x; for (idx_t x = 1; p * x <= R; x++) { auto w = v; w.push_back(x); a.push_back(w); } } }
    for (auto& v : a) { idx_t p = 1; for (auto x : v) p *= x; if (p == R) r.push_back(v); }
    return r;
}
extern "C" void ENTRY() {
    static RefInfo* ip; if (!ip) ip = &ref_info(REF_NAME);
    RefInfo& I = *ip;
    auto dm = YASK_STENCIL_SOLUTION::new_dims();
    std::vector<std::string> D; std::vector<idx_t> F;
    for (auto& d : dm->_domain_dims) { D.push_back(d._get_name()); F.push_back(dm->_fold_pts[d._get_name()]); }
    int nd = (int)D.size();
    static const int RS[] = {1, 2, 2, 3, 4, 4, 6, 8};
    int R = RS[yv_pick("ranks", 8)], node = 1 + yv_pick("ranks_per_node", R);
    auto L = layouts(R, nd); auto grid = L[yv_pick("grid", (int)L.size())];
    int mode = yv_pick("sizes", 4); // 0, 1: local sizes; 2: global sizes; 3: global sizes, layout chosen by the kernel.
    std::vector<IV> sz(nd), off(nd); IV glob(nd);
    for (int j = 0; j < nd; j++) {
        idx_t lo = MINSIZE + (yv_pick("roomy", 2) ? 4 : 0);
        if (mode <= 1) { for (int i = 0; i < grid[j]; i++) sz[j].push_back(mode == 0 || yv_pick("ragged", 2) ? yv_i64("local", lo, lo + 7) : sz[j].size() ? sz[j][0] : lo); for (auto x : sz[j]) { off[j].push_back(glob[j]); glob[j] += x; } }
        else glob[j] = yv_i64("global", lo * grid[j], lo * grid[j] + 12);
    }
    std::string o;
    auto opt = [&](const std::string& k, idx_t v) { o += " -" + k + " " + std::to_string(v); };
    for (int j = 0; j < nd; j++) {
        if (mode != 3) opt("nr" + D[j], grid[j]);
        if (mode >= 2) opt("g" + D[j], glob[j]);
        if (yv_pick("mega", 3) == 0) opt("Mb" + D[j], yv_i64("Mb", 1, 20));
        if (yv_pick("block", 3) == 0) opt("b" + D[j], yv_i64("b", 1, 12));
        if (yv_pick("micro", 4) == 0) opt("mb" + D[j], yv_i64("mb", 1, 12));
        if (yv_pick("pad", 4) == 0) opt("ep" + D[j], yv_i64("ep", 0, 3));
        if (yv_pick("ext", 4) == 0) opt("min_exterior", yv_i64("min_ext", 0, 6));
    }
    switch (WF ? yv_pick("temporal", 5) : 0) {
    case 1: opt("Mb" + I.step, yv_i64("wf", 1, 3)); break;
    case 2: opt("b" + I.step, yv_i64("tb", 1, 3)); break;
    case 3: opt("b" + I.step, yv_i64("tb", 1, 2)); opt("Mb" + I.step, yv_i64("wf", 1, 3)); break;
    }
    idx_t nt = yv_i64("threads", 1, 2); opt("max_threads", nt);
    o += yv_pick("overlap", 3) ? " -overlap_comms" : " -no-overlap_comms";
    o += yv_pick("shm", 2) ? " -use_shm" : " -no-use_shm";
    if (yv_pick("scalar", 6) == 0) o += " -force_scalar";
    if (yv_pick("scalar_exchange", 3) == 0) o += " -force_scalar_exchange";
    yv_order = yv_pick("order", 3);
    idx_t t0 = yv_i64("first_step", -5, 5), steps = yv_i64("steps", 1, STEPS), split = yv_i64("split", 1, STEPS); unsigned seed = yv_pick("values", 1000);
    int place = yv_pick("own_indices", 3) ? 0 : 1, delay = yv_pick("delay", 4), rewrite = yv_pick("rewrite", 3), sched = yv_pick("schedule", 1000);
    if (getenv("YV_SHOW")) fprintf(stderr, "ranks %d node %d opts%s t0 %ld steps %ld split %ld\n", R, node, o.c_str(), t0, steps, split);
    const double JUNK = 1e30;
    auto res = fmpi_run(R, node, sched, delay, [&](int me) {
        Ctx c(YASK_STENCIL_SOLUTION::new_dims());
        c.env->init_env(nullptr, nullptr, MPI_COMM_NULL); c.env->max_threads = (int)nt;
        c.req = std::make_shared<KernelSettings>(c.dims, c.env); c.actl = std::make_shared<KernelSettings>(c.dims, c.env);
        auto sp = std::make_shared<YASK_STENCIL_SOLUTION>(c.env, c.actl, c.req);
        std::string q = o; IV at(nd); int r = me;
        if (mode <= 1 || (mode == 2 && place)) {
            if (place) r = (me * 5 + 3) % R == me ? me : (R % 5 ? (me * 5 + 3) % R : R - 1 - me);
            for (int j = 0; j < nd; j++) { at[j] = r % grid[j]; r /= grid[j]; q += " -ri" + D[j] + " " + std::to_string(at[j]); if (mode <= 1) q += " -l" + D[j] + " " + std::to_string(sz[j][at[j]]); }
        }
        if (sp->apply_command_line_options(q) != "") fmpi_fail("an option is not accepted");
        sp->reset_auto_tuner(false, false); c.actl->_do_auto_tune = c.req->_do_auto_tune = false;
        // A domain that is too small for its halos or tiles is refused.
        std::string why;
        try { sp->prepare_solution(); } catch (std::exception& e) { why = e.what(); }
        if (why.size()) {
            if (getenv("YV_SHOW")) fprintf(stderr, "refused: %s\n", why.c_str());
            fmpi_fail(why.find("less than minimum size") == std::string::npos && why.find("not large enough") == std::string::npos ? "refused: " + why : "(small)");
        }
        IV gs;
        for (auto& d : I.domain) gs.push_back(sp->get_overall_domain_size(d));
        for (int j = 0; j < nd; j++) {
            if (sp->get_overall_domain_size(D[j]) != glob[j]) fmpi_fail("the overall size is not the sum of the sizes of the ranks");
            idx_t f = sp->get_first_rank_domain_index(D[j]), l = sp->get_last_rank_domain_index(D[j]), z = sp->get_rank_domain_size(D[j]);
            if (l - f + 1 != z) fmpi_fail("first and last index of the rank differ from its size");
            if (mode <= 1 && (f != off[j][at[j]] || z != sz[j][at[j]])) fmpi_fail("the domain of the rank starts where the previous ranks end");
        }
        // The domains of the ranks tile the whole domain.
        int64_t pts = 1, all = 1; for (int j = 0; j < nd; j++) { pts *= sp->get_rank_domain_size(D[j]); all *= glob[j]; }
        if (c.env->sum_over_ranks(pts) != all) fmpi_fail("the domains of the ranks do not add up to the whole domain");
        std::vector<KV> vs;
        for (size_t k = 0; k < I.vars.size(); k++) {
            auto& v = I.vars[k]; if (v.scratch) continue;
            KV w; w.id = (int)k; w.sp = -1; bool have = false;
            for (auto& x : sp->get_vars()) if (x->get_name() == v.name) { w.v = x; have = true; }
            if (!have) continue;
            for (size_t d = 0; d < v.dims.size(); d++) {
                auto& n = v.dims[d];
                if (v.kind[d] == 0) { w.sp = (int)d; v.alloc = (int)w.v->get_alloc_size(n); w.lo.push_back(0); w.hi.push_back(0); w.first.push_back(0); w.last.push_back(0); }
                else if (v.kind[d] == 1) { w.lo.push_back(w.v->get_first_local_index(n)); w.hi.push_back(w.v->get_last_local_index(n)); w.first.push_back(w.v->get_first_rank_domain_index(n)); w.last.push_back(w.v->get_last_rank_domain_index(n)); }
                else { w.lo.push_back(w.v->get_first_misc_index(n)); w.hi.push_back(w.v->get_last_misc_index(n)); w.first.push_back(w.lo.back()); w.last.push_back(w.hi.back()); }
            }
            vs.push_back(w);
        }
        auto inside = [&](const KV& w, const IV& i, bool mine) { // of the whole domain or of this rank's.
            auto& v = I.vars[w.id];
            for (size_t d = 0; d < i.size(); d++) if (v.kind[d] == 1) { if (mine ? i[d] < w.first[d] || i[d] > w.last[d] : i[d] < 0 || i[d] >= sp->get_overall_domain_size(v.dims[d])) return false; }
            return true;
        };
        ref_run(gs.data(), t0, seed);
        for (auto& w : vs) {
            auto& v = I.vars[w.id]; idx_t A = w.sp >= 0 ? v.alloc : 1;
            for (idx_t s = 0; s < A; s++) {
                IV lo = w.lo, hi = w.hi; if (w.sp >= 0) lo[w.sp] = hi[w.sp] = t0 - I.dir * (A - 1 - s);
                // What other ranks own is left for the exchange to fill in.
                visit(lo, hi, [&](const IV& i) { w.v->set_element(inside(w, i, true) || !inside(w, i, false) ? ref_init(w.id, i.data()) : JUNK, i); });
            }
        }
        idx_t last = t0 + I.dir * (steps - 1);
        if (split < steps) {
            idx_t m = t0 + I.dir * (split - 1);
            sp->run_solution(t0, m);
            if (rewrite) for (auto& w : vs) { // write some elements again, in one rank or in all.
                auto& v = I.vars[w.id]; if (!v.output || w.sp < 0 || (rewrite == 1 && (me + w.id) % 2)) continue;
                IV lo = w.first, hi = w.last; lo[w.sp] = hi[w.sp] = m + I.dir; bool any = true; for (size_t d = 0; d < lo.size(); d++) any &= lo[d] <= hi[d];
                visit(lo, hi, [&](const IV& i) { double x = w.v->get_element(i); w.v->set_element(x, i); });
            }
            sp->run_solution(m + I.dir, last);
        } else sp->run_solution(t0, last);
        for (auto& w : vs) {
            auto& v = I.vars[w.id]; idx_t A = w.sp >= 0 ? v.alloc : 1; idx_t end = v.output ? last + I.dir : t0;
            for (idx_t s = 0; s < A; s++) {
                IV lo = w.lo, hi = w.hi; if (w.sp >= 0) lo[w.sp] = hi[w.sp] = end - I.dir * (A - 1 - s);
                visit(lo, hi, [&](const IV& i) {
                    bool mine = inside(w, i, true);
                    if (!mine && inside(w, i, false)) return;
                    double want = mine ? ref_value(w.id, i.data(), last) : ref_init(w.id, i.data()), got = w.v->get_element(i);
                    if (std::isnan(want) && mine) return;
                    if (!same(got, want)) {
                        std::string p; for (auto x : i) p += " " + std::to_string(x);
                        if (getenv("YV_SHOW")) fprintf(stderr, "rank %d %s(%s ) = %.17g, want %.17g\n", me, v.name.c_str(), p.c_str(), got, want);
                        fmpi_fail(mine ? "the values computed by several ranks differ from those of the equations" : "something outside the domain is changed");
                    }
                });
            }
        }
    });
    bool small = res.why.find("(small)") != std::string::npos;
    yv_assume(!small);
    static std::string label; label = res.ok ? "ranks compute what one rank computes" : res.why.substr(res.why.find(": ") == std::string::npos ? 0 : res.why.find(": ") + 2);
    yv_assert(res.ok, label.c_str());
    if (R > 1) yv_cover("ranks");
}
