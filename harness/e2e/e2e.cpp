// C20: a compiled solution computes what its equations say, for any sizes, tilings and values (bounded).
#include "kctx.hpp"
#define DEFINE_SOLUTION
#include "yask_stencil_code.hpp"
#include "e2e/ref.hpp"
#include "omp_team.h"
#include "e2e_cfg.hpp"
#include <vector>
#include <cmath>
extern int yv_order;
#include "e2e/common.hpp"
extern "C" void ENTRY() {
    static RefInfo* ip; if (!ip) ip = &ref_info(REF_NAME);
    RefInfo& I = *ip;
    Ctx c(YASK_STENCIL_SOLUTION::new_dims());
    auto sp = std::make_shared<YASK_STENCIL_SOLUTION>(c.env, c.actl, c.req);
    auto D = sp->get_domain_dim_names(); int nd = (int)D.size();
    std::string o;
    auto opt = [&](const std::string& k, idx_t v) { o += " -" + k + " " + std::to_string(v); };
    int big = yv_pick("long_dim", nd); IV sz(nd);
    std::map<std::string, idx_t> szm;
    for (int j = 0; j < nd; j++) {
        szm[D[j]] = sz[j] = yv_i64("domain", 1, j == big ? BIG : SMALL); opt("l" + D[j], sz[j]);
        if (yv_pick("mega", 2)) opt("Mb" + D[j], yv_i64("Mb", 1, sz[j]));
        if (yv_pick("block", 4)) opt("b" + D[j], yv_i64("b", 1, sz[j]));
        if (yv_pick("micro", 3) == 0) opt("mb" + D[j], yv_i64("mb", 1, sz[j]));
        if (yv_pick("nano", 3) == 0) opt("nb" + D[j], yv_i64("nb", 1, sz[j]));
        if (yv_pick("pico", 3) == 0) opt("pb" + D[j], yv_i64("pb", 1, sz[j]));
        if (yv_pick("pad", 4) == 0) opt("ep" + D[j], yv_i64("ep", 0, 3));
    }
    switch (WF ? yv_pick("temporal", 4) : 0) {
    case 1: opt("Mb" + I.step, yv_i64("wf", 1, 4)); break;
    case 2: opt("b" + I.step, yv_i64("tb", 1, 4)); break;
    case 3: opt("b" + I.step, yv_i64("tb", 1, 3)); opt("Mb" + I.step, yv_i64("wf", 1, 4)); break;
    }
    idx_t nt = yv_i64("threads", 1, 3), in = yv_i64("inner", 1, 2);
    opt("max_threads", nt * in); opt("inner_threads", in); opt("outer_threads", nt);
    if (yv_pick("bind", 3) == 0) o += " -bind_inner_threads";
    if (yv_pick("scalar", 6) == 0) o += " -force_scalar";
    yv_order = yv_pick("order", 3);
    idx_t t0 = yv_i64("first_step", -5, 5), steps = yv_i64("steps", 1, STEPS), split = yv_i64("split", 1, STEPS); unsigned seed = yv_pick("values", 1000);
    bool ref = yv_pick("reference", 6) == 0;
    if (getenv("YV_SHOW")) fprintf(stderr, "opts%s t0 %ld steps %ld split %ld order %d ref %d\n", o.c_str(), t0, steps, split, yv_order, ref);
    yv_assert(sp->apply_command_line_options(o) == "", "the options are accepted");
    sp->reset_auto_tuner(false, false);
    c.actl->_do_auto_tune = c.req->_do_auto_tune = false;
    sp->prepare_solution();
    IV rs; for (auto& d : I.domain) rs.push_back(szm.count(d) ? szm[d] : 1);
    std::vector<KV> vs;
    for (size_t k = 0; k < I.vars.size(); k++) {
        auto& r = I.vars[k];
        if (r.scratch) continue;
        KV q; q.id = (int)k; q.sp = -1;
        bool have = false;
        for (auto& v : sp->get_vars()) if (v->get_name() == r.name) { q.v = v; have = true; }
        if (!have) { yv_assert(!r.output, "every variable that is computed exists"); continue; }
        for (size_t d = 0; d < r.dims.size(); d++) {
            auto& n = r.dims[d];
            if (r.kind[d] == 0) { q.sp = (int)d; r.alloc = (int)q.v->get_alloc_size(n); q.lo.push_back(0); q.hi.push_back(0); q.first.push_back(0); q.last.push_back(0); }
            else if (r.kind[d] == 1) { q.lo.push_back(q.v->get_first_local_index(n)); q.hi.push_back(q.v->get_last_local_index(n)); q.first.push_back(q.v->get_first_rank_domain_index(n)); q.last.push_back(q.v->get_last_rank_domain_index(n)); }
            else { q.lo.push_back(q.v->get_first_misc_index(n)); q.hi.push_back(q.v->get_last_misc_index(n)); q.first.push_back(q.lo.back()); q.last.push_back(q.hi.back()); }
        }
        vs.push_back(q);
    }
    ref_run(rs.data(), t0, seed);
    for (auto& q : vs) {
        auto& r = I.vars[q.id]; idx_t A = q.sp >= 0 ? r.alloc : 1;
        for (idx_t s = 0; s < A; s++) {
            IV lo = q.lo, hi = q.hi;
            if (q.sp >= 0) lo[q.sp] = hi[q.sp] = t0 - I.dir * (A - 1 - s);
            visit(lo, hi, [&](const IV& i) { q.v->set_element(ref_init(q.id, i.data()), i); });
        }
    }
    idx_t last = t0 + I.dir * (steps - 1);
    auto go = [&](idx_t f, idx_t l) { if (ref) sp->run_ref(f, l); else sp->run_solution(f, l); };
    if (split < steps) { idx_t m = t0 + I.dir * (split - 1); go(t0, m); go(m + I.dir, last); } else go(t0, last);
    for (auto& q : vs) {
        auto& r = I.vars[q.id]; idx_t A = q.sp >= 0 ? r.alloc : 1;
        bool ok = true, out = true, win = true;
        idx_t end = r.output ? last + I.dir : t0; // newest valid step.
        for (idx_t s = 0; s < A; s++) {
            IV lo = q.lo, hi = q.hi;
            if (q.sp >= 0) {
                idx_t t = end - I.dir * (A - 1 - s);
                lo[q.sp] = hi[q.sp] = t;
                win &= t >= q.v->get_first_valid_step_index() && t <= q.v->get_last_valid_step_index();
                if (!win) break;
            }
            visit(lo, hi, [&](const IV& i) {
                bool in = true; for (size_t d = 0; d < i.size(); d++) if ((int)d != q.sp) in &= i[d] >= q.first[d] && i[d] <= q.last[d];
                double want = in ? ref_value(q.id, i.data(), last) : ref_init(q.id, i.data()), got = q.v->get_element(i);
                if (std::isnan(want) && in) return;
                if (!same(got, want)) {
                    if (getenv("YV_SHOW") && (in ? ok : out)) { fprintf(stderr, "%s(", r.name.c_str()); for (auto x : i) fprintf(stderr, " %ld", x); fprintf(stderr, " ) = %.17g, want %.17g (in domain %d)\n", got, want, in); }
                    (in ? ok : out) = false;
                }
            });
        }
        yv_assert(win, "the steps computed last are valid");
        yv_assert(ok, "the values computed are those of the equations");
        yv_assert(out, "nothing outside the domain is changed");
    }
    yv_cover("run");
}
