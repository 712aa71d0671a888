// C13: a tiled run computes what step-by-step, stage-by-stage evaluation of the whole domain computes.
#include "kctx.hpp"
#define DEFINE_SOLUTION
#include "yask_stencil_code.hpp"
#include "omp_team.h"
#include "tiling_cfg.hpp"
#include <vector>
extern int yv_order;

// What has been computed so far: for each point of the domain and each part, the number of steps done.
struct Run {
    idx_t n[3], b[3], t0, dir, steps; std::vector<int> cnt[NPARTS]; const char* bad; idx_t w[5];
    idx_t at(const idx_t* p) const { return ((p[0] - b[0]) * n[1] + p[1] - b[1]) * n[2] + p[2] - b[2]; }
    bool in(const idx_t* p) const { return p[0] >= b[0] && p[0] < b[0] + n[0] && p[1] >= b[1] && p[1] < b[1] + n[1] && p[2] >= b[2] && p[2] < b[2] + n[2]; }
    void fail(const char* m, int k, idx_t t, const idx_t* p) { if (!bad) { bad = m; w[0] = k; w[1] = t; for (int j = 0; j < 3; j++) w[2 + j] = p[j]; } }
};
static Run R;
struct Dep { int part, from; idx_t lo[3], hi[3]; int back; }; // part at step n reads `from` at points P-lo..P+hi, at its own step n - back.
static const Dep DEPS[] = DEPLIST;
static bool valid(int part, idx_t t) { return SCOND; }
static bool dom(int part, const idx_t* p) { return DCOND; }
static int step_no(int part, idx_t k) { int c = 0; for (idx_t i = 0; i < k; i++) c += valid(part, R.t0 + i * R.dir); return c; } // valid steps among the first k
// Scratch variables hold, at each point, a number telling which part computed it for which step and point.
static h_context_t* CX;
struct SRead { int part, from; idx_t lo[3], hi[3]; };
static const std::vector<SRead> SREADS = SREADLIST;
static VarPtrs* scr(int part) { SCRVARS; return 0; } // the scratch variable written by a part
static double stamp(int part, idx_t t, const idx_t* p) { return (double)((((((t + 50) * 128 + p[0] + 20) * 128 + p[1] + 20) * 128) + p[2] + 20) * 8 + part); }
static YkVarBase& sgb(int part, int core) { return scr(part)->at(core)->gb(); }
#ifdef TUNE
static bool quiet = false; // steps run by the tuner on its own are not judged.
#else
static const bool quiet = false;
#endif
static void point(int k, int core, idx_t t, const idx_t* p) {
    if (quiet) return;
    idx_t n = (t - R.t0) * R.dir;
    for (auto& d : SREADS) {
        if (d.part != k) continue;
        idx_t q[3];
        for (q[0] = p[0] - d.lo[0]; q[0] <= p[0] + d.hi[0]; q[0]++) for (q[1] = p[1] - d.lo[1]; q[1] <= p[1] + d.hi[1]; q[1]++) for (q[2] = p[2] - d.lo[2]; q[2] <= p[2] + d.hi[2]; q[2]++)
            if (dom(d.from, q) && valid(d.from, t) && sgb(d.from, core).read_elem(Indices(q, 3), 0, 0) != stamp(d.from, t, q)) return R.fail("a scratch value that is read was not computed for this point and step", k, t, p);
    }
    if (n < 0 || n >= R.steps) return R.fail("a step outside the requested ones is computed", k, t, p);
    auto* sv = scr(k);
    if (!sv && !R.in(p)) return R.fail("a point outside the domain is computed", k, t, p);
    if (!valid(k, t)) return R.fail("a part is computed at a step where its condition is false", k, t, p);
    if (!dom(k, p)) return R.fail("a part is computed at a point where its condition is false", k, t, p);
    static int dummy; int& c = sv ? dummy : R.cnt[k][R.at(p)];
    if (!sv && c != step_no(k, n)) return R.fail(c > step_no(k, n) ? "a point is computed twice at a step" : "a point is computed before its earlier steps", k, t, p);
    for (auto& d : DEPS) {
        if (d.part != k) continue;
        idx_t q[3];
        int need = step_no(d.from, n + 1 - d.back);
        for (q[0] = p[0] - d.lo[0]; q[0] <= p[0] + d.hi[0]; q[0]++) for (q[1] = p[1] - d.lo[1]; q[1] <= p[1] + d.hi[1]; q[1]++) for (q[2] = p[2] - d.lo[2]; q[2] <= p[2] + d.hi[2]; q[2]++)
            if (R.in(q) && dom(d.from, q)) {
                int h = R.cnt[d.from][R.at(q)];
                if (h < need) return R.fail("a point is computed before a value it reads", k, t, p);
                if (h > need + 1 - (d.back == 0)) return R.fail("a value is overwritten before a point that reads it", k, t, p);
            }
    }
    if (sv) sgb(k, core).write_elem(stamp(k, t, p), Indices(p, 3), 0, 0); else c++;
}
namespace yask {
bool h_valid_domain(int k, const Indices& i) { idx_t p[3] = {i[1], i[2], i[3]}; return dom(k, p); }
bool h_has_domain(int k) { return HASD; }
bool h_valid_step(int k, idx_t t) { return valid(k, t); }
bool h_has_step(int k) { return HASS; }
void h_scalar(int k, h_core_t*, int core, const Indices& i) { idx_t p[3] = {i[1], i[2], i[3]}; point(k, core, i[0], p); }
void h_vector(int k, h_core_t*, int core, idx_t t, idx_t x, idx_t y, idx_t z, bit_mask_t m) {
    const int F[3] = {VLEN_X, VLEN_Y, VLEN_Z};
    for (int l = 0; l < VLEN; l++) if ((m >> l) & 1) { idx_t p[3] = {x * F[0] + l % F[0], y * F[1] + l / F[0] % F[1], z * F[2] + l / F[0] / F[1]}; point(k, core, t, p); }
}
}
extern "C" void h_run() {
    std::string o;
    auto opt = [&](const std::string& k, idx_t v) { o += " -" + k + " " + std::to_string(v); };
    const char* D[3] = {"x", "y", "z"};
    int big = yv_pick("long_dim", 3), two = yv_pick("second_dim", 4);
    idx_t sz[3], mb[3], b[3];
    for (int j = 0; j < 3; j++) {
        bool l = j == big, s = j == two;
        sz[j] = yv_i64("domain", 1, l ? 70 : s ? 24 : 6); opt(std::string("l") + D[j], sz[j]);
        if (yv_pick("mega", 2)) { mb[j] = yv_i64("Mb", 1, sz[j]); opt(std::string("Mb") + D[j], mb[j]); }
        if (yv_pick("block", 4)) { b[j] = yv_i64("b", 1, sz[j]); opt(std::string("b") + D[j], b[j]); }
        if (yv_pick("micro", 2)) opt(std::string("mb") + D[j], yv_i64("mb", 1, sz[j]));
        if (yv_pick("nano", 2)) opt(std::string("nb") + D[j], yv_i64("nb", 1, sz[j]));
        if (yv_pick("pico", 2)) opt(std::string("pb") + D[j], yv_i64("pb", 1, sz[j]));
    }
    R.steps = yv_i64("steps", 1, 9);
    switch (yv_pick("temporal", 4)) {
    case 1: opt("Mbt", yv_i64("wf", 1, 6)); break;
    case 2: opt("bt", yv_i64("tb", 1, 6)); break;
    case 3: opt("bt", yv_i64("tb", 1, 6)); opt("Mbt", yv_i64("wf", 1, 9)); break;
    }
    idx_t nt = yv_i64("threads", 1, 4), in = yv_i64("inner", 1, 2);
    opt("max_threads", nt * in); opt("inner_threads", in); opt("outer_threads", nt);
    if (yv_pick("bind", 3) == 0) o += " -bind_inner_threads";
    if (yv_pick("scalar", 6) == 0) o += " -force_scalar";
    if (yv_pick("round", 2)) o += " -round_up_temporal_angles";
    R.t0 = yv_i64("first_step", -5, 5); R.dir = STEPDIR; R.bad = 0;
    yv_order = yv_pick("order", 3);
    if (getenv("YV_SHOW")) fprintf(stderr, "opts%s steps %ld order %d\n", o.c_str(), R.steps, yv_order);
    Ctx c(h_context_t::new_dims());
    auto sp = std::make_shared<h_context_t>(c.env, c.actl, c.req);
    yv_assert(sp->apply_command_line_options(o) == "", "the options are accepted");
    CX = sp.get();
    sp->reset_auto_tuner(false, false);
    c.actl->_do_auto_tune = c.req->_do_auto_tune = false;
    sp->prepare_solution();
    for (int j = 0; j < 3; j++) { R.b[j] = 0; R.n[j] = sz[j]; }
    for (auto& v : R.cnt) v.assign(sz[0] * sz[1] * sz[2], 0);
    bool ref = yv_pick("reference", 8) == 0;
    idx_t last = R.t0 + R.dir * (R.steps - 1), mid = R.t0 + R.dir * (yv_i64("split", 1, 9) - 1);
    auto go = [&](idx_t f, idx_t l) { if (ref) sp->run_ref(f, l); else sp->run_solution(f, l); };
    if ((mid - R.t0) * R.dir + 1 < R.steps) { go(R.t0, mid); go(mid + R.dir, last); } else go(R.t0, last);
    bool all = true;
    for (int k = 0; k < NPARTS; k++) {
        idx_t p[3]; int want = step_no(k, R.steps);
        for (p[0] = 0; p[0] < sz[0]; p[0]++) for (p[1] = 0; p[1] < sz[1]; p[1]++) for (p[2] = 0; p[2] < sz[2]; p[2]++)
            all &= !!scr(k) || R.cnt[k][R.at(p)] == (dom(k, p) ? want : 0);
    }
    if (R.bad && getenv("YV_SHOW")) fprintf(stderr, "%s: part %ld t %ld p %ld,%ld,%ld\n", R.bad, R.w[0], R.w[1], R.w[2], R.w[3], R.w[4]);
    yv_assert(!R.bad, R.bad ? R.bad : "every value is computed once, after the values it reads and before they are overwritten");
    yv_assert(all, "every part is computed at every point of its domain at every step");
    yv_cover("run");
}
