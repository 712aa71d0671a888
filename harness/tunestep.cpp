// C17: one evaluation of the auto-tuner, from any state of its search and with any times measured.
#include "kctx.hpp"
#define DEFINE_SOLUTION
#include "yask_stencil_code.hpp"
#include "khooks.hpp"

static const idx_t M = 1ll << 40;
enum { RANK, MEGA, BLOCK, MICRO, NANO, PICO, NL };
static const int F[3] = {VLEN_X, VLEN_Y, VLEN_Z};
static IdxTuple& level(KernelSettings& s, int l) {
    IdxTuple* t[] = {&s._rank_sizes, &s._mega_block_sizes, &s._block_sizes, &s._micro_block_sizes, &s._nano_block_sizes, &s._pico_block_sizes}; return *t[l];
}
struct Peek : AutoTuner {
    static AutoTunerState& st(AutoTuner& a) { return a.*(&Peek::at_state); }
    static IdxTuple*& tgt(AutoTuner& a) { return a.*(&Peek::targetp); }
    static IdxTuple*& out(AutoTuner& a) { return a.*(&Peek::outerp); }
    static size_t& ti(AutoTuner& a) { return a.*(&Peek::targeti); }
    static bool& dn(AutoTuner& a) { return a.*(&Peek::done); }
    static double& ts(AutoTuner& a) { return a.*(&Peek::trial_secs); }
    static constexpr bool (AutoTuner::*chk)(const IdxTuple&) = &Peek::check_sizes;
};
template <typename P> static void* fptr(P m, const void* obj) {
    void* t[2]; memcpy(t, &m, sizeof t);
    return (uintptr_t)t[0] & 1 ? *(void**)(*(char**)obj + ((uintptr_t)t[0] - 1)) : t[0];
}
#define NPTR(x) ([&] { auto m_ = x; void* t_; memcpy(&t_, &m_, sizeof t_); return t_; }()) // not virtual
static std::string c_str(const IdxTuple*, const std::string&, const std::string&, const std::string&, const std::string&) { return ""; }
static std::string c_num(double) { return ""; }
struct G {
    KernelSettings* s; StencilContext* c; AutoTuner* at;
    idx_t at_call[NL][4], want[NL][4]; int adj, tb, scr, order; bool angles;
    IdxTuple tried; int checks; bool adjusted; idx_t outer[3]; IdxTuple center; double time;
};
static G* gp;
// --- adjust_settings(): what the sizes are adjusted from, and what follows.
static void c_adjust(KernelSettings* self, KernelStateBase*) {
    yv_assert(self == gp->s, "the settings in use are adjusted");
    for (int l = 0; l < NL; l++) for (int d = 0; d < 4; d++) gp->at_call[l][d] = level(*self, l)[d];
    for (int l = 1; l < NL; l++) for (int d = 1; d < 4; d++) level(*self, l)[d] = yv_fresh(1, M);
    gp->adj = ++gp->order;
}
static void c_tb(StencilContext* self) {
    gp->tb = ++gp->order;
    for (int d = 0; d < 3; d++) {
        idx_t a = self->max_halos.get_val(d), f = F[d], r = (a + f - 1) / f * f;
        idx_t w = level(*gp->s, MEGA)[d + 1] < level(*gp->s, RANK)[d + 1] ? r : 0;
        gp->angles &= self->wf_angles.get_val(d) == w && self->wf_shift_pts.get_val(d) == w * self->num_wf_shifts;
    }
}
static void c_scr(StencilContext*) { gp->scr = ++gp->order; }
extern "C" void h_adjust() {
    Ctx c(h_context_t::new_dims());
    auto sp = std::make_shared<h_context_t>(c.env, c.actl, c.req);
    static G g; g = G(); gp = &g; yv_ghost(&g);
    g.s = c.actl.get(); g.c = sp.get(); g.angles = true;
    sp->max_halos = sp->get_dims()->_domain_dims; sp->wf_angles = sp->wf_shift_pts = sp->get_dims()->_domain_dims;
    for (int d = 0; d < 3; d++) { sp->max_halos.set_val(d, d + 1); sp->wf_angles.set_val(d, yv_i64("old_angle", 0, 100)); }
    sp->wf_steps = 2; sp->num_wf_shifts = 3;
    int t = 1 + yv_pick("target", 5);
    AutoTuner& at = sp->get_at();
    for (int l = 0; l < NL; l++) for (int d = 0; d < 4; d++) {
        level(*c.actl, l)[d] = yv_i64("now", d ? 1 : 0, M); level(*c.req, l)[d] = yv_i64("asked", 0, M);
        g.want[l][d] = l == RANK || l == t ? level(*c.actl, l)[d] : level(*c.req, l)[d];
    }
    Peek::tgt(at) = &level(*c.actl, t);
    if (!yv_symbolic()) { yv_cover("adjust"); return; }
    yv_contract(fptr(&KernelSettings::adjust_settings, g.s), (void*)c_adjust);
    yv_contract(fptr(&StencilContext::update_tb_info, g.c), (void*)c_tb);
    yv_contract(fptr(&StencilContext::alloc_scratch_data, g.c), (void*)c_scr);
    auto dbg = sp->get_debug_output();
    at.adjust_settings(yv_pick("print", 2));
    yv_assert(g.adj && g.tb && g.scr, "sizes, temporal tiling and scratch areas are all brought up to date");
    yv_assert(g.adj < g.tb && g.tb < g.scr, "temporal tiling follows the sizes, scratch areas follow both");
    yv_assert(g.angles, "wave-front angles follow the mega-block sizes");
    for (int l = 0; l < NL; l++) for (int d = 0; d < 4; d++) yv_assert(g.at_call[l][d] == g.want[l][d], "sizes are adjusted from the one tuned and the others as asked for");
    for (int l = 0; l < NL; l++) for (int d = 0; d < 4; d++) { idx_t q = level(*c.req, l)[d]; yv_assert(l == RANK || l == t || q == g.want[l][d], "what was asked for is not changed by a trial"); }
    yv_assert(sp->get_debug_output() == dbg, "messages go where they went before");
    yv_cover("adjust");
}
// --- eval(): one step of the search.
static size_t c_hash(const void*, const IdxTuple*) { return 0; }
static double c_secs(const YaskTimer*) { return gp->time; }
static void legal(const IdxTuple& b) {
    for (int d = 0; d < 3; d++) {
        idx_t n = b[d + 1], o = gp->outer[d];
        yv_assert(n >= 1, "a size tried is positive");
        yv_assert(n <= o, "a size tried lies within the enclosing one");
        yv_assert(int(n == o) | int(n % F[d] == 0), "a size tried is whole vectors unless it is all of the enclosing one");
    }
    yv_assert(b[0] == gp->center[0], "the steps of a block are not tuned");
}
static bool c_check(AutoTuner* self, const IdxTuple* b) {
    legal(*b);
    // The search goes on from here as from any other state: one candidate is enough.
    if (gp->checks++) { yv_assume(0); }
    gp->tried = *b;
    return true;
}
static void c_adj(AutoTuner* self, bool) { gp->adjusted = true; }
static void eval(int d, int what) {
    Ctx c(h_context_t::new_dims());
    auto sp = std::make_shared<h_context_t>(c.env, c.actl, c.req);
    static G g; g = G(); gp = &g; yv_ghost(&g);
    g.s = c.actl.get(); g.c = sp.get();
    AutoTuner& at = sp->get_at(); g.at = &at;
    if (!yv_symbolic()) { yv_cover("eval"); return; }
    int t = 2 + yv_pick("target", 2);
    c.actl->_tuner_targets.clear(); c.actl->_tuner_targets.push_back(KernelSettings::_block_str); c.actl->_tuner_targets.push_back(KernelSettings::_micro_block_str);
    Peek::ti(at) = (size_t)(t - 2);
    auto& st = Peek::st(at);
    for (int l = 0; l < NL; l++) for (int e = 0; e < 3; e++) { level(*c.actl, l)[e + 1] = 8 + 4 * (NL - l); level(*c.req, l)[e + 1] = 0; }
    for (int l = 0; l < NL; l++) level(*c.actl, l)[0] = 2;
    idx_t o = yv_i64("outer", 1, M), n = yv_i64("size", 1, M), ctr = yv_i64("center", 1, M), bst = yv_i64("best", 1, M);
    yv_assume((n <= o) & (ctr <= o) & (bst <= o));
    level(*c.actl, t - 1)[d + 1] = o; level(*c.actl, t)[d + 1] = n;
    for (int e = 0; e < 3; e++) g.outer[e] = level(*c.actl, t - 1)[e + 1];
    Peek::tgt(at) = &level(*c.actl, t); Peek::out(at) = &level(*c.actl, t - 1);
    Peek::dn(at) = false; st.in_warmup = false;
    st.center_sizes = level(*c.actl, t); st.center_sizes[d + 1] = ctr; g.center = st.center_sizes;
    st.best_sizes = level(*c.actl, t); st.best_sizes[d + 1] = bst;
    IdxTuple best0 = st.best_sizes, now = level(*c.actl, t);
    static const idx_t RD[] = {1, 2, 4, 16};
    st.radius = RD[yv_pick("radius", 4)];
    // 'what': 0 a neighbor to try, 1 all neighbors tried.
    static const int NI[] = {0, 13, 14, 22, 26, 4};
    st.neigh_idx = what ? 27 : NI[yv_pick("neighbor", 6)];
    st.better_neigh_found = what ? yv_pick("better", 2) : false;
    double rate = yv_f64("best_rate"); yv_assume(rate > 0); st.best_rate = rate;
    g.time = yv_f64("time"); yv_assume(g.time > 0);
    idx_t ns = yv_pick("steps", 2) * 499 + 1; at.steps_done = ns;
    st.csteps = 0; st.ctime = 0;
    double lim = Peek::ts(at) = 0.5;
    yv_contract(NPTR(Peek::chk), (void*)c_check);
    yv_contract(NPTR(&AutoTuner::adjust_settings), (void*)c_adj);
    yv_contract(NPTR(&std::hash<IdxTuple>::operator()), (void*)c_hash);
    yv_contract(NPTR(&YaskTimer::get_elapsed_secs), (void*)c_secs);
    yv_contract(NPTR(&IdxTuple::make_dim_val_str), (void*)c_str);
    { std::string (*h)(double) = make_num_str; yv_contract((void*)h, (void*)c_num); }
    at.eval();
    bool better = (double)ns > rate * g.time;
    IdxTuple& cur = level(*c.actl, t);
    if (!g.adjusted) { // trial goes on
        for (int e = 0; e < 4; e++) yv_assert(cur[e] == now[e], "sizes change only when a trial ends");
        yv_assert(g.time < lim && ns < 500, "a trial ends when its time or its steps are up");
        yv_assert(st.ctime == g.time && st.csteps == ns, "time and steps add up over a trial");
        yv_cover("goes on"); return;
    }
    if (better) { for (int e = 0; e < 4; e++) yv_assert(what || st.best_sizes[e] == now[e], "the fastest size is kept"); }
    else for (int e = 0; e < 4; e++) yv_assert(what || st.best_sizes[e] == best0[e], "a slower size replaces no faster one");
    if (g.checks && Peek::tgt(at) == &cur) { for (int e = 0; e < 4; e++) yv_assert(cur[e] == g.tried[e], "the next trial is of the size that was checked"); yv_assert(st.csteps == 0 && st.ctime == 0, "a trial starts from nothing"); yv_cover("next"); }
    else { // end of a target: the best size is applied and noted
        const IdxTuple& b = better ? now : best0;
        for (int e = 0; e < 4; e++) yv_assert(cur[e] == b[e] && level(*c.req, t)[e] == b[e], "the fastest size is applied and noted as asked for");
        yv_assert(st.radius < 1 || Peek::tgt(at) != &cur, "a target ends with the search of all distances");
        yv_assert(t == 2 ? Peek::tgt(at) == &level(*c.actl, 3) && !at.is_done() : at.is_done(), "the next target follows, and after the last the tuner is done");
        yv_cover("target done");
    }
}
#define EV(d, w) extern "C" void h_eval_##d##_##w() { eval(d, w); }
EV(0, 0) EV(1, 0) EV(2, 0) EV(0, 1) EV(2, 1)
