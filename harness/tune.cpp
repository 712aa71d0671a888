// C17: runs with the auto-tuner on, whatever the clock says, compute what untuned runs do (bounded part).
#define TUNE
#include "tiling.cpp"
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
// The clock under which the tuner measures: any times, drawn anew for each call.
static uint64_t clk_rng, clk_now; static int clk_kind; static bool clk_on = false;
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept {
    if (!clk_on) return (int)syscall(SYS_clock_gettime, id, t);
    clk_rng = clk_rng * 6364136223846793005ull + 1442695040888963407ull;
    uint64_t r = clk_rng >> 33, d = 1;
    switch (clk_kind) {
    case 0: d = 1 + r % 1000000000ull; break;                                // up to a second
    case 1: d = 1 + (r % 2 ? (r >> 8) % 10000000ull : (r >> 8) % 8000000000ull); break; // all scales
    case 2: d = 250000000; break;                                            // all trials equal
    case 3: d = 1 + (r % 4 ? r % 1000 : r % 60000000000ull); break;          // mostly short, now and then a minute
    }
    clk_now += d; t->tv_sec = clk_now / 1000000000ull; t->tv_nsec = clk_now % 1000000000ull; return 0;
}
struct Peek : AutoTuner {
    static AutoTunerState& st(AutoTuner& a) { return a.*(&Peek::at_state); }
    static IdxTuple*& tgt(AutoTuner& a) { return a.*(&Peek::targetp); }
    static IdxTuple*& out(AutoTuner& a) { return a.*(&Peek::outerp); }
};
static IdxTuple* level(KernelSettings& s, int l) {
    IdxTuple* t[] = {&s._rank_sizes, &s._mega_block_sizes, &s._block_sizes, &s._micro_block_sizes, &s._nano_block_sizes, &s._pico_block_sizes}; return t[l];
}
static void nested(Ctx& c, h_context_t& s) {
    const char* D[3] = {"x", "y", "z"}; const int F[3] = {VLEN_X, VLEN_Y, VLEN_Z};
    for (int d = 0; d < 3; d++) for (int l = 1; l < 6; l++) {
        idx_t o = (*level(*c.actl, l - 1))[D[d]], i = (*level(*c.actl, l))[D[d]];
        yv_assert(i >= 1 && i <= o, "sizes chosen by the tuner nest");
        yv_assert(i == o || i % F[d] == 0, "sizes chosen by the tuner are whole vectors");
    }
    (void)s;
}
struct ClockOn { ClockOn() { clk_on = true; } ~ClockOn() { clk_on = false; } };
extern "C" void h_tune() {
    std::string o;
    auto opt = [&](const std::string& k, const std::string& v) { o += " -" + k + " " + v; };
    const char* D[3] = {"x", "y", "z"};
    int big = yv_pick("long_dim", 3), two = yv_pick("second_dim", 4);
    idx_t sz[3];
    for (int j = 0; j < 3; j++) {
        sz[j] = yv_i64("domain", 1, j == big ? 18 : j == two ? 9 : 4); opt(std::string("l") + D[j], std::to_string(sz[j]));
        static const char* K[] = {"Mb", "b", "mb", "nb", "pb"};
        for (auto* k : K) if (yv_pick(k, 4) == 0) opt(std::string(k) + D[j], std::to_string(yv_i64("size", 1, sz[j])));
    }
    switch (yv_pick("temporal", 5)) {
    case 1: opt("Mbt", std::to_string(yv_i64("wf", 1, 4))); break;
    case 2: opt("bt", std::to_string(yv_i64("tb", 1, 4))); break;
    case 3: opt("bt", std::to_string(yv_i64("tb", 1, 4))); opt("Mbt", std::to_string(yv_i64("wf", 1, 6))); break;
    }
    idx_t nt = yv_i64("threads", 1, 4), in = yv_i64("inner", 1, 2);
    opt("max_threads", std::to_string(nt * in)); opt("inner_threads", std::to_string(in)); opt("outer_threads", std::to_string(nt));
    const std::string T[] = {KernelSettings::_mega_block_str, KernelSettings::_block_str, KernelSettings::_micro_block_str, KernelSettings::_nano_block_str, KernelSettings::_pico_block_str};
    std::string tg;
    for (int n = yv_pick("targets", 4), i = 0; i < n; i++) tg += (i ? "," : "") + T[yv_pick("target", 5)];
    if (tg.size()) opt("auto_tune_targets", tg);
    opt("auto_tune_radius", std::to_string(1 << yv_pick("radius", 4)));
    static const char* S[] = {"0.5", "0.0001", "2", "0"}; opt("auto_tune_trial_secs", S[yv_pick("trial_secs", 4)]);
    bool online = yv_pick("online", 4) != 0, offline = !online || yv_pick("offline", 4) == 0;
    if (online) o += " -auto_tune";
    clk_kind = yv_pick("clock", 4); clk_rng = (uint64_t)yv_i64("times", 0, 1ll << 40); clk_now = 1000000000ull;
    yv_order = yv_pick("order", 3);
    R.t0 = yv_i64("first_step", -5, 5); R.dir = STEPDIR; R.bad = 0;
    R.steps = online ? yv_i64("steps", 1, 40) : yv_i64("steps", 1, 9);
    if (getenv("YV_SHOW")) fprintf(stderr, "opts%s steps %ld order %d\n", o.c_str(), R.steps, yv_order);
    Ctx c(h_context_t::new_dims()); ClockOn clk;
    auto sp = std::make_shared<h_context_t>(c.env, c.actl, c.req);
    yv_assert(sp->apply_command_line_options(o) == "", "the options are accepted");
    CX = sp.get();
    sp->prepare_solution();
    for (int j = 0; j < 3; j++) { R.b[j] = 0; R.n[j] = sz[j]; }
    for (auto& v : R.cnt) v.assign(sz[0] * sz[1] * sz[2], 0);
    yv_assert(sp->is_auto_tuner_enabled() == online, "the tuner runs when asked for");
    if (offline) {
        bool he = c.actl->do_halo_exchange;
        quiet = true; sp->run_auto_tuner_now(yv_pick("verbose", 2)); quiet = false;
        nested(c, *sp);
        yv_assert(!sp->is_auto_tuner_enabled(), "tuning now comes to its end");
        yv_assert(c.actl->do_halo_exchange == he, "halo exchanges are as they were after tuning");
        if (yv_pick("again", 2)) { sp->reset_auto_tuner(true); online = true; }
        else { sp->reset_auto_tuner(false); online = false; }
    }
    IdxTuple before[6]; for (int l = 0; l < 6; l++) before[l] = *level(*c.actl, l);
    for (idx_t done = 0; done < R.steps; ) {
        idx_t n = yv_i64("steps_in_call", 1, 25); if (n > R.steps - done) n = R.steps - done;
        sp->run_solution(R.t0 + R.dir * done, R.t0 + R.dir * (done + n - 1));
        done += n;
        nested(c, *sp);
        yv_assert(!R.bad, R.bad ? R.bad : "every value is computed once, after the values it reads and before they are overwritten");
        if (online && yv_pick("reset", 12) == 0) { bool en = yv_pick("enable", 2); sp->reset_auto_tuner(en); online = en; nested(c, *sp); for (int l = 0; l < 6; l++) before[l] = *level(*c.actl, l); yv_assert(sp->is_auto_tuner_enabled() == en, "the tuner is on as told"); }
        if (online && !sp->is_auto_tuner_enabled()) { online = false; for (int l = 0; l < 6; l++) before[l] = *level(*c.actl, l); yv_cover("tuned"); }
        if (!online) for (int l = 0; l < 6; l++) yv_assert(before[l] == *level(*c.actl, l), "without tuning, sizes stay as they are");
    }
    bool all = true;
    for (int k = 0; k < NPARTS; k++) {
        idx_t p[3]; int want = step_no(k, R.steps);
        for (p[0] = 0; p[0] < sz[0]; p[0]++) for (p[1] = 0; p[1] < sz[1]; p[1]++) for (p[2] = 0; p[2] < sz[2]; p[2]++)
            all &= !!scr(k) || R.cnt[k][R.at(p)] == (dom(k, p) ? want : 0);
    }
    if (R.bad && getenv("YV_SHOW")) fprintf(stderr, "%s: part %ld t %ld p %ld,%ld,%ld\n", R.bad, R.w[0], R.w[1], R.w[2], R.w[3], R.w[4]);
    yv_assert(!R.bad, R.bad ? R.bad : "every value is computed once, after the values it reads and before they are overwritten");
    yv_assert(all, "every part is computed at every point of its domain at every step");
    yv_cover("tune");
}
