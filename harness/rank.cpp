// C08: where each rank's part of the domain lies. The real setup_rank() of one rank, for any sizes.
// The other ranks are assumed to send what this code, run on them, is asserted to send (the same contract on both sides).
#include "kctx.hpp"
#define DEFINE_SOLUTION
#include "yask_stencil_code.hpp"
#include "omp_team.h"
#include <algorithm>
#include <vector>
namespace yask {
bool h_valid_domain(int, const Indices&) { return true; }
bool h_has_domain(int) { return false; }
bool h_valid_step(int, idx_t) { return true; }
bool h_has_step(int) { return false; }
void h_scalar(int, h_core_t*, int, const Indices&) {}
void h_vector(int, h_core_t*, int, idx_t, idx_t, idx_t, idx_t, bit_mask_t) {}
}
extern "C" void yv_rank_unmodelled(int);
static const int F[3] = {VLEN_X, VLEN_Y, VLEN_Z};
static const idx_t M = 1ll << 40;
static int NR, me, n[3];
static idx_t rc[64][3], given[64][3], fin[64][3], G[3]; // per rank: position, size asked for, final size; global sizes.
static int calls[64]; static bool sent_ok; static idx_t others; static int nsum;
static idx_t diff_at; static bool diff_seen; static idx_t shm_of[64];
extern "C" {
int MPI_Bcast(void* b, int cnt, MPI_Datatype dt, int root, MPI_Comm) {
    if (cnt != 3 || dt != MPI_INTEGER8 || root < 0 || root >= NR || calls[root] >= 4) { yv_rank_unmodelled(1); return 1; }
    idx_t* d = (idx_t*)b; int k = calls[root]++;
    idx_t* s = k % 2 == 0 ? rc[root] : k == 1 ? given[root] : fin[root];
    for (int j = 0; j < 3; j++) {
        if (root == me) yv_assert(d[j] == s[j], k % 2 == 0 ? "a rank tells the others its position" : k == 1 ? "a rank tells the others the size asked for" : "a rank tells the others its final size");
        d[j] = s[j];
    }
    return 0;
}
int MPI_Allreduce(const void* s, void* r, int cnt, MPI_Datatype dt, MPI_Op op, MPI_Comm) {
    if (cnt != 1 || dt != MPI_INTEGER8) { yv_rank_unmodelled(2); return 1; }
    idx_t v = *(const idx_t*)s;
    if (op == MPI_SUM) { if (nsum++) { yv_rank_unmodelled(3); return 1; } v += others; }
    else if (op != MPI_MIN && op != MPI_MAX) { yv_rank_unmodelled(4); return 1; }
    else if (v == diff_at) { diff_seen = true; if (op == MPI_MAX) v += 1; }
    *(idx_t*)r = v; return 0;
}
int MPI_Group_translate_ranks(MPI_Group a, int cnt, const int* in, MPI_Group b, int* out) {
    if (a != 7 || b != 9) { yv_rank_unmodelled(5); return 1; }
    for (int i = 0; i < cnt; i++) out[i] = (int)shm_of[in[i]];
    return 0;
}
int MPI_Barrier(MPI_Comm) { return 0; }
}
struct World {
    Ctx c; std::shared_ptr<h_context_t> sp;
    World() : c(h_context_t::new_dims()) {
        sp = std::make_shared<h_context_t>(c.env, c.actl, c.req);
        c.env->comm = MPI_COMM_WORLD; c.env->group = 7; c.env->shm_comm = 5; c.env->shm_group = 9;
    }
    void env() { c.env->my_rank = me; c.env->num_ranks = NR; c.env->my_shm_rank = 3; }
};
static const int GR[][3] = {{1, 1, 1}, {2, 1, 1}, {1, 3, 1}, {2, 2, 1}, {3, 1, 2}, {1, 1, 4}, {2, 2, 2}, {3, 3, 1}};
static void reset() { for (auto& c : calls) c = 0; nsum = 0; others = 0; diff_at = -12345; diff_seen = false; }
static void grid(int g) { NR = 1; for (int j = 0; j < 3; j++) NR *= n[j] = GR[g][j]; }
// Positions: by default those of the layout of the rank numbers, or any asked for.
static bool place(World& w, bool req, int rot) {
    KernelSettings& o = *w.c.actl;
    for (int j = 0; j < 3; j++) o._num_ranks[j] = n[j];
    bool any = false;
    for (int r = 0; r < NR; r++) {
        IdxTuple p = o._num_ranks.unlayout((r + rot) % NR); // a one-to-one mapping (C03).
        for (int j = 0; j < 3; j++) { rc[r][j] = p[j]; any |= req && p[j]; if (req && r != me && p[j]) others++; }
    }
    for (int j = 0; j < 3; j++) w.c.req->_rank_indices[j] = req ? rc[me][j] : 0;
    return any;
}
// What prepare_solution() relies on afterwards.
static void placed(World& w, bool shm) {
    auto& c = *w.sp; auto& mi = *c.get_mpi_info(); KernelSettings& o = *w.c.actl;
    idx_t tot[3] = {0, 0, 0};
    for (int d = 0; d < 3; d++) {
        idx_t ofs = 0;
        for (int r = 0; r < NR; r++) { // ranks in line with me.
            bool in = true; for (int k = 0; k < 3; k++) in &= k == d || rc[r][k] == rc[me][k];
            if (!in) continue;
            tot[d] += fin[r][d];
            if (rc[r][d] < rc[me][d]) ofs += fin[r][d];
        }
        yv_assert(c.rank_domain_offsets[d] == ofs, "a rank begins where the ranks before it end");
        yv_assert(o._rank_sizes[d + 1] == fin[me][d], "size of the rank's part");
        yv_assert(o._global_sizes[d + 1] == tot[d], "the parts add up to the global size");
        yv_assert(o._num_ranks[d] == n[d], "number of ranks");
        yv_assert(o._rank_indices[d] == rc[me][d], "position of the rank");
    }
    // Neighbors: exactly the ranks whose positions differ by at most one in every dimension.
    IdxTuple of = w.c.dims->_domain_dims; bool dist = true, ok = true, vm = true, sh = true; int cnt = 0;
    for (int a = 0; a < 27; a++) {
        int p[3] = {a / 9, a / 3 % 3, a % 3}; for (int j = 0; j < 3; j++) of[j] = p[j];
        int k = (int)mi.get_neighbor_index(of), who = MPI_PROC_NULL, md = 0;
        for (int j = 0; j < 3; j++) md += abs(p[j] - 1);
        for (int r = 0; r < NR; r++) { bool at = true; for (int j = 0; j < 3; j++) at &= rc[r][j] == rc[me][j] + p[j] - 1; if (at) who = r; }
        ok &= mi.my_neighbors.at(k) == who;
        if (who >= 0) {
            cnt++;
            dist &= mi.man_dists.at(k) == md;
            idx_t whole = 1; for (int j = 0; j < 3; j++) whole &= fin[who][j] % F[j] == 0;
            vm &= mi.has_all_vlen_mults.at(k) == (whole != 0);
            int s = who == me ? 3 : shm && shm_of[who] != MPI_UNDEFINED ? (int)shm_of[who] : MPI_PROC_NULL;
            sh &= mi.shm_ranks.at(k) == s;
        } else sh &= mi.shm_ranks.at(k) == MPI_PROC_NULL;
    }
    yv_assert(ok, "the neighbors are exactly the adjacent ranks");
    yv_assert(dist, "distance to each neighbor");
    yv_assert(vm, "whether all sizes of a neighbor are whole vectors");
    yv_assert(sh, "a neighbor is reached through shared memory when it is in the same group");
    (void)cnt;
}
static idx_t rup(idx_t a, idx_t b) { return (a + b - 1) / b * b; }
// Per dimension either the global size is given or the local ones. One dimension has any sizes at a time.
static bool sizes(World& w, bool& refuse) {
    KernelSettings& o = *w.c.actl; int big = yv_pick("big", 3), mode = yv_pick("mode", 3); bool glob_bad = false; // mode: global, local, both
    for (int d = 0; d < 3; d++) {
        idx_t s[4], sum = 0; bool lg = d == big; int m = lg ? mode : (mode + d) % 2;
        if (m == 0) {
            G[d] = lg ? yv_i64("global", 1, M) : 16 + d;
            idx_t part = rup((G[d] + n[d] - 1) / n[d], F[d]), last = G[d] - part * (n[d] - 1);
            glob_bad |= last <= 0;
            for (int k = 0; k < n[d]; k++) s[k] = k == n[d] - 1 ? last : part;
        } else {
            for (int k = 0; k < n[d]; k++) { s[k] = lg ? yv_i64("local", 1, M) : 5 + 3 * k + d; sum += s[k]; }
            G[d] = sum;
        }
        o._global_sizes[d + 1] = m == 1 ? 0 : G[d];
        for (int r = 0; r < NR; r++) { fin[r][d] = s[rc[r][d]]; given[r][d] = m == 0 ? 0 : fin[r][d]; }
        o._rank_sizes[d + 1] = given[me][d];
    }
    refuse = glob_bad; return true;
}
static void run(bool req, bool local_only) {
    World w; reset();
    grid(yv_pick("grid", 8)); me = yv_pick("me", NR); w.env();
    int rot = req ? 1 % NR : 0;
    bool shm = w.c.actl->use_shm = req ? me % 2 : yv_pick("use_shm", 2);
    for (int r = 0; r < NR; r++) shm_of[r] = r % 2 ? MPI_UNDEFINED : 10 + r;
    if (req && !place(w, true, rot)) rot = 0; // a rank at the origin that is alone with it.
    if (!req) place(w, false, 0);
    else if (others == 0) { bool mine = false; for (int j = 0; j < 3; j++) mine |= rc[me][j] != 0; if (!mine) place(w, false, 0); }
    bool refuse; sizes(w, refuse);
    bool t = throws([&] { w.sp->setup_rank(); });
    yv_assert(t == refuse, "sizes that divide are accepted, a global size too small for the number of ranks is refused");
    if (!t) { placed(w, shm); yv_cover("placed"); }
}

extern "C" void h_rank_auto() { run(false, false); }
extern "C" void h_rank_request() { run(true, false); }
// Two ranks at one position, or a position outside of the layout, are refused.
extern "C" void h_rank_bad() {
    World w; reset();
    grid(1 + yv_pick("grid", 7)); me = yv_pick("me", NR); w.env(); place(w, true, 1 % NR);
    bool refuse; sizes(w, refuse); yv_assume(!refuse);
    for (int r = 0; r < NR; r++) shm_of[r] = MPI_UNDEFINED;
    others = 1;
    if (yv_pick("outside", 2)) {
        int d = yv_pick("dim", 3); idx_t p = yv_pick("neg", 2) ? yv_i64("below", -M, -1) : yv_i64("above", n[d], M);
        w.c.req->_rank_indices[d] = rc[me][d] = p;
    } else {
        int o = yv_pick("other", NR); if (o == me) return;
        for (int j = 0; j < 3; j++) { rc[o][j] = rc[me][j]; }
        yv_assume(rc[me][0] + rc[me][1] + rc[me][2] > 0);
        for (int j = 0; j < 3; j++) fin[o][j] = fin[me][j], given[o][j] = given[me][j];
    }
    yv_assert(throws([&] { w.sp->setup_rank(); }), "positions outside of the layout or taken twice are refused");
    yv_cover("refused");
}
// Ranks in line that are not aligned are refused; so are sums that differ from the global size.
extern "C" void h_rank_unaligned() {
    World w; reset();
    grid(1 + yv_pick("grid", 7)); me = yv_pick("me", NR); w.env(); place(w, false, 0);
    for (int r = 0; r < NR; r++) shm_of[r] = MPI_UNDEFINED;
    int d = yv_pick("dim", 3), d2 = yv_pick("other_dim", 3), o = yv_pick("rank", NR), kind = yv_pick("kind", 2);
    for (int j = 0; j < 3; j++) {
        for (int r = 0; r < NR; r++) given[r][j] = fin[r][j] = 8;
        w.c.actl->_rank_sizes[j + 1] = 8; w.c.actl->_global_sizes[j + 1] = 0;
    }
    if (kind == 0) { // 'o' is in line with me in d, and has another size in d2.
        for (int j = 0; j < 3; j++) if (j != d && rc[o][j] != rc[me][j]) return;
        if (o == me || d == d2) return;
        idx_t s = yv_i64("size", 1, M); yv_assume(s != 8); given[o][d2] = fin[o][d2] = s;
    } else {
        idx_t g = yv_i64("global", 1, M); yv_assume(g != 8 * n[d]);
        w.c.actl->_global_sizes[d + 1] = g;
    }
    yv_assert(throws([&] { w.sp->setup_rank(); }), kind ? "local sizes that do not add up to the global size are refused" : "ranks in line with different sizes across are refused");
    yv_cover("refused");
}
// Settings that must agree between the ranks, and sizes that are missing.
extern "C" void h_rank_agree() {
    World w; reset();
    grid(7); me = yv_pick("me", NR); w.env(); place(w, false, 0);
    for (int r = 0; r < NR; r++) shm_of[r] = MPI_UNDEFINED;
    for (int j = 0; j < 3; j++) { for (int r = 0; r < NR; r++) { given[r][j] = 0; fin[r][j] = 0; } w.c.actl->_rank_sizes[j + 1] = 0; w.c.actl->_global_sizes[j + 1] = 48 * (1000 + j); }
    int k = yv_pick("which", 4);
    if (k < 3) diff_at = 48 * (1000 + k);
    else { w.c.actl->_global_sizes[1 + yv_pick("dim", 3)] = 0; }
    yv_assert(throws([&] { w.sp->setup_rank(); }), k < 3 ? "global sizes that differ between ranks are refused" : "a missing size is refused");
    yv_cover("agree");
}
// A second prepare_solution() with another layout: nothing is left of the first one.
extern "C" void h_rank_again() {
    World w;
    for (int pass = 0; pass < 2; pass++) {
        reset();
        grid(pass ? yv_pick("grid", 8) : 6 + yv_pick("grid", 2));
        me = pass ? yv_pick("me_last", 2) * (NR - 1) : yv_pick("me", NR); w.env(); place(w, false, 0);
        bool shm = w.c.actl->use_shm = pass ? yv_pick("use_shm", 2) : 1;
        for (int r = 0; r < NR; r++) shm_of[r] = 10 + r;
        for (int j = 0; j < 3; j++) { w.c.actl->_global_sizes[j + 1] = n[j] * 8; w.c.actl->_rank_sizes[j + 1] = 0; for (int r = 0; r < NR; r++) given[r][j] = 0, fin[r][j] = 8; }
        bool t = throws([&] { w.sp->setup_rank(); });
        yv_assert(!t, "sizes that divide are accepted");
        if (pass && !t) { placed(w, shm); yv_cover("again"); }
    }
}
// Vars and temporal extensions follow the rank's part; halos and extensions never reach past an adjacent rank.
extern "C" void h_rank_vars() {
    World w; KernelSettings& o = *w.c.actl; auto& c = *w.sp; int big = yv_pick("big", 3); bool refuse = false;
    static const idx_t AL[3] = {1, 1, 2}, AR[3] = {1, 2, 1}, BL[3] = {1, 0, 0}, BR[3] = {1, 0, 0};
    idx_t want[3][5]; int steps = yv_pick("wf_steps", 3), tb = yv_pick("tb_steps", 3); int nst = (int)c.st_stages.size();
    o._mega_block_sizes[0] = steps; o._block_sizes[0] = tb;
    for (int d = 0; d < 3; d++) {
        bool lg = d == big; idx_t sz = lg ? yv_i64("size", 1, M) : 64, mb = lg ? yv_i64("mega_block", 1, M) : 16 << d;
        int nr = lg ? 1 + yv_pick("num_ranks", 3) : 1 + d % 2, ri = lg ? yv_pick("index", nr) : 0;
        o._rank_sizes[d + 1] = sz; o._mega_block_sizes[d + 1] = mb; o._block_sizes[d + 1] = mb; o._num_ranks[d] = nr; o._rank_indices[d] = ri;
        c.rank_domain_offsets[d] = lg ? yv_i64("rank_ofs", 0, M) : 64 * ri;
        idx_t mh = std::max(std::max(AL[d], AR[d]), std::max(BL[d], BR[d])), ang = (mb < sz || nr > 1) ? rup(mh, F[d]) : 0, ns = std::max(steps, tb);
        ns = ns > 0 ? ns * nst - 1 : 0;
        want[d][0] = sz; want[d][1] = c.rank_domain_offsets[d]; want[d][2] = mh; want[d][3] = ri == 0 ? 0 : ang * ns; want[d][4] = ri == nr - 1 ? 0 : ang * ns;
        refuse |= nr > 1 && sz < mh + ang * ns;
    }
    bool t = throws([&] { c.update_var_info(true); });
    yv_assert(t == refuse, "a part smaller than its halo and extension is refused when there are neighbors, nothing else is");
    if (t) return;
    const char* nm[3] = {"x", "y", "z"}; bool ok = true, ex = true;
    for (int d = 0; d < 3; d++) {
        idx_t* q = want[d];
        for (auto* v : {"A", "B"}) {
            auto g = c.get_var(v); bool a = *v == 'A';
            idx_t f = g->get_first_rank_domain_index(nm[d]), l = g->get_last_rank_domain_index(nm[d]);
            yv_assert((f == q[1]) & (l == q[1] + q[0] - 1), "a var covers exactly the rank's part of the global domain");
            yv_assert((g->get_first_rank_halo_index(nm[d]) == q[1] - (a ? AL : BL)[d]) & (g->get_last_rank_halo_index(nm[d]) == q[1] + q[0] - 1 + (a ? AR : BR)[d]), "the halo of a var lies around the rank's part");
            yv_assert((g->get_first_rank_alloc_index(nm[d]) <= q[1] - (a ? AL : BL)[d] - q[3]) & (g->get_last_rank_alloc_index(nm[d]) >= q[1] + q[0] - 1 + (a ? AR : BR)[d] + q[4]), "storage holds the rank's part, its halo and its temporal extension");
        }
        yv_assert(c.max_halos[d] == q[2], "largest halo of all vars");
        yv_assert((c.left_wf_exts[d] == q[3]) & (c.right_wf_exts[d] == q[4]), "temporal extensions reach into neighbors only");
    }
    (void)ok; (void)ex; yv_cover("vars");
}
