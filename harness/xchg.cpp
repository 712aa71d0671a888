// C09: what one rank packs for a neighbor is what the neighbor unpacks, and it is all the neighbor needs.
// The real alloc_mpi_data() is run for both ranks of a pair; their places are those that C08 proves setup_rank() to give.
#include "kctx.hpp"
#define DEFINE_SOLUTION
#include "yask_stencil_code.hpp"
#include "omp_team.h"
#include <algorithm>
#include <array>
#include <vector>
namespace yask {
bool h_valid_domain(int, const Indices&) { return true; }
bool h_has_domain(int) { return false; }
bool h_valid_step(int, idx_t) { return true; }
bool h_has_step(int) { return false; }
void h_scalar(int, h_core_t*, int, const Indices&) {}
void h_vector(int, h_core_t*, int, idx_t, idx_t, idx_t, idx_t, bit_mask_t) {}
}
struct Stop {};
static bool bufs; static int who, nbar, nrow[2], shared; static size_t rows[2][8][2]; // buffers are allocated too; the rank that runs; offsets told to the other rank.
struct Mem { char* p; idx_t n; bool shm; }; static Mem mem[2][4]; static int nmem[2];
extern "C" int MPI_Barrier(MPI_Comm c) { if (bufs && c == 5 && ++nbar == 2 && who == 1) throw Stop(); return 0; } // the second rank waits here for the first.
extern "C" int MPI_Bcast(void* b, int cnt, MPI_Datatype dt, int root, MPI_Comm) {
    size_t* d = (size_t*)b; if (root == who) { rows[who][nrow[who]][0] = d[0]; rows[who][nrow[who]++][1] = d[1]; }
    else if (who == 0) { int k = nrow[0] - 1; yv_assert(k >= 0 && k < nrow[1], "both ranks tell each other about the same variables"); d[0] = rows[1][k][0]; d[1] = rows[1][k][1]; }
    return 0;
}
static const int F[3] = {VLEN_X, VLEN_Y, VLEN_Z};
static const char* DN[3] = {"x", "y", "z"};
static const char* VN[3] = {"A", "B", "C"};
static const idx_t MS = 1ll << 30, HS = 1ll << 16; static idx_t M = MS, H = HS;
static int nb_idx;
struct Rank : h_context_t { using h_context_t::h_context_t;
    void _alloc_data(AllocMap& m, const std::string&) override {
        if (!bufs) throw Stop(); // all buffers are set up; memory is not needed here.
        for (auto& i : m) {
            auto& d = i.second; if (!d.nbytes) continue;
            Mem r{(char*)yv_symbuf("message buffers", d.nbytes), (idx_t)d.nbytes, i.first.first == 1000}; mem[who][nmem[who]++] = r; d.ptr = std::shared_ptr<char>(r.p, [](char*) {});
            if (r.shm && who == 0) for (int k = 0; k < nmem[1]; k++) if (mem[1][k].shm) { auto mi = get_mpi_info(); mi->halo_buf_ptrs.at(nb_idx) = mem[1][k].p; mi->halo_buf_sizes.at(nb_idx) = mem[1][k].n; }
        }
    }
    static idx_t pad() { return _data_buf_pad; }
};
struct World { Ctx c; std::shared_ptr<Rank> sp; World() : c(h_context_t::new_dims()) { sp = std::make_shared<Rank>(c.env, c.actl, c.req); } };
struct Place { idx_t f[3], n[3]; bool first[3], last[3]; };

static void put(World& w, const Place& p, const int* of, idx_t other_ok, bool wholes, bool scalar, idx_t minext, int steps, const int* nr, const int* ri, int norm, int big, const idx_t* lh, const idx_t* rh) {
    auto& c = *w.sp; KernelSettings& o = *w.c.actl; auto& e = *w.c.env; auto& mi = *c.get_mpi_info();
    e.comm = e.shm_comm = MPI_COMM_WORLD; e.num_ranks = 2; e.num_shm_ranks = 1; e.my_shm_rank = 0; e.my_rank = 0;
    o.use_shm = false; o.force_scalar_exchange = scalar; o._min_exterior = minext; o.overlap_comms = true;
    o._mega_block_sizes[0] = steps; o._block_sizes[0] = 0;
    for (int v = 0; v < 3; v++) {
        auto g = c.get_var(VN[v]); g->set_halo_exchange_l1_norm(norm);
        if (g->is_dim_used(DN[big])) { g->set_left_halo_size(DN[big], lh[v]); g->set_right_halo_size(DN[big], rh[v]); }
    }
    for (int d = 0; d < 3; d++) {
        o._rank_sizes[d + 1] = p.n[d]; o._mega_block_sizes[d + 1] = o._block_sizes[d + 1] = 4; o._num_ranks[d] = nr[d]; o._rank_indices[d] = ri[d];
        c.rank_domain_offsets[d] = p.f[d];
    }
    c.update_var_info(true);
    for (int d = 0; d < 3; d++) {
        c.rank_bb.bb_begin[d] = p.f[d]; c.rank_bb.bb_end[d] = p.f[d] + p.n[d];
        c.ext_bb.bb_begin[d] = p.f[d] - c.left_wf_exts[d]; c.ext_bb.bb_end[d] = p.f[d] + p.n[d] + c.right_wf_exts[d];
    }
    IdxTuple t = w.c.dims->_domain_dims; int md = 0; for (int d = 0; d < 3; d++) { t[d] = of[d] + 1; md += abs(of[d]); }
    int k = (int)mi.get_neighbor_index(t), m = (int)mi.my_neighbor_index;
    mi.my_neighbors.at(m) = 0; mi.my_neighbors.at(k) = 1; mi.man_dists.at(k) = md; mi.shm_ranks.at(m) = 0;
    mi.has_all_vlen_mults.at(m) = wholes; mi.has_all_vlen_mults.at(k) = other_ok != 0;
    nb_idx = k; nbar = 0; nrow[who] = nmem[who] = 0;
    if (bufs) {
        e.my_rank = mi.my_neighbors.at(m) = who; mi.my_neighbors.at(k) = 1 - who; e.shm_comm = 5;
        if (shared) { o.use_shm = true; e.num_shm_ranks = 2; e.my_shm_rank = mi.shm_ranks.at(m) = who; mi.shm_ranks.at(k) = 1 - who; }
    }
    try { c.alloc_mpi_data(); } catch (Stop&) {}
}
static MPIBuf* buf(World& w, const char* v, bool send, const int* of) {
    auto& c = *w.sp; IdxTuple t = w.c.dims->_domain_dims; for (int d = 0; d < 3; d++) t[d] = of[d] + 1;
    auto i = c.mpi_data.find(v); if (i == c.mpi_data.end()) return 0;
    MPIBuf& b = i->second.get_buf(send ? MPIBufs::buf_send : MPIBufs::buf_recv, t);
    return b.num_pts.size() ? &b : 0;
}
// every buffer of a rank lies in the memory it asked for, on its own, with room for its lock and pad.
static std::string c_bytes(size_t) { return "B"; }
static std::string c_num(idx_t) { return "N"; }
static void apart(World& w, int me, const std::vector<std::array<int, 3>>& offs, bool all_shm) {
    struct At { int b; idx_t o, n; }; std::vector<At> v;
    for (auto& o : offs) for (auto* V : VN) for (int d = 0; d < 2; d++) {
        MPIBuf* b = buf(w, V, d == 0, o.data()); if (!b) continue;
        if (d == 1 && all_shm) continue; // in the memory of the other rank.
        At a{-1, 0, (idx_t)b->get_bytes()}; char* p = (char*)b->_elems;
        for (int k = 0; k < nmem[me]; k++) if (yv_symbolic() ? yv_ptr_obj(p) == yv_ptr_obj(mem[me][k].p) : p >= mem[me][k].p && p < mem[me][k].p + mem[me][k].n) { a.b = k; a.o = yv_symbolic() ? yv_ptr_off(p) - yv_ptr_off(mem[me][k].p) : p - mem[me][k].p; }
        yv_assert(a.b >= 0, "a message buffer has storage"); if (a.b < 0) continue;
        yv_assert((a.o >= 0) & (a.o + a.n + (idx_t)sizeof(SimpleLock) <= mem[me][a.b].n), "a message buffer and its lock lie in the memory asked for");
        yv_assert(a.o % CACHELINE_BYTES == 0, "a message buffer begins at a cache line");
        yv_assert((char*)b->_shm_lock == p + b->get_bytes(), "the lock follows the data");
        for (auto& c : v) yv_assert(c.b != a.b || (int)((a.o + a.n + (idx_t)sizeof(SimpleLock) <= c.o) | (c.o + c.n + (idx_t)sizeof(SimpleLock) <= a.o)), "two message buffers do not overlap");
        v.push_back(a);
    }
    yv_cover("buffers");
}
static void c_update(BoundingBox* b, const std::string&, StencilContext*, bool, bool) { b->bb_valid = true; } // C11.
static void pair(int big, int pos, bool wf) {
    if (bufs && !yv_symbolic()) { M = 64; H = 8; }
    static const int POS[4][2] = {{2, 0}, {3, 0}, {3, 1}, {4, 1}}; // ranks in a dimension, place of the lower one of the pair.
    static const int IN[4][2] = {{1, 0}, {2, 0}, {2, 1}, {3, 1}};
    int oa[3], ob[3], nr[3], ra[3], rb[3]; Place a, b; World wa, wb;
    void (BoundingBox::*fn)(const std::string&, StencilContext*, bool, bool) = &BoundingBox::update_bb;
    void* fp; memcpy(&fp, &fn, sizeof fp); yv_contract(fp, (void*)c_update);
    std::string (*fb)(size_t) = make_byte_str; std::string (*fu)(idx_t) = make_num_str; yv_contract((void*)fb, (void*)c_bytes); yv_contract((void*)fu, (void*)c_num);
    static const int OD[3][2] = {{0, 0}, {1, 0}, {-1, 1}}; // places in the other two dimensions.
    int db = yv_pick("delta", 3) - 1, od = db ? yv_pick("delta_others", 3) : 1 + yv_pick("delta_others", 2);
    int pos2 = bufs ? 0 : yv_pick("others", 2), odd = pos2 ? 1 + (db + od + 3) % 2 : 0, kind = bufs ? 3 * yv_pick("sizes", 2) + 1 : yv_pick("sizes", 5);
    int ali = kind == 1 ? 2 : kind == 2 ? 1 : 3; bool start = kind != 3, scalar = kind == 4; // also with vector exchanges turned off.
    bool whole_a = true, whole_b = true;
    for (int d = 0; d < 3; d++) {
        ob[d] = d == big ? db : OD[od][(d - big + 2) % 3]; oa[d] = -ob[d];
        const int* p = ob[d] ? POS[d == big ? pos : pos2 * 3] : IN[d == big ? pos : pos2 * 3];
        nr[d] = p[0]; ra[d] = p[1] + (ob[d] < 0); rb[d] = ra[d] + ob[d];
        if (d == big) {
            if (ali & 1) a.n[d] = F[d] * yv_i64("vecs_a", 1, M); else { a.n[d] = yv_i64("size_a", 1, M); if (F[d] > 1) yv_assume(a.n[d] % F[d] != 0); whole_a &= F[d] == 1; }
            if (!ob[d]) { b.n[d] = a.n[d]; whole_b &= whole_a; }
            else if (ali & 2) b.n[d] = F[d] * yv_i64("vecs_b", 1, M); else { b.n[d] = yv_i64("size_b", 1, M); if (F[d] > 1) yv_assume(b.n[d] % F[d] != 0); whole_b &= F[d] == 1; }
            a.f[d] = start ? F[d] * yv_i64("first_vec", 0, M) : yv_i64("first", 0, M);
            if (!ra[d]) yv_assume(a.f[d] == 0);
        } else {
            bool o = odd == 1 + ((d - big + 2) % 3);
            a.n[d] = b.n[d] = 16 - (o ? 3 : 0); if (ob[d] && o) { if (ob[d] > 0) a.n[d] = 16; else b.n[d] = 16; }
            whole_a &= a.n[d] % F[d] == 0; whole_b &= b.n[d] % F[d] == 0;
            a.f[d] = ra[d] * 16;
        }
        b.f[d] = ob[d] == 0 ? a.f[d] : ob[d] > 0 ? a.f[d] + a.n[d] : a.f[d] - b.n[d];
        if (!rb[d]) yv_assume(b.f[d] == 0);
        yv_assume(b.f[d] >= 0);
        a.first[d] = ra[d] == 0; a.last[d] = ra[d] == nr[d] - 1; b.first[d] = rb[d] == 0; b.last[d] = rb[d] == nr[d] - 1;
    }
    idx_t lh[3], rh[3]; for (int v = 0; v < 3; v++) { lh[v] = v == 0 ? yv_i64("left_halo", 0, H) : 1; rh[v] = v == 0 ? yv_i64("right_halo", 0, H) : 0; }
    int md = 0; for (int d = 0; d < 3; d++) md += abs(ob[d]);
    idx_t minext = yv_i64("min_exterior", 0, M); int norm = wf ? 0 : bufs ? md : md - yv_pick("corner", 2), steps = wf ? 2 : 0;
    shared = bufs ? yv_pick("shared", 2) : 0;
    bool t = throws([&] { if (bufs) { who = 1; put(wb, b, oa, whole_a, whole_b, scalar, minext, steps, nr, rb, norm, big, lh, rh); who = 0; } put(wa, a, ob, whole_b, whole_a, scalar, minext, steps, nr, ra, norm, big, lh, rh);
                          if (!bufs) put(wb, b, oa, whole_a, whole_b, scalar, minext, steps, nr, rb, norm, big, lh, rh); });
    if (t) return; // too small for the halo: refused (C08).
    if (bufs) {
        apart(wa, 0, {{ob[0], ob[1], ob[2]}}, shared); apart(wb, 1, {{oa[0], oa[1], oa[2]}}, shared);
        if (shared) for (auto* V : VN) {
            MPIBuf *s = buf(wb, V, true, oa), *r = buf(wa, V, false, ob); yv_assert((s != 0) == (r != 0), "a rank sends to a neighbor exactly when the neighbor expects it"); if (!s || !r) continue;
            yv_assert((void*)s->_elems == (void*)r->_elems && (void*)s->_shm_lock == (void*)r->_shm_lock, "a shared message is read where it is written"); yv_cover("shared");
        }
        return;
    }
    idx_t P[3]; for (int d = 0; d < 3; d++) P[d] = yv_i64("P", -2 * M, 4 * M);
    for (auto* V : VN) {
        auto g = wb.sp->get_var(V), ga = wa.sp->get_var(V);
        MPIBuf *s = buf(wa, V, true, ob), *r = buf(wb, V, false, oa);
        yv_assert((s != 0) == (r != 0), "a rank sends to a neighbor exactly when the neighbor expects it");
        idx_t need = wf || md <= norm; bool any = false;
        for (int d = 0; d < 3; d++) {
            if (!g->is_dim_used(DN[d])) { need &= ob[d] == 0; continue; }
            idx_t l = g->get_left_halo_size(DN[d]), h = g->get_right_halo_size(DN[d]), x = wb.sp->wf_shift_pts[d], f = b.f[d], e = f + b.n[d]; any |= ob[d] != 0;
            if (ob[d] > 0) need &= (P[d] >= f - l - x) & (P[d] < f); // A is on the left of B.
            else if (ob[d] < 0) need &= (P[d] >= e) & (P[d] < e + h + x);
            else need &= (P[d] >= f - (b.first[d] ? l : 0)) & (P[d] < e + (b.last[d] ? h : 0));
        }
        need &= any;
        if (!s || !r) { yv_assert(!need, "no buffer is left out that is needed"); continue; }
        idx_t in = 1, same = 1, sect = 1, own = 1, room = 1, mul = 1, cnt = 1, inter = 1; bool alldims = true;
        auto& mb = wa.sp->mpi_interior;
        for (int d = 0; d < 3; d++) {
            if (!g->is_dim_used(DN[d])) { inter &= (P[d] >= mb.bb_begin[d]) & (P[d] < mb.bb_end[d]); alldims &= ob[d] == 0; continue; }
            idx_t sb = s->begin_pt[DN[d]], sl = s->last_pt[DN[d]], b0 = r->begin_pt[DN[d]], l0 = r->last_pt[DN[d]];
            same &= (sb == b0) & (sl == l0) & (s->num_pts[DN[d]] == sl - sb + 1) & (r->num_pts[DN[d]] == l0 - b0 + 1);
            idx_t pin = (P[d] >= b0) & (P[d] <= l0); in &= pin;
            idx_t f = b.f[d], e = f + b.n[d];
            sect &= ob[d] > 0 ? P[d] < f : ob[d] < 0 ? P[d] >= e : (idx_t)((b.first[d] | (P[d] >= f)) & (b.last[d] | (P[d] < e)));
            if (ob[d]) own &= (P[d] >= a.f[d]) & (P[d] < a.f[d] + a.n[d]);
            room &= (sb >= ga->get_first_rank_alloc_index(DN[d])) & (sl <= ga->get_last_rank_alloc_index(DN[d])) & (b0 >= g->get_first_rank_alloc_index(DN[d])) & (l0 <= g->get_last_rank_alloc_index(DN[d]));
            idx_t vl = wa.sp->all_var_map[V]->_get_var_vec_len(DN[d]);
            if (s->vec_copy_ok) mul &= (sb % vl == 0) & ((sl + 1) % vl == 0) & (b0 % vl == 0) & ((l0 + 1) % vl == 0);
            inter &= (P[d] >= mb.bb_begin[d]) & (P[d] < mb.bb_end[d]);
        }
        yv_assert(same, "what is packed for a neighbor is the region the neighbor unpacks");
        yv_assert(s->vec_copy_ok == r->vec_copy_ok, "both sides use the same order of elements");
        yv_assert(mul, "whole-vector copies cover whole vectors");
        yv_assert(need <= in, "every halo point of a neighbor is sent to it");
        yv_assert(in <= sect, "only the halo next to the sender is overwritten");
        yv_assert(in <= own, "a rank sends points of its own part");
        yv_assert(room, "packed and unpacked regions lie in the storage");
        if (alldims) yv_assert((in & inter) == 0, "points that are sent are not in the interior computed during the exchange");
    }
    yv_cover("pair");
}
extern "C" void h_pair_x0() { pair(0, 0, false); }
extern "C" void h_pair_x0_wf() { pair(0, 0, true); }
extern "C" void h_pair_x1() { pair(0, 1, false); }
extern "C" void h_pair_x1_wf() { pair(0, 1, true); }
extern "C" void h_pair_x2() { pair(0, 2, false); }
extern "C" void h_pair_x2_wf() { pair(0, 2, true); }
extern "C" void h_pair_x3() { pair(0, 3, false); }
extern "C" void h_pair_x3_wf() { pair(0, 3, true); }
extern "C" void h_pair_y0() { pair(1, 0, false); }
extern "C" void h_pair_y0_wf() { pair(1, 0, true); }
extern "C" void h_pair_y1() { pair(1, 1, false); }
extern "C" void h_pair_y1_wf() { pair(1, 1, true); }
extern "C" void h_pair_y2() { pair(1, 2, false); }
extern "C" void h_pair_y2_wf() { pair(1, 2, true); }
extern "C" void h_pair_y3() { pair(1, 3, false); }
extern "C" void h_pair_y3_wf() { pair(1, 3, true); }
extern "C" void h_pair_z0() { pair(2, 0, false); }
extern "C" void h_pair_z0_wf() { pair(2, 0, true); }
extern "C" void h_pair_z1() { pair(2, 1, false); }
extern "C" void h_pair_z1_wf() { pair(2, 1, true); }
extern "C" void h_pair_z2() { pair(2, 2, false); }
extern "C" void h_pair_z2_wf() { pair(2, 2, true); }
extern "C" void h_pair_z3() { pair(2, 3, false); }
extern "C" void h_pair_z3_wf() { pair(2, 3, true); }
extern "C" void h_bufs_x() { bufs = true; pair(0, 2, false); }
extern "C" void h_bufs_z() { bufs = true; pair(2, 0, true); }
