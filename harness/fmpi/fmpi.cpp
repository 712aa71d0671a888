#include "mpi.h"
#include "fmpi.h"
#include <atomic>
#include <vector>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <exception>
#include <time.h>
namespace {
const int MR = 16, MQ = 4096; const size_t ARENA = (size_t)1 << 30;
struct Msg { int tag, delay; int64_t size; size_t ofs; };
struct Queue { std::atomic<int> n; Msg m[MQ]; };
struct Coll { std::atomic<int> in, gen; int64_t buf[4096]; int64_t red[64]; std::atomic<int64_t> wsz[MR]; std::atomic<size_t> wofs[MR]; };
struct Shared { std::atomic<long> progress; std::atomic<int> fail; char why[400]; std::atomic<long> sent, bytes; Coll world, node[MR]; Queue q[MR][MR]; std::atomic<size_t> top; };
Shared* S; char* A; int R, NODE, ME, DELAY; unsigned rng;
struct Req { bool send, done; void* buf; int64_t size; int peer, tag, ticket; size_t ofs; int polls; };
std::vector<Req> reqs;
unsigned rnd() { rng = rng * 1664525u + 1013904223u; return rng >> 8; }
int node_of(int r) { return r / NODE; }
int nsize(int nd) { int s = R - nd * NODE; return s < NODE ? s : NODE; }
Coll& coll(MPI_Comm c) { return c == 1 ? S->world : S->node[node_of(ME)]; }
int csize(MPI_Comm c) { return c == 1 ? R : nsize(node_of(ME)); }
int crank(MPI_Comm c) { return c == 1 ? ME : ME - node_of(ME) * NODE; }
// Waiting: nothing is delivered anywhere for a long time in a deadlock.
void check() {
    static long last = -1, polls; static time_t since; long p = S->progress;
    if (S->fail) _exit(3);
    if (p != last) { last = p; since = time(0); } else if ((++polls & 1023) == 0 && time(0) - since > 40) fmpi_fail("the ranks do not finish: a message is awaited for ever");
    sched_yield();
}
void barrier(MPI_Comm c) { Coll& b = coll(c); int g = b.gen; S->progress++; if (++b.in == csize(c)) { b.in = 0; b.gen++; } else while (b.gen == g) check(); }
size_t alloc(size_t n) { size_t o = S->top.fetch_add((n + 4095) / 4096 * 4096); if (o + n > ARENA) fmpi_fail("the message memory of the check is full"); return o; }
bool poll(Req& r, MPI_Status* st, bool wait) {
    if (r.done) return true;
    if (r.send) {
        if (!wait && r.polls-- > 0) return false;
        if (memcmp(A + r.ofs, r.buf, r.size)) fmpi_fail("a send buffer was changed before its send had finished");
        r.done = true; S->progress++; if (st) { st->MPI_SOURCE = ME; st->MPI_TAG = r.tag; st->count = 0; }
        return true;
    }
    Queue& q = S->q[r.peer][ME]; int seen = 0; Msg* m = nullptr;
    int n = q.n.load(std::memory_order_acquire);
    for (int i = 0; i < n; i++) if (q.m[i].tag == r.tag && seen++ == r.ticket) { m = &q.m[i]; break; }
    if (!m) return false;
    if (!wait && r.polls++ < m->delay) return false;
    if (m->size > r.size) fmpi_fail("a message is longer than the buffer posted for it");
    memcpy(r.buf, A + m->ofs, m->size);
    r.done = true; S->progress++; if (st) { st->MPI_SOURCE = r.peer; st->MPI_TAG = r.tag; st->count = (int)m->size; }
    return true;
}
int esize(MPI_Datatype t) { return t; }
}
void fmpi_fail(const std::string& why) {
    int z = 0;
    if (S->fail.compare_exchange_strong(z, 1)) snprintf(S->why, sizeof S->why, "rank %d: %s", ME, why.c_str());
    _exit(3);
}
extern void (*yv_child_fail)(const char*);
static void on_assert(const char* w) { fmpi_fail(w); }
static void on_alarm(int) { fmpi_fail("the ranks do not finish: a lock is awaited for ever"); }
FmpiResult fmpi_run(int n, int node, unsigned seed, int delay, std::function<void(int)> f) {
    if (!S) {
        S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        A = (char*)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    } else { size_t t = S->top; madvise(A, t < ARENA ? t : ARENA, MADV_REMOVE); }
    S->fail = 0; S->why[0] = 0; S->sent = 0; S->bytes = 0; S->top = 0;
    for (int i = -1; i < MR; i++) { Coll& c = i < 0 ? S->world : S->node[i]; c.in = 0; c.gen = 0; }
    for (int i = 0; i < MR; i++) for (int j = 0; j < MR; j++) S->q[i][j].n = 0;
    R = n; NODE = node; DELAY = delay;
    fflush(stdout); fflush(stderr);
    std::vector<pid_t> kids; alarm(90);
    for (int r = 0; r < n; r++) {
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL); ME = r; yv_child_fail = on_assert; rng = seed * 7919 + r * 104729 + 1;
            for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) signal(s, SIG_DFL);
            signal(SIGALRM, on_alarm); alarm(60);
            try { f(r); } catch (std::exception& e) { fmpi_fail(std::string("exception: ") + e.what()); } catch (...) { fmpi_fail("exception"); }
            for (auto& q : reqs) if (!q.done) fmpi_fail(q.send ? "a send is never completed" : "a receive is never completed");
            barrier(MPI_COMM_WORLD);
            _exit(0);
        }
        kids.push_back(p);
    }
    bool ok = true; int sig = 0;
    for (size_t i = 0; i < kids.size(); i++) {
        int st; pid_t p = waitpid(-1, &st, 0);
        (void)p;
        if (WIFSIGNALED(st)) { sig = WTERMSIG(st); S->fail = 1; ok = false; }
        else if (WEXITSTATUS(st)) { ok = false; S->fail = 1; }
    }
    FmpiResult r; r.ok = ok; r.why = ok ? "" : S->why[0] ? S->why : "a rank ended with signal " + std::to_string(sig); r.sent = S->sent; r.bytes = S->bytes;
    return r;
}
extern "C" {
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Init_thread(int*, char***, int, int* p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Abort(MPI_Comm, int) { fmpi_fail("MPI_Abort"); return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = crank(c); return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { *n = csize(c); return 0; }
int MPI_Comm_group(MPI_Comm c, MPI_Group* g) { *g = c; return 0; }
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm* c) { *c = 2; barrier(MPI_COMM_WORLD); return 0; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int* ra, MPI_Group b, int* rb) {
    for (int i = 0; i < n; i++) { int w = a == 1 ? ra[i] : ra[i] + node_of(ME) * NODE; rb[i] = b == 1 ? w : node_of(w) == node_of(ME) ? w - node_of(ME) * NODE : MPI_UNDEFINED; }
    return 0;
}
int MPI_Barrier(MPI_Comm c) { if (c == MPI_COMM_NULL) fmpi_fail("barrier on no communicator"); barrier(c); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
    Coll& x = coll(c); size_t k = (size_t)n * esize(t); if (k > sizeof x.buf) fmpi_fail("broadcast too long for the check");
    if (crank(c) == root) memcpy(x.buf, b, k);
    barrier(c);
    if (crank(c) != root) memcpy(b, x.buf, k);
    barrier(c);
    return 0;
}
int MPI_Allreduce(const void* a, void* b, int n, MPI_Datatype, MPI_Op op, MPI_Comm c) {
    Coll& x = coll(c); if (n != 1) fmpi_fail("reduction of more than one value");
    x.red[crank(c)] = *(const int64_t*)a; barrier(c);
    int64_t r = x.red[0]; for (int i = 1; i < csize(c); i++) { int64_t v = x.red[i]; r = op == MPI_SUM ? r + v : op == MPI_MIN ? (v < r ? v : r) : (v > r ? v : r); }
    *(int64_t*)b = r; barrier(c);
    return 0;
}
int MPI_Isend(const void* b, int n, MPI_Datatype, int dst, int tag, MPI_Comm c, MPI_Request* rq) {
    if (c != MPI_COMM_WORLD || dst < 0 || dst >= R) fmpi_fail("send to a rank that does not exist");
    size_t o = alloc(n); memcpy(A + o, b, n);
    Queue& q = S->q[ME][dst]; int i = q.n.load(); if (i >= MQ) fmpi_fail("too many messages for the check");
    q.m[i] = Msg{tag, DELAY ? (int)(rnd() % (DELAY + 1)) : 0, n, o}; q.n.store(i + 1, std::memory_order_release);
    S->sent++; S->bytes += n;
    reqs.push_back(Req{true, false, (void*)b, n, dst, tag, 0, o, DELAY ? (int)(rnd() % (DELAY + 1)) : 0}); *rq = (int)reqs.size();
    return 0;
}
int MPI_Irecv(void* b, int n, MPI_Datatype, int src, int tag, MPI_Comm c, MPI_Request* rq) {
    if (c != MPI_COMM_WORLD || src < 0 || src >= R) fmpi_fail("receive from a rank that does not exist");
    int k = 0; for (auto& r : reqs) { if (!r.send && r.peer == src && r.tag == tag) k++; if (!r.send && !r.done && r.buf == b) fmpi_fail("two receives use one buffer at the same time"); }
    memset(b, 0x7b, n); // the content is undefined until the receive has finished.
    reqs.push_back(Req{false, false, b, n, src, tag, k, 0, 0}); *rq = (int)reqs.size();
    return 0;
}
int MPI_Wait(MPI_Request* r, MPI_Status* st) {
    if (*r == MPI_REQUEST_NULL) { if (st) { st->count = 0; st->MPI_SOURCE = st->MPI_TAG = -1; } return 0; }
    while (!poll(reqs.at(*r - 1), st, true)) check();
    *r = MPI_REQUEST_NULL; return 0;
}
int MPI_Test(MPI_Request* r, int* f, MPI_Status* st) {
    *f = *r == MPI_REQUEST_NULL ? 1 : poll(reqs.at(*r - 1), st, false);
    if (*f) *r = MPI_REQUEST_NULL;
    return 0;
}
int MPI_Testsome(int n, MPI_Request* r, int* k, int* ix, MPI_Status* st) {
    int c = 0; bool any = false;
    for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { any = true; if (poll(reqs.at(r[i] - 1), st + c, false)) { r[i] = MPI_REQUEST_NULL; ix[c++] = i; } }
    *k = any ? c : MPI_UNDEFINED;
    return 0;
}
int MPI_Get_count(const MPI_Status* s, MPI_Datatype, int* n) { *n = s->count; return 0; }
int MPI_Info_create(MPI_Info* i) { *i = 1; return 0; }
int MPI_Info_set(MPI_Info, const char*, const char*) { return 0; }
int MPI_Info_free(MPI_Info* i) { *i = 0; return 0; }
int MPI_Win_allocate_shared(MPI_Aint n, int, MPI_Info, MPI_Comm c, void* p, MPI_Win* w) {
    Coll& x = coll(c); int m = crank(c);
    x.wofs[m] = alloc(n + 64); x.wsz[m] = n; *(void**)p = A + x.wofs[m]; *w = c; barrier(c);
    return 0;
}
int MPI_Win_shared_query(MPI_Win w, int r, MPI_Aint* n, int* d, void* p) { Coll& x = coll(w); if (r == MPI_PROC_NULL) for (r = 0; r < csize(w) - 1 && !x.wsz[r]; r++); if (r < 0 || r >= csize(w)) fmpi_fail("window of a rank that does not exist"); *n = x.wsz[r]; *d = 1; *(void**)p = A + x.wofs[r]; return 0; }
int MPI_Win_lock_all(int, MPI_Win) { return 0; }
int MPI_Win_unlock_all(MPI_Win) { return 0; }
int MPI_Win_free(MPI_Win* w) { barrier(*w); *w = 0; return 0; }
}
