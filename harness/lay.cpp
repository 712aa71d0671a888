// C03: the generated 1-D layouts and Indices/Tuple (un)layout are mutually
// inverse bijections with the stride order their names/flags promise.
#include "yask_stencil.hpp"
#include "tuple.hpp"
#include "yv.h"
using namespace yask;
#define MXS(n) ((n) > 4 ? 256 : (n) > 3 ? 512 : 4096)

// One layout class whose name lists the dims outer..inner (1-based digits).
template <typename L, int... P> static void one() {
    constexpr int N = sizeof...(P);
    constexpr int ord[N] { P... };
    static_assert(L::get_num_sizes() == N, "dims");
    Indices sz(idx_t(1), N), j(idx_t(0), N);
    const char* sn[] = { "s0", "s1", "s2", "s3", "s4" };
    const char* jn[] = { "j0", "j1", "j2", "j3", "j4" };
    for (int i = 0; i < N; i++) {
        sz[i] = yv_i64(sn[i], 1, MXS(N));
        j[i] = yv_i64(jn[i], 0, 4095);
        yv_assume(j[i] < sz[i]);
    }
    L l(sz);
    // Spec: Horner form in the order given by the name.
    idx_t want = 0;
    for (int i = 0; i < N; i++)
        want = want * sz[ord[i] - 1] + j[ord[i] - 1];
    idx_t a = l.layout(j);
    yv_assert(a == want, "layout is the linearization its name specifies");
    yv_cover("layout");
}
// Lemma (proved by h_lemma_div): Euclidean division is unique.
static void lemma_div(idx_t a, idx_t p, idx_t q, idx_t r) {
    yv_assert((a == q * p + r) & (r >= 0) & (r < p) & (q >= 0), "lemma_div pre-condition");
    yv_assume((a / p == q) & (a % p == r));
}
extern "C" void h_lemma_div() {
    const idx_t M = idx_t(1) << 40;
    idx_t p = yv_i64("p", 1, M), q = yv_i64("q", 0, 1 << 20), r = yv_i64("r", 0, M);
    yv_assume(r < p);
    idx_t a = q * p + r;
    yv_assert(a / p == q, "quotient");
    yv_assert(a % p == r, "remainder");
    yv_cover("lemma_div");
}
// Inverse and range, with the dims of a class fixed: proved for arbitrary sizes.
template <typename L, int... P> static void inv() {
    constexpr int N = sizeof...(P);
    constexpr int ord[N] { P... };
    Indices sz(idx_t(1), N), j(idx_t(0), N);
    const char* sn[] = { "s0", "s1", "s2", "s3", "s4" };
    const char* jn[] = { "j0", "j1", "j2", "j3", "j4" };
    for (int i = 0; i < N; i++) {
        sz[i] = yv_i64(sn[i], 1, MXS(N));
        j[i] = yv_i64(jn[i], 0, 4095);
        yv_assume(j[i] < sz[i]);
    }
    L l(sz);
    idx_t a = l.layout(j);
    yv_assert(a >= 0, "layout is not negative");
    // Range by levels (each step is one linear fact times one size).
    idx_t lin = 0, cap = 1;
    for (int i = 0; i < N; i++) {
        idx_t d = ord[i] - 1;
        idx_t room = cap - 1 - lin;
        yv_assume(room >= 0);                // established by the previous level.
        idx_t nl = lin * sz[d] + j[d], nc = cap * sz[d];
        yv_assert(nc - 1 - nl == room * sz[d] + (sz[d] - 1 - j[d]), "range identity");
        yv_assert(room * sz[d] >= 0, "range product");
        lin = nl; cap = nc;
    }
    // Ghost: the quotients that unlayout() relies on.
    idx_t suf = 0, Q = 1;
    for (int k = N - 1; k > 0; k--) {
        idx_t d = ord[k] - 1;
        suf = j[d] * Q + suf;
        Q = Q * sz[d];
        idx_t pre = 0;
        for (int i = 0; i < k; i++)
            pre = pre * sz[ord[i] - 1] + j[ord[i] - 1];
        yv_assert((suf >= 0) & (suf < Q), "suffix offset is within its block");
        lemma_div(a, Q, pre, suf);
        if (k > 1) {
            idx_t e = ord[k - 1] - 1, pre2 = 0;
            for (int i = 0; i < k - 1; i++)
                pre2 = pre2 * sz[ord[i] - 1] + j[ord[i] - 1];
            lemma_div(pre, sz[e], pre2, j[e]);
        }
    }
    Indices b = l.unlayout(a);
    yv_assert(b.get_num_dims() == N, "unlayout has the same dims");
    for (int i = 0; i < N; i++)
        yv_assert(b[i] == j[i], "unlayout inverts layout");
    yv_cover("unlayout");
}
// The macro form equals the class form.
template <int N, typename L, typename F> static void macro(L l, F f) {
    Indices sz(idx_t(1), N), j(idx_t(0), N);
    const char* sn[] = { "s0", "s1", "s2", "s3", "s4" };
    const char* jn[] = { "j0", "j1", "j2", "j3", "j4" };
    idx_t s[5], x[5];
    for (int i = 0; i < N; i++) {
        s[i] = sz[i] = yv_i64(sn[i], 1, MXS(N));
        x[i] = j[i] = yv_i64(jn[i], 0, 4095);
        yv_assume(j[i] < sz[i]);
    }
    l.set_sizes(sz);
    yv_assert(f(x, s) == l.layout(j), "layout macro equals layout class");
    yv_cover("macro");
}
#include "lay_list.inc"

// ---- Indices and Tuple: arbitrary sizes.
template <int N> struct Sp {
    Indices sz, j; idx_t s[4], x[4]; bool fi; int ord[4]; idx_t a, cap;
    Sp() : sz(idx_t(1), N), j(idx_t(0), N) {
        const char* sn[] = { "s0", "s1", "s2", "s3", "s4" };
        const char* jn[] = { "j0", "j1", "j2", "j3", "j4" };
        fi = yv_pick("first_inner", 2);
        for (int i = 0; i < N; i++) {
            s[i] = sz[i] = yv_i64(sn[i], 1, MXS(N));
            x[i] = j[i] = yv_i64(jn[i], 0, 4095);
            yv_assume(x[i] < s[i]);
            ord[i] = fi ? N - 1 - i : i;     // outer..inner
        }
        a = 0; cap = 1;
        for (int i = 0; i < N; i++) {
            a = a * s[ord[i]] + x[ord[i]];
            cap = cap * s[ord[i]];
        }
        // Ghost facts: block bounds and quotients.
        idx_t suf = 0, Q = 1;
        for (int k = N - 1; k >= 0; k--) {
            int d = ord[k];
            idx_t nsuf = x[d] * Q + suf, nQ = Q * s[d];
            yv_assert((Q >= 1) & (suf >= 0) & (suf < Q), "suffix offset is within its block");
            yv_assert((nsuf >= 0) & (nsuf < nQ) & (nQ <= cap), "offset so far is within the product so far");
            idx_t pre = 0;
            for (int i = 0; i <= k; i++)
                pre = pre * s[ord[i]] + x[ord[i]];
            lemma_div(a, Q, pre, suf);
            if (k > 0) {
                idx_t pre2 = 0;
                for (int i = 0; i < k; i++)
                    pre2 = pre2 * s[ord[i]] + x[ord[i]];
                lemma_div(pre, s[d], pre2, x[d]);
            } else
                lemma_div(x[d], s[d], 0, x[d]);
            suf = nsuf; Q = nQ;
        }
    }
};
static const char* NM[] = { "x", "y", "z", "w" };
template <int N> static IdxTuple tup(const idx_t* v, bool fi) {
    IdxTuple t;
    for (int i = 0; i < N; i++) t.add_dim_back(NM[i], v[i]);
    t.set_first_inner(fi);
    return t;
}
template <int N> static void ind() {
    Sp<N> p;
    Indices u = p.sz.unlayout(p.fi, size_t(p.a));
    yv_assert(u.get_num_dims() == N, "Indices::unlayout keeps the dims");
    for (int i = 0; i < N; i++)
        yv_assert(u[i] == p.x[i], "Indices::unlayout returns the indices at this offset");
    yv_cover("indices unlayout");
}
template <int N> static void tlay() {
    Sp<N> p;
    IdxTuple t = tup<N>(p.s, p.fi), o = tup<N>(p.x, p.fi);
    size_t l = t.layout(o);
    yv_assert(idx_t(l) == p.a, "Tuple::layout is the linearization in its declared order");
    IdxTuple u = t.unlayout(size_t(p.a));
    yv_assert(u.get_num_dims() == N, "Tuple::unlayout keeps the dims");
    for (int i = 0; i < N; i++)
        yv_assert(u[i] == p.x[i], "Tuple::unlayout inverts layout");
    yv_cover("tuple layout");
}
// Non-strict layout: dims missing from the offsets count as zero, order is free.
template <int N> static void tlay2() {
    Sp<N> p;
    int miss = yv_pick("missing", N + 1);
    IdxTuple t = tup<N>(p.s, p.fi), o;
    for (int i = N - 1; i >= 0; i--)
        if (i != miss) o.add_dim_back(NM[i], p.x[i]);
        else yv_assume(p.x[i] == 0);
    o.add_dim_back("extra", 7);
    yv_assert(idx_t(t.layout(o, false)) == p.a, "non-strict layout ignores order, treats missing dims as zero");
    yv_cover("non-strict layout");
}
template <int N> static void nxt() {
    Sp<N> p;
    bool last = p.a == p.cap - 1;
    Indices u(p.j);
    p.sz.next_index(p.fi, u);
    IdxTuple t = tup<N>(p.s, p.fi), o = tup<N>(p.x, p.fi);
    t.next_index(o);
    idx_t b = 0;
    for (int i = 0; i < N; i++) {
        b = b * p.s[p.ord[i]] + u[p.ord[i]];
        yv_assert(u[i] >= 0 & u[i] < p.s[i], "next index is valid");
        yv_assert(o[i] == u[i], "Tuple and Indices agree on the next index");
    }
    yv_assert((b == p.a + 1) | (b == 0), "next index is the next offset, or wraps to zero");
    yv_assert((b == 0) == last, "wraps to zero after the last index only");
    yv_cover("next_index");
}
extern "C" {
void h_indices1() { ind<1>(); }
void h_indices2() { ind<2>(); }
void h_indices3() { ind<3>(); }
void h_indices4() { ind<4>(); }
void h_tuple1() { tlay<1>(); }
void h_tuple2() { tlay<2>(); }
void h_tuple3() { tlay<3>(); }
void h_tuple_nonstrict2() { tlay2<2>(); }
void h_tuple_nonstrict3() { tlay2<3>(); }
void h_next1() { nxt<1>(); }
void h_next2() { nxt<2>(); }
void h_next3() { nxt<3>(); }
}

// ---- Element-wise operators, reductions, comparisons.
static void pair(Indices& a, Indices& b, int n) {
    const char* an[] = { "a0", "a1", "a2" };
    const char* bn[] = { "b0", "b1", "b2" };
    for (int i = 0; i < n; i++) {
        a[i] = yv_i64(an[i], -1000000, 1000000);
        b[i] = yv_i64(bn[i], -1000000, 1000000);
    }
}
static idx_t mn(idx_t a, idx_t b) { return a < b ? a : b; }
static idx_t mx(idx_t a, idx_t b) { return a < b ? b : a; }
extern "C" void h_elementwise() {
    const int N = 3;
    Indices a(idx_t(0), N), b(idx_t(0), N);
    pair(a, b, N);
    idx_t c = yv_i64("c", -1000000, 1000000);
    IdxTuple ta, tb;
    for (int i = 0; i < N; i++) { ta.add_dim_back(NM[i], a[i]); tb.add_dim_back(NM[i], b[i]); }
    Indices r1 = a.add_elements(b), r2 = a.sub_elements(b), r3 = a.mul_elements(b), r4 = a.min_elements(b), r5 = a.max_elements(b);
    Indices q1 = a.add_const(c), q2 = a.sub_const(c), q3 = a.mul_const(c), q4 = a.min_const(c), q5 = a.max_const(c);
    IdxTuple t1 = ta.add_elements(tb), t2 = ta.sub_elements(tb), t3 = ta.mult_elements(tb), t4 = ta.min_elements(tb), t5 = ta.max_elements(tb);
    IdxTuple u1 = ta.add_elements(c), u2 = ta.sub_elements(c), u3 = ta.mult_elements(c), u4 = ta.min_elements(c), u5 = ta.max_elements(c);
    IdxTuple n = ta.neg_elements(), ab = ta.abs_elements();
    for (int i = 0; i < N; i++) {
        idx_t x = a[i], y = b[i];
        yv_assert((r1[i] == x + y) & (r2[i] == x - y) & (r3[i] == x * y) & (r4[i] == mn(x, y)) & (r5[i] == mx(x, y)), "Indices element-wise ops");
        yv_assert((q1[i] == x + c) & (q2[i] == x - c) & (q3[i] == x * c) & (q4[i] == mn(x, c)) & (q5[i] == mx(x, c)), "Indices ops with a constant");
        yv_assert((t1[i] == x + y) & (t2[i] == x - y) & (t3[i] == x * y) & (t4[i] == mn(x, y)) & (t5[i] == mx(x, y)), "Tuple element-wise ops");
        yv_assert((u1[i] == x + c) & (u2[i] == x - c) & (u3[i] == x * c) & (u4[i] == mn(x, c)) & (u5[i] == mx(x, c)), "Tuple ops with a constant");
        yv_assert((n[i] == -x) & (ab[i] == mx(x, -x)), "Tuple negate and abs");
    }
    yv_assert(a.sum() == a[0] + a[1] + a[2] && ta.sum() == a[0] + a[1] + a[2], "sum");
    yv_assert(ta.max() == mx(mx(a[0], a[1]), a[2]) && ta.min() == mn(mn(a[0], a[1]), a[2]), "min and max");
    yv_cover("element-wise");
}
extern "C" void h_div_elements() {
    const int N = 3;
    Indices a(idx_t(0), N), b(idx_t(0), N);
    pair(a, b, N);
    for (int i = 0; i < N; i++) yv_assume((a[i] >= 0) & (b[i] > 0));
    Indices d = a.div_elements(b);
    for (int i = 0; i < N; i++)
        yv_assert((d[i] * b[i] <= a[i]) & (a[i] < d[i] * b[i] + b[i]), "div_elements divides element by element");
    yv_cover("div");
}
extern "C" void h_product() {
    Indices a(idx_t(0), 3), b(idx_t(0), 3);
    pair(a, b, 3);
    IdxTuple ta;
    for (int i = 0; i < 3; i++) ta.add_dim_back(NM[i], a[i]);
    yv_assert(a.product() == a[0] * a[1] * a[2], "Indices product");
    yv_assert(ta.product() == a[0] * a[1] * a[2], "Tuple product");
    yv_cover("product");
}
// Comparisons are the lexicographic order, on both classes.
extern "C" void h_compare() {
    int na = 1 + yv_pick("na", 3), nb = 1 + yv_pick("nb", 3);
    Indices a(idx_t(0), na), b(idx_t(0), nb);
    IdxTuple ta, tb;
    const char* an[] = { "a0", "a1", "a2" };
    const char* bn[] = { "b0", "b1", "b2" };
    for (int i = 0; i < na; i++) { a[i] = yv_i64(an[i], -1000, 1000); ta.add_dim_back(NM[i], a[i]); }
    for (int i = 0; i < nb; i++) { b[i] = yv_i64(bn[i], -1000, 1000); tb.add_dim_back(NM[i], b[i]); }
    bool lt = false, eq = na == nb;
    if (na != nb) lt = na < nb;
    else {
        for (int i = na - 1; i >= 0; i--) { lt = (a[i] < b[i]) | ((a[i] == b[i]) & lt); eq = eq & (a[i] == b[i]); }
    }
    yv_assert((a == b) == eq, "Indices equality");
    yv_assert((a != b) == !eq, "Indices inequality");
    yv_assert((a < b) == lt, "Indices less-than is lexicographic");
    yv_assert((a > b) == (!lt & !eq), "Indices greater-than is lexicographic");
    yv_assert((ta == tb) == eq, "Tuple equality");
    yv_assert((ta < tb) == lt, "Tuple less-than is lexicographic");
    yv_assert((ta != tb) == !eq, "Tuple inequality");
    yv_assert((ta > tb) == (!lt & !eq), "Tuple greater-than");
    yv_assert((ta <= tb) == (lt | eq), "Tuple less-or-equal");
    yv_assert((ta >= tb) == !lt, "Tuple greater-or-equal");
    yv_cover("compare");
}
// ---- Visits: exhaustive over the listed sizes.
template <int N> static void visit() {
    Indices sz(idx_t(1), N);
    idx_t s[3], tot = 1;
    const char* sn[] = { "s0", "s1", "s2" };
    for (int i = 0; i < N; i++) { s[i] = sz[i] = 1 + yv_pick(sn[i], 4); tot *= s[i]; }
    bool fi = yv_pick("first_inner", 2);
    IdxTuple t = tup<N>(s, fi);
    idx_t n = 0, m = 0, stop = yv_pick("stop", 3) == 0 ? tot / 2 : -1;
    bool ok = true, tok = true;
    bool r1 = sz.visit_all_points(fi, [&](const Indices& p, size_t k) {
        idx_t w = 0;
        for (int i = 0; i < N; i++) { int d = fi ? N - 1 - i : i; w = w * s[d] + p[d]; ok = ok & (p[d] >= 0) & (p[d] < s[d]); }
        ok = ok & (w == n) & (idx_t(k) == n);
        return n++ != stop;
    });
    bool r2 = t.visit_all_points([&](const IdxTuple& p, size_t k, int thr) {
        idx_t w = 0;
        for (int i = 0; i < N; i++) { int d = fi ? N - 1 - i : i; w = w * s[d] + p[d]; tok = tok & (p[d] >= 0) & (p[d] < s[d]); }
        tok = tok & (w == m) & (idx_t(k) == m) & (thr == 0);
        return m++ != stop;
    });
    idx_t want = stop >= 0 ? stop + 1 : tot;
    yv_assert(ok & (n == want), "Indices::visit_all_points visits each point once, in order, until told to stop");
    yv_assert(tok & (m == want), "Tuple::visit_all_points visits each point once, in order, until told to stop");
    yv_assert((r1 == (stop < 0)) & (r2 == (stop < 0)), "visit returns false exactly when it was stopped");
    yv_cover("visit");
}
extern "C" void h_visit1() { visit<1>(); }
extern "C" void h_visit2() { visit<2>(); }
extern "C" void h_visit3() { visit<3>(); }
