// C24: subsets, ordered sets and compact factors.
#include "yv.h"
#include <vector>
#include <map>
#include <set>
#include <string>
#include <functional>
#include <algorithm>
#include <climits>
#include <cassert>
#include <iostream>
#include <sstream>
#include <time.h>
#include "yask_common_api.hpp"
#include "yask_assert.hpp"
#include "common_utils.hpp"
#include "combo.hpp"
#include "tuple.hpp"
using namespace yask; using namespace std;
extern "C" {
// Pascal's rule and the edges determine the binomial coefficients.
void h_choose() {
    int n = yv_pick("n", 30), k = yv_pick("k", 31);
    int c = n_choose_k(n, k);
    if (k == 0 || k == n) yv_assert(c == 1, "one way to choose none or all");
    else if (k > n) yv_assert(c == 0, "no way to choose too many");
    else yv_assert(c == n_choose_k(n - 1, k - 1) + n_choose_k(n - 1, k), "number of ways to choose k of n");
    yv_cover("choose");
}
// The sets are k-element subsets in increasing lexical order, hence all different, and the last is the last possible.
void h_sets() {
    int n = 1 + yv_pick("n", yv_symbolic() ? 8 : 14), k = yv_pick("k", 15);
    yv_assume(k <= n);
    int N = n_choose_k(n, k); vector<int> prev;
    for (int r = 0; r < N; r++) {
        size_t s = n_choose_k_set(n, k, r); vector<int> e;
        for (int b = 0; b < 64; b++) { if ((s >> b) & 1) e.push_back(b); yv_assert(is_bit_set(s, b) == (((s >> b) & 1) != 0), "test of one bit"); }
        yv_assert((int)e.size() == k && (k == 0 || e.back() < n), "each set has k of the n elements");
        yv_assert(r == 0 || prev < e, "the sets are all different");
        prev = e;
    }
    yv_cover("sets");
}
void h_bits() {
    uint64_t s = yv_symbolic() ? (uint64_t[]){0, ~0ull, 0x5555555555555555ull, 0x8000000000000001ull}[yv_pick("pattern", 4)] : (uint64_t)yv_i64("set", LLONG_MIN, LLONG_MAX); int i = yv_pick("bit", 64), j = yv_pick("other", 64);
    uint64_t a = s, b = s; set_bit(a, i); clear_bit(b, i);
    yv_assert(is_bit_set(a, i) && !is_bit_set(b, i), "setting and clearing a bit");
    if (i != j) yv_assert((is_bit_set(a, j) == is_bit_set(s, j)) & (is_bit_set(b, j) == is_bit_set(s, j)), "other bits are kept");
    yv_cover("bits");
}
// Any history of an ordered set agrees with a plain list.
void h_vset() {
    vector_set<int> v; vector<int> m; int n = yv_symbolic() ? 3 : 1 + yv_pick("ops", 12), R = yv_symbolic() ? 3 : 7;
    for (int i = 0, k = yv_symbolic() ? yv_pick("first", 4) : 0; i < k; i++) { v.insert(i); m.push_back(i); }
    for (int o = 0; o < n; o++) {
        int op = yv_pick("op", 5), x = yv_pick("x", R);
        auto at = find(m.begin(), m.end(), x);
        switch (op) {
        case 0: v.insert(x); if (at == m.end()) m.push_back(x); break;
        case 1: v.push_back(x); if (at == m.end()) m.push_back(x); break;
        case 2: v.erase(x); if (at != m.end()) m.erase(at); break;
        case 3: if (m.size()) { int i = x % m.size(), j = yv_pick("j", R) % m.size(); v.swap(i, j); swap(m[i], m[j]); } break;
        case 4: if (x == 0) { v.clear(); m.clear(); } break;
        }
        yv_assert(v.size() == m.size() && v.empty() == m.empty(), "an ordered set has the elements that were inserted and not erased");
        bool ok = true; size_t i = 0;
        for (auto& e : v) { ok &= i < m.size() && e == m[i] && v[i] == e && v.at(i) == e; i++; }
        yv_assert(ok && i == m.size(), "elements keep the order of insertion");
        for (int e = 0; e < R; e++) ok &= v.count(e) == (size_t)count(m.begin(), m.end(), e);
        yv_assert(ok, "membership in an ordered set");
        yv_assert(m.empty() || (v.front() == m.front() && v.back() == m.back()), "first and last element");
    }
    yv_cover("history");
}
}
// Compact factors against every possible choice.
template <typename T> static void factors(int K, int N, const vector<int>& pre) {
    Tuple<T> t; static const char* nm[] = {"a", "b", "c", "d"};
    for (int j = 0; j < K; j++) t.add_dim_back(nm[j], pre[j]);
    auto r = t.get_compact_factors(N);
    yv_assert(r.get_num_dims() == K, "one factor per dimension");
    T p = 1, mx = 0; bool pos = true, kept = true, names = true;
    for (int j = 0; j < K; j++) { p *= r[j]; mx = max<T>(mx, r[j]); pos &= r[j] > 0; kept &= pre[j] <= 0 || r[j] == pre[j]; names &= r.get_dim_name(j) == nm[j]; }
    yv_assert(pos && p == N, "the product of the factors is the requested number");
    yv_assert(names, "dimensions are kept in order");
    // Best of all choices, with the given values and without.
    int best[2] = {0, 0}; vector<int> f(K, 1);
    function<void(int, int, int, bool)> rec = [&](int j, int left, int m, bool k) {
        if (j == K) { if (left == 1) for (int q = 0; q < (k ? 2 : 1); q++) if (!best[q] || m < best[q]) best[q] = m; return; }
        for (int x = 1; x <= left; x++) if (left % x == 0) rec(j + 1, left / x, max(m, x), k && (pre[j] <= 0 || pre[j] == x));
    };
    rec(0, N, 0, true);
    yv_assert(!best[1] || kept, "requested factors are kept when that is possible");
    yv_assert(mx == (best[1] ? best[1] : best[0]), "the largest factor is as small as possible");
}
extern "C" {
void h_factors() {
    int K = 1 + yv_pick("dims", 4), N = 1 + (int)yv_i64("n", 0, 95); vector<int> pre(4);
    for (int j = 0; j < K; j++) if (yv_pick("preset", 3) == 0) pre[j] = 1 + (int)yv_i64("value", 0, yv_pick("small", 2) ? 3 : 30);
    yv_pick("int", 2) ? factors<int>(K, N, pre) : factors<idx_t>(K, N, pre);
    yv_cover("factors");
}
void h_factors_sym() { // all small cases.
    int K = 1 + yv_pick("dims", 3), N = 1 + yv_pick("n", 8); vector<int> pre(4);
    for (int j = 0; j < K; j++) pre[j] = yv_pick("preset", 4);
    factors<idx_t>(K, N, pre);
    yv_cover("factors");
}
}
