// Shared by the whole-run checks.
#pragma once
typedef std::vector<int64_t> IV;
static bool same(double a, double b) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); return a == b || std::fabs(a - b) <= TOL * (std::fabs(b) + 1); }
struct KV { yk_var_ptr v; int id; IV lo, hi, first, last; int sp; };
// Visit all index vectors of a var between lo and hi, in index order of its dims.
template <typename F> static void visit(const IV& lo, const IV& hi, F f) {
    IV i = lo; int n = (int)lo.size();
    for (int k = 0; k < n; k++) if (lo[k] > hi[k]) return;
    while (1) {
        f(i);
        int k = n - 1;
        while (k >= 0 && ++i[k] > hi[k]) { i[k] = lo[k]; k--; }
        if (k < 0) return;
    }
}
