// Contracts of the work-partitioning helpers in common_utils.hpp.
#include "yv.h"
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <algorithm>
#include <climits>
#include <cassert>
#include <time.h>
#include "yask_common_api.hpp"
#include "yask_assert.hpp"
#include "common_utils.hpp"
#include "idiv.hpp"
using namespace yask;
#define M31 ((int64_t)1 << 31)

// Every part has size floor or ceil, parts are ordered big-first, sizes sum to num, cumulative sizes are prefix sums.
extern "C" void h_div_equally() {
    idx_t num = yv_i64("num", 0, (int64_t)1 << 40), np = yv_i64("nparts", 1, (int64_t)1 << 20), n = yv_i64("n", 0, (int64_t)1 << 20);
    yv_assume(n < np);
    idx_t sz = div_equally_size_n(num, np, n), cu = div_equally_cumu_size_n(num, np, n), pv = div_equally_cumu_size_n(num, np, n - 1);
    yv_cover("div_equally reached");
    yv_assert(cu - pv == sz, "part size is the difference of consecutive cumulative sizes");
    yv_assert(sz >= 0, "part size not negative");
    idx_t s0 = div_equally_size_n(num, np, (idx_t)0), sl = div_equally_size_n(num, np, np - 1);
    yv_assert((s0 - sz >= 0) & (s0 - sz <= 1) & (sz - sl >= 0), "part sizes differ by at most one, larger first");
    yv_assert(div_equally_cumu_size_n(num, np, np - 1) == num, "cumulative size of the last part is the total");
    yv_assert(div_equally_cumu_size_n(num, np, (idx_t)-1) == 0, "cumulative size before the first part is zero");
}
extern "C" void h_div_equally_vec() {
    idx_t num = yv_i64("num", 0, (int64_t)1 << 40); idx_t np = 1 + yv_pick("nparts", 9);
    auto v = div_equally_all_sizes(num, np);
    yv_assert((idx_t)v.size() == np, "one size per part");
    idx_t sum = 0;
    for (idx_t i = 0; i < np; i++) { yv_assert(v[i] == div_equally_size_n(num, np, i), "vector of sizes agrees with the single-part size"); sum += v[i]; }
    yv_assert(sum == num, "sizes of all parts sum to the total");
    yv_cover("div_equally_all_sizes reached");
}
