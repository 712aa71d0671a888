// C16: finite-difference coefficients are the weights of the interpolating polynomial's derivative.
#include "yv.h"
#include <vector>
#include <string>
#include <cmath>
#include "yask_common_api.hpp"
#include "fd_coeff.hpp"
using namespace yask; using namespace std;
static double mag(double a) { return a < 0 ? -a : a; }
// Weights c approximate the m-th derivative at x0: exact for every polynomial of degree below the number of points.
static void exact(const vector<double>& c, const vector<double>& p, double x0, int m, bool near) {
    int n = (int)p.size();
    yv_assert(c.size() == p.size(), "one coefficient per sample point");
    for (int k = 0; k < n; k++) {
        double s = 0, a = 0, f = 1;
        for (int i = 0; i < n; i++) {
            double w = c[i];
            for (int j = 0; j < k; j++) w = w * (p[i] - x0);
            s = s + w; if (near) a += mag(w);
        }
        for (int j = 2; j <= k; j++) f = f * j;
        if (near) yv_assert(mag(s - (k == m ? f : 0)) <= 1e-7 * (a + 1), "exact for polynomials of lower degree than the number of points");
        else yv_assert(s == (k == m ? f : 0), "exact for polynomials of lower degree than the number of points");
    }
}
// Any distinct points and any evaluation point, as reals.
template <int N, int M> static void sym() {
    vector<double> p(N); double x0 = yv_f64("x0");
    vector<double> q(N); // relative to the evaluation point.
    for (int i = 0; i < N; i++) { q[i] = yv_f64("q"); p[i] = x0 + q[i]; }
    for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) yv_assume(yv_symbolic() ? (q[i] != q[j]) : mag(p[i] - p[j]) > .1);
    vector<double> c(N);
    fd_coeff(&c[0], x0, M, &p[0], N);
    if (!yv_symbolic()) exact(c, p, x0, M, true);
    else for (int i = 0; i < N; i++) { // derivative of Lagrange's basis polynomials.
        vector<double> e(N + 1); double d = 1, f = 1; e[0] = 1; int k = 0;
        for (int j = 0; j < N; j++) if (j != i) { d = d * (q[i] - q[j]); k++; for (int r = k; r > 0; r--) e[r] = e[r] - q[j] * e[r - 1]; }
        for (int j = 2; j <= M; j++) f = f * j;
        yv_assert(c[i] * d == f * e[N - 1 - M], "each weight is the derivative of a basis polynomial");
    }
    yv_cover("fd");
}
extern "C" {
void h_fd_21() { sym<2, 1>(); }
void h_fd_20() { sym<2, 0>(); }
void h_fd_31() { sym<3, 1>(); }
void h_fd_32() { sym<3, 2>(); }
void h_fd_41() { sym<4, 1>(); }
void h_fd_42() { sym<4, 2>(); }
void h_fd_43() { sym<4, 3>(); }
// Evenly spaced forms.
void h_forms() {
    int m = 1 + yv_pick("derivative", 4), r = 1 + yv_pick("radius", 8), form = yv_pick("form", 3);
    vector<double> p, c;
    int lo = form == 1 ? 0 : -r, hi = form == 2 ? 0 : r;
    for (int i = lo; i <= hi; i++) p.push_back(i);
    c = form == 0 ? get_center_fd_coefficients(m, r) : form == 1 ? get_forward_fd_coefficients(m, r) : get_backward_fd_coefficients(m, r);
    yv_assert(c.size() == p.size(), "number of coefficients of the form");
    exact(c, p, 0, m, true);
    if (form == 0) for (int i = 0; i <= r; i++) yv_assert(mag(c[i] - (m % 2 ? -1 : 1) * c[2 * r - i]) <= 1e-9, "centre form is symmetric");
    yv_cover("forms");
}
// Any sample points through the public function (doubles, sampled).
void h_points() {
    int n = 2 + yv_pick("points", 6), m = 1 + yv_pick("derivative", 5);
    vector<double> p; double x0 = yv_i64("x0", -40, 40) * .125;
    for (int i = 0; i < n; i++) { double v = yv_i64("p", -40, 40) * .125; for (double q : p) yv_assume(mag(q - v) > .2); p.push_back(v); }
    exact(get_arbitrary_fd_coefficients(m, x0, p), p, x0, m, true);
    yv_cover("points");
}
void h_refuse() {
    int w = yv_pick("call", 5), z = -yv_pick("neg", 3); bool no = false;
    try {
        switch (w) {
        case 0: get_center_fd_coefficients(1, z); break;
        case 1: get_forward_fd_coefficients(1, z); break;
        case 2: get_backward_fd_coefficients(1, z); break;
        case 3: get_arbitrary_fd_coefficients(z, 0, {0, 1}); break;
        case 4: get_arbitrary_fd_coefficients(1, 0, vector<double>(z ? 1 : 0)); break;
        }
    } catch (yask_exception&) { no = true; }
    yv_assert(no, "an impossible form is refused");
    yv_cover("refused");
}
}
