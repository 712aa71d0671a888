// Solutions that between them use the features of the stencil language.
#include "yask_compiler_api.hpp"
using namespace std;
using namespace yask;
namespace {
class B3 : public yc_solution_base {
protected:
    MAKE_STEP_INDEX(t); MAKE_DOMAIN_INDEX(x); MAKE_DOMAIN_INDEX(y); MAKE_DOMAIN_INDEX(z); MAKE_MISC_INDEX(a); MAKE_MISC_INDEX(b);
public:
    B3(const string& n) : yc_solution_base(n) {}
};
// Vars of every shape; two stages; asymmetric accesses; several outputs per misc index.
class Mix : public B3 {
    MAKE_VAR(A, t, x, y, z); MAKE_VAR(C, t, x, y, z); MAKE_VAR(P, x, y); MAKE_VAR(Q, z, x); MAKE_VAR(R, y); MAKE_VAR(K, z, y, x); MAKE_VAR(M, t, a, x, y, z); MAKE_VAR(W, b, x, a); MAKE_SCALAR_VAR(S); MAKE_VAR(J, t); MAKE_VAR(U, t, y, z);
public:
    Mix() : B3("e_mix") {}
    virtual void define() {
        A(t+1, x, y, z) EQUALS A(t, x, y, z) + A(t, x-2, y+1, z) - 2 * A(t, x+3, y, z-1) + P(x-1, y+2) * R(y-1) - Q(z+1, x) * S + M(t, 1, x, y, z-2) + U(t, y-1, z+1);
        C(t+1, x, y, z) EQUALS (A(t+1, x-1, y, z+2) - A(t+1, x, y-3, z)) * 0.5 - (C(t, x, y, z) - K(z-1, y+1, x)) - (-C(t, x+1, y+1, z+1)) + J(t) + W(2, x+1, -1);
        M(t+1, 1, x, y, z) EQUALS M(t, 2, x, y, z+1) - M(t, 1, x-1, y, z) + W(1, x, 0);
        M(t+1, 2, x, y, z) EQUALS M(t, 1, x, y, z) / 4 + A(t, x, y, z);
    }
};
REGISTER_SOLUTION(Mix);
// Conditions on domain, step and values; scratch vars with conditions.
class Cond : public B3 {
    MAKE_VAR(A, t, x, y); MAKE_VAR(C, t, x, y); MAKE_VAR(F, a); MAKE_SCRATCH_VAR(s1, x, y); MAKE_SCRATCH_VAR(s2, y, x); MAKE_SCRATCH_VAR(s3, x, y);
public:
    Cond() : B3("e_cond") {}
    virtual void define() {
        auto in = x >= first_domain_index(x) + 2 && x < last_domain_index(x) - 1 && y > first_domain_index(y) && y != last_domain_index(y);
        auto odd = (x + y) % 2 == 1;
        auto e = A(t, x-1, y) + A(t, x, y+2) * 3;
        s1(x, y) EQUALS e - C(t, x, y-1) IF_DOMAIN x > 3;
        s1(x, y) EQUALS e + t * 2 IF_DOMAIN !(x > 3);
        s2(y, x) EQUALS s1(x+1, y-1) - s1(x-2, y);
        s3(x, y) EQUALS s1(x, y) + s2(y+1, x) * 2;
        A(t+1, x, y) EQUALS s2(y-1, x+1) + s3(x, y) + 7 IF_DOMAIN in || odd;
        A(t+1, x, y) EQUALS s3(x+1, y) - t * 3 IF_DOMAIN !(in || odd);
        auto st = t % 3 == 0;
        (C(t+1, x, y) EQUALS A(t+1, x, y+1) - C(t, x+1, y) IF_STEP st) IF_DOMAIN x <= y;
        (C(t+1, x, y) EQUALS A(t+1, x, y-1) + C(t, x-1, y) IF_STEP st) IF_DOMAIN x > y;
        C(t+1, x, y) EQUALS C(t, x, y) + F(1) IF_STEP !st && F(0) > F(1);
        C(t+1, x, y) EQUALS C(t, x, y) - F(1) * A(t, x, y) IF_STEP !st && F(0) <= F(1);
    }
};
REGISTER_SOLUTION(Cond);
// Index values as numbers.
class Index : public B3 {
    MAKE_VAR(A, t, x, y); MAKE_VAR(C, t, x, y);
public:
    Index() : B3("e_index") {}
    virtual void define() {
        A(t+1, x, y) EQUALS A(t, x+1, y) - C(t, x, y-1) + x * 2;
        C(t+1, x, y) EQUALS A(t, x-2, y) + y * A(t+1, x, y);
    }
};
REGISTER_SOLUTION(Index);
// Reverse time, several steps back.
class Rev : public B3 {
    MAKE_VAR(A, t, z, y); MAKE_VAR(C, t, y, z);
public:
    Rev() : B3("e_rev") {}
    virtual void define() {
        A(t-1, z, y) EQUALS A(t, z+1, y) - A(t+1, z, y-2) + C(t, y, z) - A(t+2, z-1, y);
        C(t-1, y, z) EQUALS A(t-1, z-2, y+1) + A(t-1, z, y) - C(t, y+1, z+3) + A(t, z, y);
    }
};
REGISTER_SOLUTION(Rev);
// Chains of scratch vars shared by parts, several steps of history, non-step outputs.
class Chain : public B3 {
    MAKE_VAR(A, t, x, y, z); MAKE_VAR(G, t, x, y, z); MAKE_VAR(O, t, x, y, z); MAKE_SCRATCH_VAR(p, x, y, z); MAKE_SCRATCH_VAR(q, x, y, z); MAKE_SCRATCH_VAR(r, z); MAKE_SCRATCH_VAR(s, x, y, z);
public:
    Chain() : B3("e_chain") {}
    virtual void define() {
        p(x, y, z) EQUALS A(t, x-1, y, z) + A(t-1, x, y, z+1) - A(t-2, x, y+1, z);
        q(x, y, z) EQUALS p(x+1, y-1, z) * 2 - p(x-2, y, z+1) + G(t, x, y, z);
        s(x, y, z) EQUALS q(x, y, z-1) + p(x, y+2, z);
        O(t+1, x, y, z) EQUALS q(x, y, z) - A(t, x, y, z);
        A(t+1, x, y, z) EQUALS s(x, y+1, z) - q(x+1, y, z) + O(t+1, x, y, z) * 2;
        G(t+1, x, y, z) EQUALS p(x, y, z) - s(x-1, y, z+2) + A(t+1, x, y-1, z+1) - G(t-1, x, y, z);
    }
};
REGISTER_SOLUTION(Chain);
// Functions, shared sub-expressions, division and constants.
class Func : public B3 {
    MAKE_VAR(A, t, x, y); MAKE_VAR(C, t, x, y); MAKE_VAR(P, x, y); MAKE_VAR(E, t, x, y);
public:
    Func() : B3("e_func") {}
    virtual void define() {
        auto d = A(t, x+1, y) - A(t, x-1, y);
        auto n = 1.0 / (P(x, y) * P(x, y) + 2.5);
        A(t+1, x, y) EQUALS sin(d) * n + cos(d) * 0.25 - sqrt(fabs(P(x, y-1)) + 1.5) / (n + 3) + max(A(t, x, y), -0.5) * 0.125;
        C(t+1, x, y) EQUALS atan(A(t+1, x, y+1)) + cbrt(C(t, x, y)) * exp(min(d, 0.75)) - pow(fabs(d) + 0.5, 1.5) * n + log(fabs(C(t, x+2, y)) + 1) - cos(A(t+1, x, y-1)) + sin(A(t+1, x, y-1));
        E(t+1, x, y) EQUALS (E(t, x, y) - d - n) - (d + n - E(t, x-1, y)) * -0.25 + 0.1 - A(t, x, y) / 3 / 7 - (2 - P(x, y)) * erf(d);
    }
};
REGISTER_SOLUTION(Func);
}
