// Second-order jets over numbers that carry a bound of the error an evaluation in double precision may have.
#pragma once
#include "pbt.h"
#include <array>
namespace jets {
using ld = long double;
inline thread_local ld U = 8*1.2e-16L;    // unit of rounding assumed of the library, with room for a few operations each
struct E { ld v = 0, e = 0; E() = default; E(ld v): v(v), e(0) {} E(ld v, ld e): v(v), e(e) {} };
inline E operator+(E a, E b){ ld v = a.v + b.v; return {v, a.e + b.e + U*fabsl(v)}; }
inline E operator-(E a, E b){ ld v = a.v - b.v; return {v, a.e + b.e + U*fabsl(v)}; }
inline E operator-(E a){ return {-a.v, a.e}; }
inline E operator*(E a, E b){ ld v = a.v*b.v; return {v, fabsl(a.v)*b.e + fabsl(b.v)*a.e + a.e*b.e + U*fabsl(v)}; }
struct Jet {
    int n; E v; std::vector<E> g, H;
    explicit Jet(int n = 0, ld c = 0): n(n), v(c), g(n), H(n*n) {}
    E& h(int i, int j){ return H[i*n + j]; } const E& h(int i, int j) const { return H[i*n + j]; }
};
inline Jet var(int n, int i, ld v){ Jet r(n, v); r.v.e = 0; r.g[i] = E(1); return r; }
inline Jet operator+(const Jet& a, const Jet& b){ Jet r(a.n); r.v = a.v + b.v; for (int i = 0; i < a.n; ++i) r.g[i] = a.g[i] + b.g[i]; for (int i = 0; i < a.n*a.n; ++i) r.H[i] = a.H[i] + b.H[i]; return r; }
inline Jet operator-(const Jet& a){ Jet r(a.n); r.v = -a.v; for (int i = 0; i < a.n; ++i) r.g[i] = -a.g[i]; for (int i = 0; i < a.n*a.n; ++i) r.H[i] = -a.H[i]; return r; }
inline Jet operator-(const Jet& a, const Jet& b){ return a + (-b); }
inline Jet operator*(const Jet& a, const Jet& b){ Jet r(a.n); r.v = a.v*b.v; for (int i = 0; i < a.n; ++i) r.g[i] = a.v*b.g[i] + b.v*a.g[i]; for (int i = 0; i < a.n; ++i) for (int j = 0; j < a.n; ++j) r.h(i, j) = a.v*b.h(i, j) + b.v*a.h(i, j) + (a.g[i]*b.g[j] + a.g[j]*b.g[i]); return r; }
inline Jet operator*(ld c, const Jet& a){ return Jet(a.n, c)*a; }
inline Jet operator+(ld c, const Jet& a){ return Jet(a.n, c) + a; }
// f(a) from the values of f and its first three derivatives at a.v; more: derivatives that are found by subtraction
inline Jet apply(const Jet& a, std::array<ld, 4> f, ld more = 0){
    ld x = fabsl(a.v.v), d = a.v.e + U*x; Jet r(a.n);
    E c0{f[0], fabsl(f[1])*d + U*fabsl(f[0])}, c1{f[1], fabsl(f[2])*d + U*(fabsl(f[1]) + more)}, c2{f[2], fabsl(f[3])*d + U*(fabsl(f[2]) + more)};
    r.v = c0; for (int i = 0; i < a.n; ++i) r.g[i] = c1*a.g[i];
    for (int i = 0; i < a.n; ++i) for (int j = 0; j < a.n; ++j) r.h(i, j) = c1*a.h(i, j) + c2*(a.g[i]*a.g[j]);
    return r;
}
inline Jet inv(const Jet& a){ ld x = a.v.v; return apply(a, {1/x, -1/(x*x), 2/(x*x*x), -6/(x*x*x*x)}); }
inline Jet operator/(const Jet& a, const Jet& b){ return a*inv(b); }
inline Jet sqrt(const Jet& a){ ld x = a.v.v, s = sqrtl(x); return apply(a, {s, 1/(2*s), -1/(4*s*x), 3/(8*s*x*x)}); }
inline Jet log(const Jet& a){ ld x = a.v.v; return apply(a, {logl(x), 1/x, -1/(x*x), 2/(x*x*x)}); }
inline Jet exp(const Jet& a){ ld f = expl(a.v.v); return apply(a, {f, f, f, f}); }
inline Jet powr(const Jet& a, ld q){ ld x = a.v.v; auto p = [&](ld c, ld k){ return c == 0 ? 0.0L : c*powl(x, k); }; ld c1 = q, c2 = q*(q - 1), c3 = c2*(q - 2); return apply(a, {powl(x, q), p(c1, q - 1), p(c2, q - 2), p(c3, q - 3)}); }
inline Jet cst(const Jet& like, ld c){ return Jet(like.n, c); }
}
