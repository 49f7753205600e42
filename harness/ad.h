// X01: random programs over the differentiable types of the library against jets.
#pragma once
#include "jets.h"
#include <variant>
#include <deque>
#include "anifem++/autodiff/autodiff.h"
namespace adt {
using pbt::Src; using pbt::Ctx; using pbt::fmt; using jets::Jet; using jets::ld;
template<class S> struct Tr;      // how a storage spells its full components
template<std::size_t N, class FT> struct Tr<Ani::PhysArrStorageSet<N, FT>>{
    static constexpr int n = N, vars = N; static constexpr bool sym = false;
    template<class G> static auto g(G& d, int i) -> decltype(d[0]) { return d[i]; } template<class H> static auto h(H& d, int i, int j) -> decltype(d(0, 0)) { return d(i, j); } static int canon(int i){ return i; }
    static std::vector<int> full(int k){ return {k}; } static int hcanon(int i, int j){ return i < j ? i*n + j : j*n + i; } };
template<std::size_t N, class FT> struct Tr<Ani::PhysTensorStorageSet<N, FT>>{
    static constexpr int n = N*N, vars = N*N; static constexpr bool sym = false;
    template<class G> static auto g(G& d, int i) -> decltype(d(0, 0)) { return d(i/N, i%N); } template<class H> static auto h(H& d, int i, int j) -> decltype(d(0, 0, 0, 0)) { return d(i/N, i%N, j/N, j%N); } static int canon(int i){ return i; }
    static std::vector<int> full(int k){ return {k}; } static int hcanon(int i, int j){ return i < j ? i*n + j : j*n + i; } };
template<std::size_t N, class FT> struct Tr<Ani::PhysSymTensorStorageSet<N, FT>>{
    static constexpr int n = N*N, vars = N*(N + 1)/2; static constexpr bool sym = true;
    template<class G> static auto g(G& d, int i) -> decltype(d(0, 0)) { return d(i/N, i%N); } template<class H> static auto h(H& d, int i, int j) -> decltype(d(0, 0, 0, 0)) { return d(i/N, i%N, j/N, j%N); }
    static int canon(int i){ int a = i/N, b = i%N; return a < b ? a*N + b : b*N + a; }
    static std::vector<int> full(int k){ for (int a = 0, q = 0; a < (int)N; ++a) for (int b = a; b < (int)N; ++b, ++q) if (q == k) return a == b ? std::vector<int>{a*(int)N + b} : std::vector<int>{a*(int)N + b, b*(int)N + a}; return {}; }
    static int hcanon(int i, int j){ i = canon(i); j = canon(j); return i < j ? i*n + j : j*n + i; } };
template<class S> struct Prog {
    using T = Tr<S>; using FT = typename S::ValueType; static constexpr int n = T::n;
    template<bool d, bool dd> using A = Ani::ADVal<Ani::ADState<true, d, dd>, S>;
    using P = Ani::Param<S>; using X = Ani::Var<S>; using A0 = A<false, false>; using A1 = A<true, false>; using A2 = A<true, true>;
    using Any = std::variant<X, P, A0, A1, A2>;
    struct Val { Any a; Jet j; std::string s; int ops = 0; bool var = false; };
    Src& s; Ctx& c; int dif; std::vector<Val> leaves; std::set<std::string> used;
    Prog(Src& s, Ctx& c): s(s), c(c) { dif = s.pick({5, 2, 1}); dif = dif == 0 ? 2 : dif == 1 ? 1 : 0; }
    FT num(){ switch (s.below(4)){ case 0: { static const double t[] = {1, 2, 0.5, -1, 3, -2, 0, 0.25}; return (FT)t[s.below(8)]; } case 1: return (FT)(((int)s.below(81) - 40)/8.0); default: return (FT)s.real(-3, 3); } }
    static const char* kind(const Any& a){ static const char* k[] = {"var", "param", "const", "lin", "val"}; return k[a.index()]; }
    Val constant(FT v){
        Val r{P(v), Jet(n, v), fmt("%.9g", (double)v)};
        switch (s.below(5)){ case 0: break; case 1: r.a.template emplace<A2>(v); break; case 2: r.a.template emplace<A2>(Ani::make_shell(P(v))); break; case 3: r.a.template emplace<A0>(Ani::make_ADVal(P(v))); break; default: { P p; p.Init(v); r.a.template emplace<P>(p); } }
        return r; }
    Val variable(){
        int k = (int)s.below(T::vars); for (auto& l: leaves) if (l.ops == -1 - k){ Val r = l; r.ops = 0; return r; }
        FT v = num(); Val r{X(k, v, dif), Jet(n, v), fmt("x%d", k)}; r.var = true; for (int i: T::full(k)) r.j.g[i] = jets::E(1);
        switch (s.below(4)){ case 0: break; case 1: { X x; x.Init(k, v, dif); r.a.template emplace<X>(x); break; } case 2: r.a.template emplace<A2>(Ani::make_shell(X(k, v, dif))); break; default: r.a.template emplace<A1>(Ani::make_ADVal(X(k, v, dif))); }
        c.note(fmt("x%d=%.9g", k, (double)v)); Val l = r; l.ops = -1 - k; leaves.push_back(l); return r; }
    Val given(){             // a differentiable quantity with values and derivatives of its own
        int id = (int)s.below(3); for (auto& l: leaves) if (l.ops == -1000 - id){ Val r = l; r.ops = 0; return r; }
        FT v = num(); typename S::GradientType d{}; typename S::HessianType dd{}; Val r{P(v), Jet(n, v), fmt("u%d", id)}; r.var = true; c.note(fmt("u%d=%.9g with given derivatives", id, (double)v));
        std::map<int, FT> gm, hm; bool lin = s.chance(1, 4); for (int i = 0; i < n; ++i){ int q = T::canon(i); if (!gm.count(q)) gm[q] = (FT)s.real(-2, 2); T::g(d, i) = gm[q]; r.j.g[i] = jets::E(gm[q]); }
        if (!lin) for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k){ int q = T::hcanon(i, k); if (!hm.count(q)) hm[q] = (FT)s.real(-2, 2); T::h(dd, i, k) = hm[q]; r.j.h(i, k) = jets::E(hm[q]); }
        if (lin) r.a.template emplace<A1>(dif, v, d, dd); else if (s.flip()) r.a.template emplace<A2>(dif, v, d, dd); else { A2 a; a.Init(dif, v, d, dd); r.a.template emplace<A2>(a); }
        Val l = r; l.ops = -1000 - id; leaves.push_back(l); return r; }
    Val leaf(){ switch (s.pick({4, 3, 2})){ case 0: return variable(); case 1: return given(); default: return constant(num()); } }
    template<class F> Val un(const Val& a, const std::string& nm, F f, const Jet& j){ used.insert(nm); return {std::visit(f, a.a), j, nm + "(" + a.s + ")", a.ops + 1, a.var}; }
    template<class F> Val bin(const Val& a, const Val& b, const std::string& nm, F f, const Jet& j){ used.insert(fmt("%s %s %s", kind(a.a), nm.c_str(), kind(b.a))); return {std::visit(f, a.a, b.a), j, nm + "(" + a.s + "," + b.s + ")", a.ops + b.ops + 1, a.var || b.var}; }
    Val unary(const Val& a){
        ld x = a.j.v.v; if (a.j.v.e > 1e-8L) return un(a, "-", [](auto q) -> Any { return -q; }, -a.j);      // keep what follows well conditioned
        switch (s.below(31)){
        case 0: return un(a, "-", [](auto q) -> Any { return -q; }, -a.j);
        case 1: if (fabsl(x) > 30) break; { ld f = expl(x); return un(a, "exp", [](auto q) -> Any { return exp(q); }, jets::apply(a.j, {f, f, f, f})); }
        case 2: if (fabsl(x) > 30) break; { ld f = expl(x); return un(a, "expm1", [](auto q) -> Any { return expm1(q); }, jets::apply(a.j, {expm1l(x), f, f, f}, 1)); }
        case 3: if (x < 1e-3L) break; return un(a, "log", [](auto q) -> Any { return log(q); }, jets::log(a.j));
        case 4: if (x < -1 + 1e-3L) break; { ld y = 1 + x; return un(a, "log1p", [](auto q) -> Any { return log1p(q); }, jets::apply(a.j, {log1pl(x), 1/y, -1/(y*y), 2/(y*y*y)})); }
        case 5: if (x < 1e-3L) break; return un(a, "sqrt", [](auto q) -> Any { return sqrt(q); }, jets::sqrt(a.j));
        case 6: if (fabsl(x) < 1e-3L) break; { ld y = cbrtl(x); return un(a, "cbrt", [](auto q) -> Any { return cbrt(q); }, jets::apply(a.j, {y, 1/(3*y*y), -2/(9*y*y*x), 10/(27*y*y*x*x)})); }
        case 7: { ld S1 = sinl(x), C = cosl(x); return un(a, "sin", [](auto q) -> Any { return sin(q); }, jets::apply(a.j, {S1, C, -S1, -C})); }
        case 8: { ld S1 = sinl(x), C = cosl(x); return un(a, "cos", [](auto q) -> Any { return cos(q); }, jets::apply(a.j, {C, -S1, -C, S1})); }
        case 9: if (fabsl(cosl(x)) < 1e-2L) break; { ld t = tanl(x), q = 1 + t*t; return un(a, "tan", [](auto q) -> Any { return tan(q); }, jets::apply(a.j, {t, q, 2*t*q, 2*q*(q + 2*t*t)})); }
        case 10: { ld q = 1/(1 + x*x); return un(a, "atan", [](auto q) -> Any { return atan(q); }, jets::apply(a.j, {atanl(x), q, -2*x*q*q, (6*x*x - 2)*q*q*q})); }
        case 11: if (fabsl(x) > 0.99L) break; { ld q = 1/sqrtl(1 - x*x); return un(a, "asin", [](auto q) -> Any { return asin(q); }, jets::apply(a.j, {asinl(x), q, x*q*q*q, (1 + 2*x*x)*q*q*q*q*q})); }
        case 12: if (fabsl(x) > 0.99L) break; { ld q = 1/sqrtl(1 - x*x); return un(a, "acos", [](auto q) -> Any { return acos(q); }, jets::apply(a.j, {acosl(x), -q, -x*q*q*q, -(1 + 2*x*x)*q*q*q*q*q})); }
        case 13: if (fabsl(x) > 30) break; { ld S1 = sinhl(x), C = coshl(x); return un(a, "sinh", [](auto q) -> Any { return sinh(q); }, jets::apply(a.j, {S1, C, S1, C})); }
        case 14: if (fabsl(x) > 30) break; { ld S1 = sinhl(x), C = coshl(x); return un(a, "cosh", [](auto q) -> Any { return cosh(q); }, jets::apply(a.j, {C, S1, C, S1})); }
        case 15: if (fabsl(x) > 8) break; { ld t = tanhl(x), q = 1 - t*t; if (fabsl(x) > 1) q = 1/(coshl(x)*coshl(x)); return un(a, "tanh", [](auto q) -> Any { return tanh(q); }, jets::apply(a.j, {t, q, -2*t*q, 2*q*(3*t*t - 1)})); }
        case 16: return un(a, "sq", [](auto q) -> Any { return sq(q); }, a.j*a.j);
        case 17: return un(a, "cube", [](auto q) -> Any { return cube(q); }, a.j*a.j*a.j);
        case 18: if (fabsl(x) < 1e-6L) break; return un(a, "abs", [](auto q) -> Any { return abs(q); }, x > 0 ? a.j : -a.j);
        case 19: if (fabsl(x) < 1e-6L) break; return un(a, "sign", [](auto q) -> Any { return sign(q); }, Jet(n, x > 0 ? 1 : -1));
        case 20: case 21: { int q = s.range(-4, 9); if (q < 0 && fabsl(x) < 1e-2L) break; bool lg = s.flip(); Jet j = q >= 0 ? Jet(n, 1) : Jet(n, 1); Jet b = q >= 0 ? a.j : jets::inv(a.j); for (int k = 0; k < abs(q); ++k) j = j*b; if (x == 0 && q >= 0) c.label("integer power of zero"); return un(a, fmt("pow%d", q), [q, lg](auto v) -> Any { if (lg) return pow(v, (long)q); return pow(v, q); }, j); }
        case 22: { static const double t[] = {2, 0.5, 1.5, -1, 3, 0, 1, -0.5, 2.7}; FT q = (FT)t[s.below(9)]; bool whole = q == std::floor(q) && q >= 0; if (!whole && x < 1e-3L) break; if (fabsl(x) < 1e-3L && x != 0) break; if (x == 0) c.label("power of zero");
            return un(a, fmt("pow%g", (double)q), [q](auto v) -> Any { return pow(v, q); }, q == 0 ? Jet(n, 1) : jets::powr(a.j, q)); }
        case 23: { FT b = (FT)s.real(0.1, 3); if (fabsl(x) > 8) break; ld L = logl(b), f = powl(b, x); return un(a, "powc", [b](auto v) -> Any { return pow(b, v); }, jets::apply(a.j, {f, f*L, f*L*L, f*L*L*L})); }
        case 24: { FT k = num(); switch (s.below(6)){ case 0: return un(a, "+c", [k](auto v) -> Any { return v + k; }, (ld)k + a.j); case 1: return un(a, "c+", [k](auto v) -> Any { return k + v; }, (ld)k + a.j); case 2: return un(a, "-c", [k](auto v) -> Any { return v - k; }, (ld)(-k) + a.j); case 3: return un(a, "c-", [k](auto v) -> Any { return k - v; }, (ld)k + (-a.j)); case 4: return un(a, "*c", [k](auto v) -> Any { return v*k; }, (ld)k*a.j); default: return un(a, "c*", [k](auto v) -> Any { return k*v; }, (ld)k*a.j); } }
        case 25: { FT k = num(); if (fabsl(k) < 1e-2L) break; return un(a, "/c", [k](auto v) -> Any { return v/k; }, (1/(ld)k)*a.j); }
        case 26: { FT k = num(); if (fabsl(x) < 1e-2L) break; return un(a, "c/", [k](auto v) -> Any { return k/v; }, (ld)k*jets::inv(a.j)); }
        case 27: return un(a, "own", [](auto v) -> Any { return unary_operation(v, [](unsigned, FT q){ return std::array<FT, 3>{q*q*q - q, 3*q*q - 1, 6*q}; }); }, jets::apply(a.j, {x*x*x - x, 3*x*x - 1, 6*x, 6}));
        case 28: return un(a, "shell", [](auto v) -> Any { return Ani::make_shell(v); }, a.j);
        case 29: return un(a, "value", [](auto v) -> Any { return Ani::make_ADVal(v); }, a.j);
        default: if (fabsl(x) < 1e-3L) break; return un(a, "hypot1", [](auto v) -> Any { return Ani::hypot({v}); }, x > 0 ? a.j : -a.j);
        }
        return un(a, "-", [](auto q) -> Any { return -q; }, -a.j);
    }
    Val binary(const Val& a, const Val& b){
        ld x = a.j.v.v, y = b.j.v.v; if (std::max(a.j.v.e, b.j.v.e) > 1e-8L) return bin(a, b, "+", [](auto p, auto q) -> Any { return p + q; }, a.j + b.j);
        switch (s.below(10)){
        case 0: return bin(a, b, "+", [](auto p, auto q) -> Any { return p + q; }, a.j + b.j);
        case 1: return bin(a, b, "-", [](auto p, auto q) -> Any { return p - q; }, a.j - b.j);
        case 2: return bin(a, b, "*", [](auto p, auto q) -> Any { return p*q; }, a.j*b.j);
        case 3: if (fabsl(y) < 1e-2L) break; return bin(a, b, "/", [](auto p, auto q) -> Any { return p/q; }, a.j/b.j);
        case 4: if (x < 1e-2L || fabsl(y*logl(x)) > 20) break; return bin(a, b, "pow", [](auto p, auto q) -> Any { return pow(p, q); }, jets::exp(b.j*jets::log(a.j)));
        case 5: { ld r2 = x*x + y*y; if (r2 < 1e-3L || (fabsl(x) < 1e-6L && y < 0)) break; Jet j(n);    // angle of (y, x): away from the cut
            jets::E cx{y/r2, 2*jets::U*sqrtl(1/r2) + (a.j.v.e + b.j.v.e)*2/r2}, cy{-x/r2, 2*jets::U*sqrtl(1/r2) + (a.j.v.e + b.j.v.e)*2/r2}; ld e2 = (16*jets::U + (a.j.v.e + b.j.v.e)*8/sqrtl(r2))/r2;
            jets::E cxx{-2*x*y/(r2*r2), e2}, cyy{2*x*y/(r2*r2), e2}, cxy{(x*x - y*y)/(r2*r2), e2}; j.v = {atan2l(x, y), 4*jets::U*(1 + fabsl(atan2l(x, y))) + (a.j.v.e + b.j.v.e)/sqrtl(r2)};
            for (int i = 0; i < n; ++i) j.g[i] = cx*a.j.g[i] + cy*b.j.g[i]; for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) j.h(i, k) = cx*a.j.h(i, k) + cy*b.j.h(i, k) + cxx*a.j.g[i]*a.j.g[k] + cyy*b.j.g[i]*b.j.g[k] + cxy*(a.j.g[i]*b.j.g[k] + a.j.g[k]*b.j.g[i]);
            return bin(a, b, "atan2", [](auto p, auto q) -> Any { return atan2(p, q); }, j); }
        case 6: if (fabsl(x - y) < 1e-6L*(1 + fabsl(x))) break; return bin(a, b, "min", [](auto p, auto q) -> Any { return min(p, q); }, x < y ? a.j : b.j);
        case 7: if (fabsl(x - y) < 1e-6L*(1 + fabsl(x))) break; return bin(a, b, "max", [](auto p, auto q) -> Any { return max(p, q); }, x > y ? a.j : b.j);
        case 8: { if (x*x + y*y < 1e-3L) break; bool three = s.chance(1, 3); FT k = three ? num() : FT(0); Jet j = jets::sqrt(a.j*a.j + b.j*b.j + (ld)k*Jet(n, k));
            return bin(a, b, three ? "hypot3" : "hypot", [three, k](auto p, auto q) -> Any { if constexpr (std::is_same<decltype(p), decltype(q)>::value){ if (!three) return Ani::hypot({p, q}); } auto sp = Ani::make_shell(p), sq = Ani::make_shell(q); if (three) return Ani::hypot({sp, A2(k), sq}); return Ani::hypot({sp, sq}); }, j); }
        default: {                           // in place
            int op = (int)s.below(4); if (op == 3 && fabsl(y) < 1e-2L) op = 2; static const char* nm[] = {"+=", "-=", "*=", "/="};
            return bin(a, b, nm[op], [op](auto p, auto q) -> Any { A2 r = Ani::make_shell(p), t = Ani::make_shell(q); switch (op){ case 0: r += t; break; case 1: r -= t; break; case 2: r *= t; break; default: r /= t; } return r; }, op == 0 ? a.j + b.j : op == 1 ? a.j - b.j : op == 2 ? a.j*b.j : a.j/b.j); }
        }
        return bin(a, b, "+", [](auto p, auto q) -> Any { return p + q; }, a.j + b.j);
    }
    Val tree(int depth){ if (depth == 0 || s.chance(1, 8)) return leaf(); Val r = s.chance(1, 2) ? unary(tree(depth - 1)) : [&]{ Val a = tree(depth - 1), b = s.chance(1, 8) ? a : tree(depth - 1); return binary(a, b); }(); return r; }
    void compare(const Val& v){
        ld worst = 0; auto tol = [&](const jets::E& e){ ld t = 4*e.e + 1e-25L; worst = std::max(worst, t/(1 + fabsl(e.v))); return t; };
        std::visit([&](auto& a){
            ld got = a(); c.ok(fabsl(got - v.j.v.v) <= tol(v.j.v), [&]{ return fmt("value %.17Lg expected %.17Lg (tol %.2Lg)", got, v.j.v.v, 4*v.j.v.e); });
            auto d = a.D(); auto dd = a.DD();
            if (dif >= 1) for (int i = 0; i < n; ++i){ ld q = T::g(d, i); c.ok(fabsl(q - v.j.g[i].v) <= tol(v.j.g[i]), [&]{ return fmt("first derivative %d of a %s: %.17Lg expected %.17Lg (tol %.2Lg)", i, kind(v.a), q, v.j.g[i].v, 4*v.j.g[i].e); }); }
            if (dif >= 2) for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k){ auto& e = v.j.h(i, k); ld q = T::h(dd, i, k); c.ok(fabsl(q - e.v) <= tol(e), [&]{ return fmt("second derivative %d,%d of a %s: %.17Lg expected %.17Lg (tol %.2Lg)", i, k, kind(v.a), q, e.v, 4*e.e); }); }
        }, const_cast<Any&>(v.a));
        c.nontrivial(v.ops >= 2 && v.var && dif >= 1 && worst < 1e-7L); c.label(worst < 1e-10L ? "tolerance below 1e-10" : worst < 1e-5L ? "tolerance below 1e-5" : "wide tolerance");
    }
};
template<class S> void program(Src& s, Ctx& c){
    jets::U = sizeof(typename S::ValueType) > 8 ? 64*5.5e-20L : 8*1.2e-16L;        // the reference computes in long double itself
    Prog<S> p(s, c); auto v = p.tree(1 + (int)s.below(5)); c.note(fmt("%d derivatives of %s", p.dif, v.s.c_str())); for (auto& u: p.used) c.label(u); p.compare(v);
}
template<class S> void compared(Src& s, Ctx& c){           // comparisons look at values only
    Prog<S> p(s, c); auto a = p.tree((int)s.below(3)), b = s.chance(1, 4) ? a : p.tree((int)s.below(3)); c.note(a.s + " and " + b.s); c.nontrivial();
    std::visit([&](auto x, auto y){ auto u = x(), v = y(); c.ok((x < y) == (u < v) && (x > y) == (u > v) && (x <= y) == (u <= v) && (x >= y) == (u >= v) && (x == y) == (u == v) && (x != y) == (u != v), "comparison"); }, a.a, b.a);
}
}
