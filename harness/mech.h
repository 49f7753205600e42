// X03: strain, invariants of the right Cauchy-Green tensor and stress conversions against their continuum-mechanics definitions.
#pragma once
#include "jets.h"
#include "anifem++/autodiff/cauchy_strain_autodiff.h"
namespace mech {
using pbt::Src; using pbt::Ctx; using pbt::fmt; using jets::Jet; using jets::ld; using namespace Ani;
template<class T> using M3 = std::array<std::array<T, 3>, 3>;
using V3 = std::array<ld, 3>;
template<class FT> ld eps(){ return (ld)std::numeric_limits<FT>::epsilon(); }
template<class FT> FT num(Src& s, ld a){ return (FT)(a*(2*(ld)s.real(0, 1) - 1)); }
// displacement gradient: none, small, moderate, large, a rotation, a stretch along the axes, a simple shear
template<class FT> M3<FT> displacement(Src& s, Ctx& c, bool orient){
    M3<FT> g{}; int k = s.pick({1, 4, 8, 3, 3, 3, 3}); static const char* nm[] = {"no displacement", "small displacement", "moderate displacement", "large displacement", "rotation", "stretch", "shear"};
    switch (k){
    case 0: break;
    case 1: { ld a = powl(10, -s.real(1, 12)); for (auto& r: g) for (auto& x: r) x = num<FT>(s, a); break; }
    case 2: for (auto& r: g) for (auto& x: r) x = num<FT>(s, 0.4L); break;
    case 3: for (auto& r: g) for (auto& x: r) x = num<FT>(s, 3); break;
    case 4: { ld q[4]; ld n = 0; for (auto& x: q){ x = s.real(-1, 1); n += x*x; } if (n < 1e-2L){ q[0] = 1; n = 0; for (auto& x: q) n += x*x; } n = sqrtl(n); for (auto& x: q) x /= n; ld w = q[0], x = q[1], y = q[2], z = q[3];
        ld R[3][3] = {{1 - 2*(y*y + z*z), 2*(x*y - z*w), 2*(x*z + y*w)}, {2*(x*y + z*w), 1 - 2*(x*x + z*z), 2*(y*z - x*w)}, {2*(x*z - y*w), 2*(y*z + x*w), 1 - 2*(x*x + y*y)}};
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) g[i][j] = (FT)(R[i][j] - (i == j)); break; }
    case 5: for (int i = 0; i < 3; ++i) g[i][i] = (FT)(powl(2, s.real(-2, 2)) - 1); break;
    default: { int i = (int)s.below(3), j = (i + 1 + (int)s.below(2))%3; g[i][j] = num<FT>(s, 2); break; } }
    if (orient){ for (int t = 0; ; ++t){ ld F[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) F[i][j] = g[i][j] + (i == j);
        ld d = F[0][0]*(F[1][1]*F[2][2] - F[1][2]*F[2][1]) - F[0][1]*(F[1][0]*F[2][2] - F[1][2]*F[2][0]) + F[0][2]*(F[1][0]*F[2][1] - F[1][1]*F[2][0]); if (d > 0.05L) break; for (auto& r: g) for (auto& x: r) x /= 2; } }
    c.label(nm[k]); std::string t; for (auto& r: g) for (auto x: r) t += fmt("%.17Lg ", (ld)x); c.note("grad u = " + t); return g;
}
template<class FT> std::array<FT, 3> fibre(Src& s, Ctx& c, const char* nm){
    std::array<FT, 3> f{}; switch (s.pick({2, 4, 3})){ case 0: f[s.below(3)] = 1; break; case 1: { ld n = 0; for (auto& x: f){ x = num<FT>(s, 1); n += (ld)x*x; } if (n < 1e-3L){ f = {1, 0, 0}; n = 1; } for (auto& x: f) x = (FT)(x/sqrtl(n)); break; } default: for (auto& x: f) x = num<FT>(s, 3); }
    c.note(fmt("%s = %.17Lg %.17Lg %.17Lg", nm, (ld)f[0], (ld)f[1], (ld)f[2])); return f;
}
template<class FT> Mtx3D<FT> mtx(const M3<FT>& g){ Mtx3D<FT> r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r(i, j) = g[i][j]; return r; }
template<class FT> M3<ld> wide(const Mtx3D<FT>& g){ M3<ld> r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = g(i, j); return r; }
template<class FT> M3<ld> wide(const SymMtx3D<FT>& g){ M3<ld> r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = g(i, j); return r; }
inline ld top(const M3<ld>& m){ ld r = 0; for (auto& q: m) for (auto x: q) r = std::max(r, fabsl(x)); return r; }
inline ld len(const V3& v){ return sqrtl(v[0]*v[0] + v[1]*v[1] + v[2]*v[2]); }
template<class FT> V3 wide(const std::array<FT, 3>& v){ return {(ld)v[0], (ld)v[1], (ld)v[2]}; }

// invariants of C as jets of whatever C depends on
enum { INV1, INV2, INV3, INVJ, INV4, INV5, INV0, INVS };
static const char* NAME[] = {"I1", "I2", "I3", "J", "I4fs", "I5fs", "I0fs"};
struct Inv { Jet q[INVS]; };
inline Jet det(const M3<Jet>& C){ return C[0][0]*(C[1][1]*C[2][2] - C[1][2]*C[2][1]) - C[0][1]*(C[1][0]*C[2][2] - C[1][2]*C[2][0]) + C[0][2]*(C[1][0]*C[2][1] - C[1][1]*C[2][0]); }
inline Jet invariant(int id, const M3<Jet>& C, const V3& f, const V3& s){
    int n = C[0][0].n; Jet tr = C[0][0] + C[1][1] + C[2][2];
    switch (id){
    case INV1: return tr;
    case INV2: { Jet t2(n); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) t2 = t2 + C[i][j]*C[j][i]; return 0.5L*(tr*tr - t2); }
    case INV3: return det(C);
    case INVJ: return jets::sqrt(det(C));
    case INV4: { Jet r(n); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r = r + (f[i]*s[j])*C[i][j]; return r; }
    case INV5: { Jet r(n); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) r = r + (f[i]*s[j])*(C[i][k]*C[k][j]); return r; }
    default: return Jet(n, f[0]*s[0] + f[1]*s[1] + f[2]*s[2]); } }
// C as a function of the nine components of E, or of the nine components of F
inline M3<Jet> C_of_E(const M3<ld>& E){ M3<Jet> C; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j){ Jet x = jets::var(9, 3*i + j, E[i][j]), y = jets::var(9, 3*j + i, E[j][i]); C[i][j] = (i == j ? 1.0L : 0.0L) + (x + y); } return C; }
inline M3<Jet> C_of_F(const M3<ld>& g){ M3<Jet> F, C; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) F[i][j] = jets::var(9, 3*i + j, g[i][j] + (i == j)); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) C[i][j] = F[0][i]*F[0][j] + F[1][i]*F[1][j] + F[2][i]*F[2][j]; return C; }
// errors an evaluation of the invariant in the given precision may have: through any arrangement of the sums
struct Tol { ld v, g, h; };
inline Tol tolerance(int id, ld M, ld J, ld fs, ld u){
    ld k = 64*u;
    switch (id){ case INV1: return {k*M, k, k}; case INV2: return {k*M*M, k*M, k}; case INV3: return {k*M*M*M, k*M*M, k*M}; case INV4: return {k*fs*M, k*fs, k*fs}; case INV5: return {k*fs*M*M, k*fs*M, k*fs}; case INV0: return {k*fs, 0, 0}; }
    ld q = 1 + M*M*M/(J*J); return {k*(J + M*M*M/J), k*(M*M/J)*q, k*(M/J + M*M*M*M/(J*J*J))*q};
}
inline void widen(Jet& j, Tol t){ j.v.e += t.v; for (auto& x: j.g) x.e += t.g; for (auto& x: j.H) x.e += t.h; }
template<class FT, class D, class DD> void compare(Ctx& c, const std::string& nm, const Jet& j, FT v, int dif, const D& d, const DD& dd){
    auto bad = [](ld got, jets::E e){ return !(fabsl(got - e.v) <= e.e); };
    if (bad(v, j.v)) c.fail(fmt("%s: value %.17Lg expected %.17Lg (tol %.2Lg)", nm.c_str(), (ld)v, j.v.v, j.v.e));
    if (dif >= 1) for (int i = 0; i < 9; ++i) if (bad(d(i/3, i%3), j.g[i])) c.fail(fmt("%s: derivative %d%d is %.17Lg expected %.17Lg (tol %.2Lg)", nm.c_str(), i/3, i%3, (ld)d(i/3, i%3), j.g[i].v, j.g[i].e));
    if (dif >= 2) for (int i = 0; i < 9; ++i) for (int k = 0; k < 9; ++k) if (bad(dd(i/3, i%3, k/3, k%3), j.h(i, k))) c.fail(fmt("%s: second derivative %d%d%d%d is %.17Lg expected %.17Lg (tol %.2Lg)", nm.c_str(), i/3, i%3, k/3, k%3, (ld)dd(i/3, i%3, k/3, k%3), j.h(i, k).v, j.h(i, k).e));
    c.ok(true, "");
}

template<class M> void near(Ctx& c, ld got, ld want, ld tol, M&& msg){ if (fabsl(got - want) <= tol) c.ok(true, ""); else { std::string m; if constexpr (std::is_invocable<M>::value) m = msg(); else m = msg; c.fail(fmt("%s: got %.20Lg expected %.20Lg (diff %.3Lg, tol %.3Lg)", m.c_str(), got, want, fabsl(got - want), tol)); } }
template<class FT> void strain(Src& s, Ctx& c){
    auto g = displacement<FT>(s, c, false); M3<FT> dg; ld da = powl(10, -s.real(-1, 6)); for (auto& r: dg) for (auto& x: r) x = num<FT>(s, da);
    Mtx3D<FT> U = mtx(g), dU = mtx(dg), F = U; for (int i = 0; i < 3; ++i) F(i, i) += FT(1);
    ld u = eps<FT>(), a = 0, b = 0, f = 0; for (auto& r: wide(U)) for (auto x: r) a = std::max(a, fabsl(x)); for (auto& r: wide(dU)) for (auto x: r) b = std::max(b, fabsl(x)); f = top(wide(F));
    c.nontrivial(a > 0); auto G = wide(U), H = wide(dU), P = wide(F);
    auto E1 = Mech::F_to_E(F), E2 = Mech::grU_to_E(U), D1 = Mech::F_and_dF_to_dE(F, dU), D2 = Mech::grU_and_dgrU_to_dE(U, dU);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j){
        ld e = (G[i][j] + G[j][i])/2, p = -(ld)(i == j)/2, d = (H[i][j] + H[j][i])/2, dp = 0; for (int k = 0; k < 3; ++k){ e += G[k][i]*G[k][j]/2; p += P[k][i]*P[k][j]/2; d += (H[k][i]*G[k][j] + G[k][i]*H[k][j])/2; dp += (H[k][i]*P[k][j] + P[k][i]*H[k][j])/2; }
        near(c, E2(i, j), e, 16*u*a*(1 + a), "strain from the displacement gradient"); near(c, E1(i, j), p, 16*u*(1 + f*f), "strain from the deformation gradient");
        near(c, D2(i, j), d, 16*u*b*(1 + a), "strain rate from the displacement gradient"); near(c, D1(i, j), dp, 16*u*b*(f + u), "strain rate from the deformation gradient");
        near(c, E1(i, j), E2(i, j), 32*u*(1 + f*f), "strains of the two forms");
    }
}
template<class FT> void invariants(Src& s, Ctx& c){
    SymMtx3D<FT> E; if (s.chance(3, 4)) E = Mech::grU_to_E(mtx(displacement<FT>(s, c, true))); else { for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) E(i, j) = num<FT>(s, 1); c.label("any strain"); }
    auto f = fibre<FT>(s, c, "f"), v = s.chance(1, 4) ? f : fibre<FT>(s, c, "s"); { std::string t; for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) t += fmt("%.17Lg ", (ld)E(i, j)); c.note("E = " + t); }
    auto W = wide(E); ld u = eps<FT>(), M = 1 + 6*top(W), fs = len(wide(f))*len(wide(v)); auto C = C_of_E(W); ld d3 = det(C).v.v; bool hasJ = d3 > 1e-2L; c.nontrivial(top(W) > 0); if (!hasJ) c.label("no volume");
    ld was = jets::U; jets::U = 0; C = C_of_E(W); Jet q[INVS]; for (int id = 0; id < INVS; ++id) if (id != INVJ || hasJ){ q[id] = invariant(id, C, wide(f), wide(v)); widen(q[id], tolerance(id, M, hasJ ? sqrtl(d3) : 1, fs, u)); } jets::U = was;
    compare(c, "C_I1", q[INV1], Mech::C_I1(E), 2, Mech::C_I1_dE(E), Mech::C_I1_ddE(E)); compare(c, "C_I1 without strain", q[INV1], Mech::C_I1<FT>(E), 2, Mech::C_I1_dE<FT>(), Mech::C_I1_ddE<FT>());
    compare(c, "C_I2", q[INV2], Mech::C_I2(E), 2, Mech::C_I2_dE(E), Mech::C_I2_ddE(E)); compare(c, "C_I2 without strain", q[INV2], Mech::C_I2(E), 2, Mech::C_I2_dE(E), Mech::C_I2_ddE<FT>());
    compare(c, "C_I3", q[INV3], Mech::C_I3(E), 2, Mech::C_I3_dE(E), Mech::C_I3_ddE(E));
    if (hasJ) compare(c, "C_J", q[INVJ], Mech::C_J(E), 2, Mech::C_J_dE(E), Mech::C_J_ddE(E));
    compare(c, "C_I4fs", q[INV4], Mech::C_I4fs(E, f, v), 2, Mech::C_I4fs_dE(E, f, v), Mech::C_I4fs_ddE(E, f, v)); compare(c, "C_I4fs without strain", q[INV4], Mech::C_I4fs(E, f, v), 2, Mech::C_I4fs_dE(f, v), Mech::C_I4fs_ddE(f, v)); compare(c, "C_I4fs of nothing", q[INV4], Mech::C_I4fs(E, f, v), 2, Mech::C_I4fs_dE(f, v), Mech::C_I4fs_ddE<FT>());
    compare(c, "C_I5fs", q[INV5], Mech::C_I5fs(E, f, v), 2, Mech::C_I5fs_dE(E, f, v), Mech::C_I5fs_ddE(E, f, v)); compare(c, "C_I5fs without strain", q[INV5], Mech::C_I5fs(E, f, v), 2, Mech::C_I5fs_dE(E, f, v), Mech::C_I5fs_ddE(f, v));
    compare(c, "C_I0fs", q[INV0], Mech::C_I0fs(E, f, v), 2, Mech::C_I0fs_dE(E, f, v), Mech::C_I0fs_ddE(E, f, v)); compare(c, "C_I0fs without strain", q[INV0], Mech::C_I0fs(f, v), 2, Mech::C_I0fs_dE<FT>(), Mech::C_I0fs_ddE<FT>());
    int dif = (int)s.below(3); c.label(fmt("depth %d", dif)); int before = (int)s.below(4) - 1; if (before >= 0) c.label("held another strain before"); SymMtx3D<FT> E0; for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) E0(i, j) = E(i, j)/2; std::array<FT, 3> f0{{f[1], FT(1), f[0]}};
    auto other = [&](const auto& x){ if constexpr (std::is_same<std::decay_t<decltype(x)>, SymMtx3D<FT>>::value) return E0; else return f0; };   // the variable may have held something else before
    auto both = [&](auto a, const char* nm, int id, auto... args){ decltype(a) b(dif, args...); if (before >= 0) a.Init(before, other(args)...); a.Init(dif, args...); decltype(a) d = b; compare(c, nm, q[id], b(), dif, b.D(), b.DD()); compare(c, std::string(nm) + " initialised later", q[id], a(), dif, a.D(), a.DD()); compare(c, std::string(nm) + " copied", q[id], d(), dif, d.D(), d.DD());
        auto val = make_ADVal(b); compare(c, std::string(nm) + " as a value", q[id], val(), dif, val.D(), val.DD()); ADVal<ADState<true, true, true>, PhysSymTensorStorageSet<3, FT>> w = make_shell(b); compare(c, std::string(nm) + " through a shell", q[id], w(), dif, w.D(), w.DD());
        a.Init(2, args...); compare(c, std::string(nm) + " initialised again", q[id], a(), 2, a.D(), a.DD()); };
    both(Mech::I1<FT>(), "I1", INV1, E); both(Mech::I2<FT>(), "I2", INV2, E); both(Mech::I3<FT>(), "I3", INV3, E); if (hasJ) both(Mech::J<FT>(), "J", INVJ, E);
    both(Mech::I4fs<FT>(), "I4fs", INV4, E, f, v); both(Mech::I5fs<FT>(), "I5fs", INV5, E, f, v); both(Mech::I0fs<FT>(), "I0fs", INV0, f, v);
}
// the conversions by their definitions for stresses and moduli that come from nowhere
template<class FT> void conversions(Src& s, Ctx& c){
    auto g = displacement<FT>(s, c, false); Mtx3D<FT> U = mtx(g); SymMtx3D<FT> S; for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) S(i, j) = num<FT>(s, 2);
    BiSym4Tensor3D<FT> T; for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) for (int k = 0; k < 3; ++k) for (int l = k; l < 3; ++l) if (3*i + j <= 3*k + l) T(i, j, k, l) = s.chance(1, 3) ? FT(0) : num<FT>(s, 2);
    auto F = wide(U); for (int i = 0; i < 3; ++i) F[i][i] += 1; ld u = eps<FT>(), f = 1 + top(wide(U)), sm = top(wide(S)); c.nontrivial(top(wide(U)) > 0 && sm > 0);
    auto P = Mech::S_to_P(U, S); auto D = Mech::dS_to_dP(U, S, T); auto Z = Mech::dS_to_dP(U, S, BiSym4Tensor3D<FT>());
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j){
        ld p = 0; for (int k = 0; k < 3; ++k) p += F[i][k]*S(k, j); near(c, P(i, j), p, 32*u*f*sm, [&]{ return fmt("stress %d%d", i, j); });
        for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l){ ld d = i == k ? (ld)S(l, j) : 0; near(c, Z(i, j, k, l), d, 0, [&]{ return fmt("moduli %d%d%d%d of a stress alone", i, j, k, l); });
            for (int n = 0; n < 3; ++n) for (int m = 0; m < 3; ++m) d += F[i][n]*F[k][m]*(ld)T(n, j, m, l); near(c, D(i, j, k, l), d, 64*u*(sm + f*f*18), [&]{ return fmt("moduli %d%d%d%d", i, j, k, l); }); }
    }
}
// energies of the invariants, differentiated with respect to the strain by the library and with respect to F by jets
template<class FT> struct Energy {
    using A2 = ADVal<ADState<true, true, true>, PhysSymTensorStorageSet<3, FT>>;
    struct Val { A2 a; Jet j; std::string s; int vars; };
    Src& s; Ctx& c; int dif; std::vector<Val> given;
    FT coef(){ return s.chance(1, 3) ? (FT)(int)s.range(-3, 4) : num<FT>(s, 2); }
    Val tree(int depth){
        if (depth == 0 || s.chance(1, 8)) return given[s.below(given.size())];
        Val a = tree(depth - 1); ld x = a.j.v.v; bool rough = a.j.v.e > 1e-7L*(1 + fabsl(x));
        if (!rough && s.chance(1, 2)) switch (s.below(8)){
            case 0: if (fabsl(x) > 8) break; return {A2(exp(a.a)), jets::exp(a.j), "exp(" + a.s + ")", a.vars};
            case 1: if (x < 0.05L) break; return {A2(log(a.a)), jets::log(a.j), "log(" + a.s + ")", a.vars};
            case 2: if (x < 0.05L) break; return {A2(sqrt(a.a)), jets::sqrt(a.j), "sqrt(" + a.s + ")", a.vars};
            case 3: if (x < 0.05L || x > 50) break; { static const double t[] = {-2.0/3, 1.5, -1, 2, 0.5, -4.0/3}; FT q = (FT)t[s.below(6)]; return {A2(pow(a.a, q)), jets::powr(a.j, q), fmt("pow(%s,%.17Lg)", a.s.c_str(), (ld)q), a.vars}; }
            case 4: if (fabsl(x) > 1e3L) break; return {A2(sq(a.a)), a.j*a.j, "sq(" + a.s + ")", a.vars};
            case 5: { FT k = coef(); return {A2(a.a - k), a.j - Jet(9, k), fmt("(%s - %.17Lg)", a.s.c_str(), (ld)k), a.vars}; }
            default: { FT k = coef(); return {A2(k*a.a), (ld)k*a.j, fmt("%.17Lg*%s", (ld)k, a.s.c_str()), a.vars}; } }
        Val b = tree(depth - 1); ld y = b.j.v.v;
        switch (s.below(4)){ case 0: return {A2(a.a + b.a), a.j + b.j, "(" + a.s + " + " + b.s + ")", a.vars | b.vars}; case 1: return {A2(a.a - b.a), a.j - b.j, "(" + a.s + " - " + b.s + ")", a.vars | b.vars};
            case 2: if (fabsl(y) > 0.1L && !rough) return {A2(a.a/b.a), a.j/b.j, "(" + a.s + "/" + b.s + ")", a.vars | b.vars}; }
        if (fabsl(x*y) > 1e4L) return {A2(a.a + b.a), a.j + b.j, "(" + a.s + " + " + b.s + ")", a.vars | b.vars};
        return {A2(a.a*b.a), a.j*b.j, a.s + "*" + b.s, a.vars | b.vars};
    }
};
template<class FT> void energy(Src& s, Ctx& c){
    auto g = displacement<FT>(s, c, true); Mtx3D<FT> U = mtx(g); SymMtx3D<FT> E = Mech::grU_to_E(U); auto f = fibre<FT>(s, c, "f"), v = s.chance(1, 3) ? f : fibre<FT>(s, c, "s"); int dif = s.chance(3, 4) ? 2 : 1;
    ld was = jets::U; jets::U = 8*eps<FT>()*0.6L; struct Back { ld w; ~Back(){ jets::U = w; } } back{was};
    auto G = wide(U); M3<Jet> C = C_of_F(G); ld F1 = 1 + top(G), M = 1 + 6*top(wide(E)), fs = len(wide(f))*len(wide(v)), J0 = jets::sqrt(det(C)).v.v; Jet q[INVS];
    for (int id = 0; id < INVS; ++id){ q[id] = invariant(id, C, wide(f), wide(v)); Tol t = tolerance(id, M, J0, fs, eps<FT>()); widen(q[id], {t.v, 4*t.g*F1 + t.v, 16*t.h*F1*F1 + 4*t.g}); }
    Mech::I1<FT> I1(dif, E); Mech::I2<FT> I2(dif, E); Mech::I3<FT> I3(dif, E); Mech::J<FT> J(dif, E); Mech::I4fs<FT> I4(dif, E, f, v); Mech::I5fs<FT> I5(dif, E, f, v); Mech::I0fs<FT> I0(dif, f, v);
    using A2 = typename Energy<FT>::A2; typename Energy<FT>::Val W{A2(), Jet(9), "", 0}; FT a = num<FT>(s, 2), b = num<FT>(s, 1); const FT third = FT(1)/3; ld la = a, lb = b; auto& Q = q;
    // energies in use, written as one expression
    switch (s.below(12)){
    case 0: W = {A2(a*(I1 - FT(3)) + b*(I2 - FT(3))), la*(Q[INV1] - Jet(9, 3)) + lb*(Q[INV2] - Jet(9, 3)), "Mooney-Rivlin", 3}; break;
    case 1: W = {A2(a*(I1*pow(J, -2*third) - FT(3)) + b*sq(J - FT(1))), la*(Q[INV1]*jets::powr(Q[INVJ], -2*(ld)third) - Jet(9, 3)) + lb*((Q[INVJ] - Jet(9, 1))*(Q[INVJ] - Jet(9, 1))), "neo-Hookean", 9}; break;
    case 2: if (fabsl(b*(Q[INV1].v.v - 3)) > 8) break; W = {A2(a*(exp(b*(I1 - FT(3))) - FT(1))), la*(jets::exp(lb*(Q[INV1] - Jet(9, 3))) - Jet(9, 1)), "Demiray", 1}; break;
    case 3: W = {A2(a*I1*I1 - b*I2 + log(J)/FT(2)), la*(Q[INV1]*Q[INV1]) - lb*Q[INV2] + 0.5L*jets::log(Q[INVJ]), "logarithmic", 11}; break;
    case 4: W = {A2(a*sq(I4 - I0) + b*(I5 - I4*I0)), la*((Q[INV4] - Q[INV0])*(Q[INV4] - Q[INV0])) + lb*(Q[INV5] - Q[INV4]*Q[INV0]), "fibres", 112}; break;
    case 5: W = {A2(a*I1/cbrt(I3) + b*I4/sqrt(I3)), la*(Q[INV1]*jets::powr(Q[INV3], 1.0L/3*-1)) + lb*(Q[INV4]/jets::sqrt(Q[INV3])), "isochoric", 21}; break;
    default: { Energy<FT> e{s, c, dif, {}}; auto put = [&](auto& m, int id){ A2 x = make_shell(m); e.given.push_back({x, Q[id], NAME[id], 1 << id}); }; put(I1, INV1); put(I2, INV2); put(I3, INV3); put(J, INVJ); put(I4, INV4); put(I5, INV5); put(I0, INV0); W = e.tree(s.range(1, 4)); break; }
    }
    s.assume(W.s != ""); c.label(W.s.size() > 20 ? "random energy" : W.s.c_str()); c.note("W = " + W.s);
    ld scale = 1; auto S = W.a.D(); auto T = W.a.DD(); for (auto& x: W.j.g) scale = std::max(scale, fabsl(x.v)); s.assume(W.j.v.e < 1e-4L);
    ld w2 = 0; for (auto& x: W.j.H) w2 = std::max(w2, x.e); c.nontrivial((W.vars & 63) != 0 && top(G) > 0 && w2 < 1e-7L);
    c.ok(fabsl((ld)W.a() - W.j.v.v) <= 4*W.j.v.e + 1e-25L, [&]{ return fmt("energy %.17Lg expected %.17Lg (tol %.2Lg)", (ld)W.a(), W.j.v.v, 4*W.j.v.e); });
    auto P = Mech::S_to_P(U, S); for (int i = 0; i < 9; ++i){ auto& e = W.j.g[i]; ld got = P(i/3, i%3), sm = top(wide(S)); c.ok(fabsl(got - e.v) <= 8*e.e + 64*eps<FT>()*F1*sm, [&]{ return fmt("stress %d%d is %.17Lg, the derivative of the energy is %.17Lg (tol %.2Lg)", i/3, i%3, got, e.v, 8*e.e); }); }
    if (dif < 2) return;
    ld tm = 0; for (int i = 0; i < 81; ++i) tm = std::max(tm, fabsl((ld)T(i/27, i/9%3, i/3%3, i%3)));
    auto D = Mech::dS_to_dP(U, S, T); for (int i = 0; i < 9; ++i) for (int k = 0; k < 9; ++k){ auto& e = W.j.h(i, k); ld got = D(i/3, i%3, k/3, k%3), sm = top(wide(S));
        c.ok(fabsl(got - e.v) <= 16*e.e + 256*eps<FT>()*(sm + 9*F1*F1*tm), [&]{ return fmt("moduli %d%d%d%d are %.17Lg, the second derivative of the energy is %.17Lg (tol %.2Lg)", i/3, i%3, k/3, k%3, got, e.v, 16*e.e); }); }
}
}
