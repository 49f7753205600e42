// Generators of tetrahedra, points and finite element spaces (library object + reference model side by side).
#pragma once
#include "ref.h"
#include <stdexcept>
#include "anifem++/fem/fem_space.h"
#include "anifem++/fem/spaces/spaces.h"
#include "anifem++/fem/operations/operations.h"
namespace gen {
using pbt::Src; using pbt::Ctx; using pbt::fmt; using ref::ld;
using uint = unsigned;

// ---- cells --------------------------------------------------------------------------------------------------
struct Cell {
    double p[12]; ref::Tet t; double h = 1;
    Ani::Tetra<const double> XYZ() const { return Ani::Tetra<const double>(p, p+3, p+6, p+9); }
    void set(){ t = ref::Tet(p); h = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) h = std::max(h, (double)ref::norm(t.x[i] - t.x[j])); }
    double quality() const { return std::fabs((double)t.det)/(h*h*h); }
    std::string str() const { return "tet=[" + pbt::join(p, p + 12, ",") + "]"; }
};
inline Cell tet(Src& s, Ctx& c, double minq = 0.01, bool note = true){
    Cell r; const double refp[12] = {0,0,0, 1,0,0, 0,1,0, 0,0,1};
    int mode = s.pick({3, 6, 2});                       // reference (possibly permuted), random, nearly flat/stretched
    bool done = false; std::string lab;
    if (mode != 0) for (int k = 0; k < 8 && !done; ++k){
        for (double& v: r.p) v = s.unit();
        if (mode == 2){ double st = s.real(0.1, 1); int d = s.range(0, 2); for (int i = 0; i < 4; ++i) r.p[3*i+d] *= st; }
        r.set(); double far = 0; for (int i = 3; i < 12; ++i) far = std::max(far, std::fabs(r.p[i] - r.p[i%3])); done = far > 0.02 && r.t.det != 0 && r.quality() >= minq;   // not so small that its points cannot be told apart
    }
    if (!done){ std::vector<int> perm{0,1,2,3}; s.shuffle(perm); for (int i = 0; i < 4; ++i) std::copy(refp + 3*perm[i], refp + 3*perm[i] + 3, r.p + 3*i); lab = "reference"; } else lab = mode == 1 ? "random" : "stretched";
    int sc = s.pick({5, 1, 1}); if (sc){ double f = sc == 1 ? 1e-3 : 1e3; for (double& v: r.p) v *= f; }
    if (s.chance(1, 3)){ double m = 0; for (double v: r.p) m = std::max(m, std::fabs(v)); double sh[3]; for (double& v: sh) v = 10*m*s.unit(); for (int i = 0; i < 12; ++i) r.p[i] += sh[i%3]; }
    r.set();
    if (note){ c.note(r.str()); c.label("cell-" + lab); c.label(r.t.det > 0 ? "orientation+" : "orientation-"); if (sc) c.label("cell-scaled"); }
    return r;
}
// barycentric point
struct Bary { double l[4]; };
inline Bary point(Src& s, int where = -1){
    Bary b{}; int w = where >= 0 ? where : s.pick({2, 2, 2, 6, 2});
    switch (w){
        case 0: b.l[s.below(4)] = 1; break;
        case 1: { int e = (int)s.below(6); double a = s.flip() ? 0.5 : s.real(0, 1); b.l[ref::EDGE[e][0]] = 1 - a; b.l[ref::EDGE[e][1]] = a; break; }
        case 2: { int f = (int)s.below(4); double a = 1.0/3, d = 1.0/3; if (s.flip()){ a = s.real(0, 1); d = s.real(0, 1)*(1 - a); } b.l[ref::FACE[f][0]] = 1 - a - d; b.l[ref::FACE[f][1]] = a; b.l[ref::FACE[f][2]] = d; break; }
        case 3: { if (s.chance(1, 4)){ for (double& x: b.l) x = 0.25; break; } double a = s.real(0.02, 1), d = s.real(0.02, 1), e = s.real(0.02, 1), g = s.real(0.02, 1), t = a + d + e + g; b.l[0] = a/t; b.l[1] = d/t; b.l[2] = e/t; b.l[3] = 1 - b.l[0] - b.l[1] - b.l[2]; break; }
        default: { for (int i = 1; i < 4; ++i) b.l[i] = s.real(-0.7, 1.2); b.l[0] = 1 - b.l[1] - b.l[2] - b.l[3]; break; }
    }
    return b;
}
inline std::vector<double> points(Src& s, int q, int where = -1){ std::vector<double> r; for (int i = 0; i < q; ++i){ Bary b = point(s, where); r.insert(r.end(), b.l, b.l + 4); } return r; }
inline void lld(const double* l, ld* o){ for (int i = 0; i < 4; ++i) o[i] = l[i]; }

// polynomial vector functions given through barycentric coordinates
struct PFun {
    const Cell* C; std::vector<ref::Poly> u;
    int operator()(const std::array<double, 3>& X, double* r, uint dim, void*) const {
        ld l[4]; C->t.bary({{X[0], X[1], X[2]}}, l); ref::MonoVal m = ref::monos(l);
        for (uint k = 0; k < dim; ++k){ ld t = 0; if (!u[k].zero()) for (int i = 0; i < ref::NM; ++i) t += u[k].c[i]*m.v[i]; r[k] = (double)t; }
        return 0;
    }
};
inline std::vector<ref::Poly> poly_vec(Src& s, int dim, int deg){
    std::vector<ref::Poly> u(dim); for (auto& p: u){ p.c.assign(ref::NM, 0); int n = ref::nmono(deg); for (int i = 0; i < n; ++i) if (s.chance(3, 4)) p.c[i] = s.unit(); }
    return u;
}
inline double pscale(const std::vector<ref::Poly>& u){ ld m = 0; for (auto& p: u){ ld a = 0; for (ld c: p.c) a += fabsl(c); m = std::max(m, a); } return (double)m; }

// ---- spaces ---------------------------------------------------------------------------------------------------
enum Kind { ELEM, VEC, PROD, UNION };
struct Node { int kind = ELEM; int el = 0; int k = 1; std::vector<Node> ch; };
inline Node E(int el){ Node n; n.el = el; return n; }
inline Node Vec(Node b, int k){ Node n; n.kind = VEC; n.k = k; n.ch = {std::move(b)}; return n; }
inline Node Prod(std::vector<Node> c){ Node n; n.kind = PROD; n.ch = std::move(c); return n; }
inline Node Sum(std::vector<Node> c){ Node n; n.kind = UNION; n.ch = std::move(c); return n; }
inline int dim(const Node& n){ if (n.kind == ELEM) return ref::el_dim(n.el); if (n.kind == VEC) return n.k*dim(n.ch[0]); if (n.kind == UNION) return dim(n.ch[0]); int d = 0; for (auto& c: n.ch) d += dim(c); return d; }
inline int nfa(const Node& n){ if (n.kind == ELEM) return ref::el_nfa(n.el); int d = 0; for (auto& c: n.ch) d += nfa(c); return n.kind == VEC ? n.k*d : d; }
inline int order(const Node& n){ if (n.kind == ELEM) return ref::el_order(n.el); int d = 0; for (auto& c: n.ch) d = std::max(d, order(c)); return d; }
inline bool has(const Node& n, std::function<bool(const Node&)> f){ if (f(n)) return true; for (auto& c: n.ch) if (has(c, f)) return true; return false; }
inline bool has_union(const Node& n){ return has(n, [](const Node& x){ return x.kind == UNION; }); }
inline bool has_el(const Node& n, int e){ return has(n, [e](const Node& x){ return x.kind == ELEM && x.el == e; }); }
// degrees of freedom of a union that depend on the cell's geometry (a part with moments along edges or normals)
inline bool geom_union(const Node& n){ return has(n, [](const Node& x){ return x.kind == UNION && (has_el(x, ref::RT0) || has_el(x, ref::ND0)); }); }
inline std::string str(const Node& n){
    if (n.kind == ELEM) return ref::EL_NAME[n.el];
    if (n.kind == VEC) return str(n.ch[0]) + "^" + std::to_string(n.k);
    std::string r = "("; for (size_t i = 0; i < n.ch.size(); ++i) r += (i ? (n.kind == PROD ? "*" : "+") : "") + str(n.ch[i]); return r + ")";
}
inline Ani::FemSpace lib_el(int e){
    using namespace Ani;
    switch (e){ case ref::P0: return FemSpace{P0Space()}; case ref::P1: return FemSpace{P1Space()}; case ref::P2: return FemSpace{P2Space()}; case ref::P3: return FemSpace{P3Space()};
        case ref::ND0: return FemSpace{ND0Space()}; case ref::RT0: return FemSpace{RT0Space()}; case ref::CR1: return FemSpace{CR1Space()}; case ref::B2: return FemSpace{Bubble2Space()}; default: return FemSpace{Bubble4Space()}; }
}
// raw: keep the tree as it is; otherwise products of products and sums of sums are merged by the library
inline Ani::FemSpace lib(const Node& n, bool raw = false){
    using namespace Ani;
    if (n.kind == ELEM) return lib_el(n.el);
    if (n.kind == VEC) return lib(n.ch[0], raw) ^ n.k;
    std::vector<FemSpace> v; for (auto& c: n.ch) v.push_back(lib(c, raw));
    if (n.kind == PROD) return raw ? make_complex_raw(v) : make_complex_with_simplification(v);
    return raw ? make_union_raw(v) : make_union_with_simplification(v);
}
inline ref::Space model(const Node& n, const ref::Tet& t, bool* sing = nullptr){
    if (n.kind == ELEM) return ref::element(n.el, t);
    if (n.kind == VEC) return ref::power(model(n.ch[0], t, sing), n.k);
    std::vector<ref::Space> v; for (auto& c: n.ch) v.push_back(model(c, t, sing));
    if (n.kind == PROD) return ref::product(v);
    bool sg = false; auto r = ref::sum(v, &sg); if (sing && sg) *sing = true; return r;
}
struct Limits { int max_nfa = 45, max_dim = 9; bool unions = true, geom_unions = false; int depth = 2; int want_dim = 0; };
inline Node scalar_union(Src& s){
    static const std::vector<std::vector<int>> U = {{ref::P1, ref::B4}, {ref::P1, ref::B2}, {ref::P1, ref::B2, ref::B4}, {ref::P2, ref::B4}, {ref::P3, ref::B4}, {ref::P0, ref::B4}, {ref::CR1, ref::B4}, {ref::B2, ref::B4}, {ref::P0, ref::B2}, {ref::P0, ref::B2, ref::B4}};
    auto u = s.of(U); if (s.chance(1, 4)) s.shuffle(u); std::vector<Node> c; for (int e: u) c.push_back(E(e)); return Sum(c);
}
inline Node any_space(Src& s, const Limits& L, int depth){
    int w = depth <= 0 ? 0 : L.unions ? s.pick({4, 4, 3, 3}) : s.pick({4, 4, 3});
    if (w == 0) return E((int)s.below(ref::NEL));
    if (w == 1){ Node b = any_space(s, L, depth - 1); return Vec(b, s.range(1, 4)); }
    if (w == 2){ std::vector<Node> c; int k = s.range(2, 3); for (int i = 0; i < k; ++i) c.push_back(any_space(s, L, depth - 1)); return Prod(c); }
    if (L.geom_unions && s.chance(1, 4)) return Sum({E(s.flip() ? ref::RT0 : ref::ND0), s.flip() ? Vec(E(ref::B4), 3) : Prod({E(ref::B4), E(ref::B4), E(ref::B4)})});
    Node u = scalar_union(s); if (s.chance(1, 2)) return u;
    int k = s.range(2, 3); Node r; r.kind = UNION;              // sum of vector spaces
    for (auto& c: u.ch){ if (s.flip()) r.ch.push_back(Vec(c, k)); else r.ch.push_back(Prod(std::vector<Node>(k, c))); }
    return r;
}
inline Node space(Src& s, const Limits& L = Limits()){
    for (int k = 0; k < 20; ++k){ Node n = any_space(s, L, L.depth); if (nfa(n) <= L.max_nfa && dim(n) <= L.max_dim && (!L.want_dim || dim(n) == L.want_dim)) return n; }
    if (L.want_dim){ Node b = E((int)s.below(3)); return L.want_dim == 1 ? b : Vec(b, L.want_dim); }
    return E((int)s.below(ref::NEL));
}
inline const char* kind_name(const Node& n){ static const char* k[] = {"elementary", "vector", "product", "sum"}; return k[n.kind]; }

// ---- operator values of the library as columns of coefficients -----------------------------------------------------
struct Vals { int d = 0, n = 0, q = 0; std::vector<double> v; double at(int k, int pt, int i) const { return v[k + d*(pt + (size_t)q*i)]; } };
inline Vals run_op(const Ani::ApplyOpBase& A, const Cell& C, std::vector<double> l){
    Vals r; r.d = A.Dim(); r.n = A.Nfa(); r.q = (int)l.size()/4; r.v.resize((size_t)r.d*r.q*r.n);
    Ani::DynMem<> wm; std::vector<double> dofs(r.n), out((size_t)r.d*r.q);
    for (int i = 0; i < r.n; ++i){
        std::fill(dofs.begin(), dofs.end(), 0.0); dofs[i] = 1; std::fill(out.begin(), out.end(), -7.5e300);
        Ani::DenseMatrix<> D(dofs.data(), r.n, 1), O(out.data(), (std::size_t)r.d*r.q, 1);
        Ani::fem3DapplyL(C.XYZ(), Ani::ArrayView<>(l.data(), l.size()), D, A, O, wm);
        std::copy(out.begin(), out.end(), r.v.begin() + (size_t)r.d*r.q*i);
    }
    return r;
}
// compare with the model at all points
inline void compare_op(Ctx& c, const Vals& v, const ref::Space& m, const Cell& C, int op, const std::vector<double>& l, const std::string& what, double rel = 2e-9){
    c.ok(v.d == ref::op_dim(op, m.dim), [&]{ return what + fmt(": dimension %d, expected %d", v.d, ref::op_dim(op, m.dim)); });
    c.ok(v.n == m.nfa(), [&]{ return what + fmt(": %d basis functions, expected %d", v.n, m.nfa()); });
    std::vector<std::vector<ld>> e; ld mx = 0;
    for (int k = 0; k < v.q; ++k){ ld ll[4]; lld(&l[4*k], ll); e.push_back(ref::eval(m, C.t, op, ll)); for (ld x: e.back()) mx = std::max(mx, fabsl(x)); }
    // scale of a derivative when all given points have zero derivatives
    double tol = rel*std::max<double>((double)mx, op == ref::IDEN ? 1e-3 : 1e-3/C.h);
    for (int k = 0; k < v.q; ++k) for (int i = 0; i < v.n; ++i) for (int d = 0; d < v.d; ++d)
        c.near(v.at(d, k, i), (double)e[k][d + (size_t)v.d*i], tol, [&]{ return what + fmt(": basis function %d, component %d, point (%.6g,%.6g,%.6g,%.6g)", i, d, l[4*k], l[4*k+1], l[4*k+2], l[4*k+3]); });
}
static const int OPS[] = {ref::IDEN, ref::GRAD, ref::DX, ref::DY, ref::DZ, ref::DIV, ref::CURL};
inline bool op_ok(const Node& n, int op){ return (op != ref::DIV && op != ref::CURL) || dim(n) == 3; }
inline int any_op(Src& s, const Node& n){ int k = s.pick({3, 3, 1, 1, 1, 2, 2}); return op_ok(n, OPS[k]) ? OPS[k] : OPS[s.below(2)]; }
} // namespace gen
