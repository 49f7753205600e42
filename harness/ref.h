// Reference model of finite elements, independent of the library: every elementary space is rebuilt on every
// concrete tetrahedron from its textbook definition (polynomial space + degree-of-freedom functionals) by
// inverting the matrix of functionals in long double; derivatives are exact derivatives of polynomials;
// integrals use Gauss-Legendre/Duffy quadrature built here.
#pragma once
#include "pbt.h"
namespace ref {
using ld = long double;
struct V3 { ld v[3] = {0,0,0}; ld& operator[](int i){ return v[i]; } ld operator[](int i) const { return v[i]; } };
inline V3 operator+(V3 a, V3 b){ return {{a[0]+b[0], a[1]+b[1], a[2]+b[2]}}; }
inline V3 operator-(V3 a, V3 b){ return {{a[0]-b[0], a[1]-b[1], a[2]-b[2]}}; }
inline V3 operator*(ld s, V3 a){ return {{s*a[0], s*a[1], s*a[2]}}; }
inline ld dot(V3 a, V3 b){ return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; }
inline V3 cross(V3 a, V3 b){ return {{a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}}; }
inline ld norm(V3 a){ return sqrtl(dot(a, a)); }

struct Tet {
    V3 x[4]; V3 gl[4]; ld det = 0;                    // vertices, gradients of barycentric coordinates, determinant (signed)
    Tet(){}
    explicit Tet(const double* p){ for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) x[i][k] = p[3*i+k]; init(); }
    void init(){
        V3 a = x[1]-x[0], b = x[2]-x[0], c = x[3]-x[0]; det = dot(cross(a, b), c);
        gl[1] = (1/det)*cross(b, c); gl[2] = (1/det)*cross(c, a); gl[3] = (1/det)*cross(a, b); gl[0] = -1.0L*(gl[1]+gl[2]+gl[3]);
    }
    ld vol() const { return fabsl(det)/6; }
    V3 at(const ld* l) const { V3 r; for (int i = 0; i < 4; ++i) r = r + l[i]*x[i]; return r; }
    void bary(V3 p, ld* l) const { for (int i = 1; i < 4; ++i) l[i] = dot(gl[i], p - x[0]); l[0] = 1 - l[1]-l[2]-l[3]; }
};
static const int EDGE[6][2] = {{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}};
static const int FACE[4][3] = {{0,1,2},{1,2,3},{2,3,0},{3,0,1}};    // opposite node: 3,0,1,2

// ---- quadrature ------------------------------------------------------------------------------------------
inline void gauss01(int n, std::vector<ld>& x, std::vector<ld>& w){
    static std::map<int, std::pair<std::vector<ld>, std::vector<ld>>> cache;
    auto it = cache.find(n); if (it != cache.end()){ x = it->second.first; w = it->second.second; return; }
    x.assign(n, 0); w.assign(n, 0); const ld PI = acosl(-1.0L);
    for (int i = 0; i < n; ++i){
        ld z = cosl(PI*(i + 0.75L)/(n + 0.5L)), pp = 0;
        for (int k = 0; k < 100; ++k){
            ld p0 = 1, p1 = 0; for (int j = 0; j < n; ++j){ ld p2 = p1; p1 = p0; p0 = ((2*j + 1)*z*p1 - j*p2)/(j + 1); }
            pp = n*(z*p0 - p1)/(z*z - 1); ld dz = p0/pp; z -= dz; if (fabsl(dz) < 1e-19L) break;
        }
        x[i] = (1 - z)/2; w[i] = 1/((1 - z*z)*pp*pp);
    }
    cache[n] = {x, w};
}
struct QP { ld l[4]; ld w; };                          // barycentric point on the reference cell part, weights sum to one
// mean-value quadrature of degree >= d over the sub-simplex spanned by nodes nd[0..dim]
inline std::vector<QP> quad(int dim, const int* nd, int d){
    std::vector<QP> r;
    if (dim == 0){ QP q{}; q.l[nd[0]] = 1; q.w = 1; r.push_back(q); return r; }
    int n = (d + dim + 1)/2 + 1; std::vector<ld> x, w; gauss01(n, x, w);
    if (dim == 1) for (int i = 0; i < n; ++i){ QP q{}; q.l[nd[0]] = 1 - x[i]; q.l[nd[1]] = x[i]; q.w = w[i]; r.push_back(q); }
    if (dim == 2) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j){ QP q{}; ld a = x[i], b = x[j]*(1 - a); q.l[nd[0]] = 1-a-b; q.l[nd[1]] = a; q.l[nd[2]] = b; q.w = 2*w[i]*w[j]*(1-a); r.push_back(q); }
    if (dim == 3) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k){
        QP q{}; ld a = x[i], b = x[j]*(1-a), c = x[k]*(1-a-b); q.l[nd[0]] = 1-a-b-c; q.l[nd[1]] = a; q.l[nd[2]] = b; q.l[nd[3]] = c; q.w = 6*w[i]*w[j]*w[k]*(1-a)*(1-a)*(1-x[j]); r.push_back(q); }
    return r;
}

// ---- polynomials of degree <= 4 in (l1, l2, l3) ---------------------------------------------------------
const int DEG = 4, NM = 35;
struct Mono { int e[NM][3]; int id[DEG+1][DEG+1][DEG+1]; Mono(){ int n = 0; for (int t = 0; t <= DEG; ++t) for (int a = t; a >= 0; --a) for (int b = t - a; b >= 0; --b){ int c = t-a-b; e[n][0]=a; e[n][1]=b; e[n][2]=c; id[a][b][c]=n; ++n; } } };
inline const Mono& mono(){ static Mono m; return m; }
inline int nmono(int deg){ return (deg+1)*(deg+2)*(deg+3)/6; }
struct Poly {
    std::vector<ld> c;                                  // empty: zero polynomial
    bool zero() const { return c.empty(); }
};
inline Poly constant(ld v){ Poly p; p.c.assign(NM, 0); p.c[0] = v; return p; }
inline Poly lambda(int i){ Poly p; p.c.assign(NM, 0); if (i == 0){ p.c[0] = 1; for (int k = 1; k <= 3; ++k) p.c[k] = -1; } else p.c[i] = 1; return p; }
inline Poly mul(const Poly& a, const Poly& b){ Poly p; if (a.zero() || b.zero()) return p; p.c.assign(NM, 0); auto& m = mono(); for (int i = 0; i < NM; ++i) if (a.c[i] != 0) for (int j = 0; j < NM; ++j) if (b.c[j] != 0){ int e0 = m.e[i][0]+m.e[j][0], e1 = m.e[i][1]+m.e[j][1], e2 = m.e[i][2]+m.e[j][2]; if (e0+e1+e2 > DEG) abort(); p.c[m.id[e0][e1][e2]] += a.c[i]*b.c[j]; } return p; }
inline void axpy(Poly& a, ld s, const Poly& b){ if (b.zero()) return; if (a.zero()) a.c.assign(NM, 0); for (int i = 0; i < NM; ++i) a.c[i] += s*b.c[i]; }
struct MonoVal { ld v[NM]; ld d[3][NM]; };
inline MonoVal monos(const ld* l){
    MonoVal r; ld pw[3][DEG+1]; for (int k = 0; k < 3; ++k){ pw[k][0] = 1; for (int i = 1; i <= DEG; ++i) pw[k][i] = pw[k][i-1]*l[k+1]; }
    auto& m = mono();
    for (int i = 0; i < NM; ++i){
        const int* e = m.e[i]; r.v[i] = pw[0][e[0]]*pw[1][e[1]]*pw[2][e[2]];
        for (int k = 0; k < 3; ++k){ if (!e[k]){ r.d[k][i] = 0; continue; } ld t = e[k]; for (int q = 0; q < 3; ++q) t *= pw[q][e[q] - (q == k)]; r.d[k][i] = t; }
    }
    return r;
}

// ---- spaces -----------------------------------------------------------------------------------------------
struct LinPt { ld l[4]; std::vector<ld> w; };            // contribution w . u(l)
using LinFun = std::vector<LinPt>;
struct Space { int dim = 1; std::vector<std::vector<Poly>> phi; std::vector<LinFun> fun; int nfa() const { return (int)phi.size(); } };
enum El { P0, P1, P2, P3, ND0, RT0, CR1, B2, B4, NEL };
static const char* EL_NAME[] = {"P0","P1","P2","P3","ND0","RT0","CR1","B2","B4"};
inline int el_dim(int e){ return e == ND0 || e == RT0 ? 3 : 1; }
inline int el_nfa(int e){ static const int n[] = {1,4,10,20,6,4,4,6,1}; return n[e]; }
inline int el_order(int e){ static const int n[] = {0,1,2,3,1,1,1,2,4}; return n[e]; }

inline ld apply_fun(const LinFun& f, const std::vector<Poly>& u){ ld s = 0; for (auto& p: f){ MonoVal m = monos(p.l); for (size_t k = 0; k < u.size(); ++k) if (!u[k].zero() && p.w[k] != 0){ ld t = 0; for (int i = 0; i < NM; ++i) t += u[k].c[i]*m.v[i]; s += p.w[k]*t; } } return s; }
// solve for B = A^{-1} (row-major n x n), full pivoting
inline std::vector<ld> inverse(std::vector<ld> A, int n, bool* sing = nullptr){
    std::vector<ld> B(n*n, 0); for (int i = 0; i < n; ++i) B[i*n+i] = 1; if (sing) *sing = false;
    for (int c = 0; c < n; ++c){
        int p = c; for (int r = c; r < n; ++r) if (fabsl(A[r*n+c]) > fabsl(A[p*n+c])) p = r;
        if (fabsl(A[p*n+c]) < 1e-12L){ if (sing) { *sing = true; return B; } }
        for (int k = 0; k < n; ++k){ std::swap(A[p*n+k], A[c*n+k]); std::swap(B[p*n+k], B[c*n+k]); }
        ld d = 1/A[c*n+c]; for (int k = 0; k < n; ++k){ A[c*n+k] *= d; B[c*n+k] *= d; }
        for (int r = 0; r < n; ++r) if (r != c){ ld m = A[r*n+c]; if (m != 0) for (int k = 0; k < n; ++k){ A[r*n+k] -= m*A[c*n+k]; B[r*n+k] -= m*B[c*n+k]; } }
    }
    return B;
}
inline LinFun pt_fun(std::array<ld,4> l){ LinPt p; for (int i = 0; i < 4; ++i) p.l[i] = l[i]; p.w = {1}; return {p}; }
inline LinFun mean_fun(int dim, const int* nd, int deg, std::vector<ld> w){ LinFun f; for (auto& q: quad(dim, nd, deg)){ LinPt p; for (int i = 0; i < 4; ++i) p.l[i] = q.l[i]; for (ld x: w) p.w.push_back(x*q.w); f.push_back(p); } return f; }
inline V3 unit_tangent(const Tet& t, int e){ V3 d = t.x[EDGE[e][1]] - t.x[EDGE[e][0]]; return (1/norm(d))*d; }
inline V3 out_normal(const Tet& t, int f){ int op = (f + 3) % 4; V3 g = -1.0L*t.gl[op]; return (1/norm(g))*g; }
inline ld face_area(const Tet& t, int f){ return norm(cross(t.x[FACE[f][1]] - t.x[FACE[f][0]], t.x[FACE[f][2]] - t.x[FACE[f][0]]))/2; }

// make the basis dual to the functionals out of candidate functions
inline void dualize(Space& s, const std::vector<std::vector<Poly>>& cand){
    int n = (int)cand.size(); if (n != (int)s.fun.size()) abort();
    std::vector<ld> A(n*n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i*n+j] = apply_fun(s.fun[i], cand[j]);
    auto B = inverse(A, n); s.phi.assign(n, std::vector<Poly>(s.dim));
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (B[j*n+i] != 0) for (int k = 0; k < s.dim; ++k) axpy(s.phi[i][k], B[j*n+i], cand[j][k]);
}
inline Space element(int el, const Tet& t){
    Space s; s.dim = el_dim(el); std::vector<std::vector<Poly>> cand; static const int all[4] = {0,1,2,3};
    auto deg_cand = [&](int d){ for (int i = 0; i < nmono(d); ++i){ Poly p; p.c.assign(NM, 0); p.c[i] = 1; cand.push_back({p}); } };
    auto node = [&](int i){ std::array<ld,4> l{}; l[i] = 1; s.fun.push_back(pt_fun(l)); };
    auto edge = [&](int e, ld a){ std::array<ld,4> l{}; l[EDGE[e][0]] = 1 - a; l[EDGE[e][1]] = a; s.fun.push_back(pt_fun(l)); };
    switch (el){
        case P0: deg_cand(0); s.fun.push_back(mean_fun(3, all, 12, {1})); break;
        case P1: deg_cand(1); for (int i = 0; i < 4; ++i) node(i); break;
        case P2: deg_cand(2); for (int i = 0; i < 4; ++i) node(i); for (int e = 0; e < 6; ++e) edge(e, 0.5L); break;
        case P3: deg_cand(3); for (int i = 0; i < 4; ++i) node(i); for (int e = 0; e < 6; ++e){ edge(e, 1.0L/3); edge(e, 2.0L/3); }
            for (int f = 0; f < 4; ++f){ std::array<ld,4> l{}; for (int k = 0; k < 3; ++k) l[FACE[f][k]] = 1.0L/3; s.fun.push_back(pt_fun(l)); } break;
        case CR1: deg_cand(1); for (int f = 0; f < 4; ++f) s.fun.push_back(mean_fun(2, FACE[f], 12, {1})); break;
        case B2: for (int e = 0; e < 6; ++e) cand.push_back({mul(lambda(EDGE[e][0]), lambda(EDGE[e][1]))}); for (int e = 0; e < 6; ++e) edge(e, 0.5L); break;
        case B4: cand.push_back({mul(mul(lambda(0), lambda(1)), mul(lambda(2), lambda(3)))}); s.fun.push_back(pt_fun({0.25L,0.25L,0.25L,0.25L})); break;
        case ND0: case RT0: {
            // coordinates relative to vertex 0 as polynomials
            Poly X[3]; for (int k = 0; k < 3; ++k) for (int i = 1; i < 4; ++i) axpy(X[k], t.x[i][k] - t.x[0][k], lambda(i));
            ld h = cbrtl(fabsl(t.det)); for (int k = 0; k < 3; ++k) for (ld& c: X[k].c) c /= h;
            for (int k = 0; k < 3; ++k){ std::vector<Poly> p(3); p[k] = constant(1); cand.push_back(p); }
            if (el == RT0){ cand.push_back({X[0], X[1], X[2]}); for (int f = 0; f < 4; ++f){ V3 n = out_normal(t, f); s.fun.push_back(mean_fun(2, FACE[f], 12, {n[0], n[1], n[2]})); } }
            else { for (int k = 0; k < 3; ++k){ std::vector<Poly> p(3); int a = (k+1)%3, b = (k+2)%3; axpy(p[b], 1, X[a]); axpy(p[a], -1, X[b]); cand.push_back(p); }
                for (int e = 0; e < 6; ++e){ V3 d = unit_tangent(t, e); s.fun.push_back(mean_fun(1, EDGE[e], 12, {d[0], d[1], d[2]})); } }
            break;
        }
    }
    dualize(s, cand);
    return s;
}
inline Space power(const Space& b, int k){
    Space s; s.dim = b.dim*k;
    for (int d = 0; d < k; ++d) for (int i = 0; i < b.nfa(); ++i){
        std::vector<Poly> p(s.dim); for (int q = 0; q < b.dim; ++q) p[d*b.dim+q] = b.phi[i][q]; s.phi.push_back(p);
        LinFun f = b.fun[i]; for (auto& x: f){ std::vector<ld> w(s.dim, 0); for (int q = 0; q < b.dim; ++q) w[d*b.dim+q] = x.w[q]; x.w = w; } s.fun.push_back(f);
    }
    return s;
}
inline Space product(const std::vector<Space>& v){
    Space s; s.dim = 0; for (auto& b: v) s.dim += b.dim; int sh = 0;
    for (auto& b: v){ for (int i = 0; i < b.nfa(); ++i){
        std::vector<Poly> p(s.dim); for (int q = 0; q < b.dim; ++q) p[sh+q] = b.phi[i][q]; s.phi.push_back(p);
        LinFun f = b.fun[i]; for (auto& x: f){ std::vector<ld> w(s.dim, 0); for (int q = 0; q < b.dim; ++q) w[sh+q] = x.w[q]; x.w = w; } s.fun.push_back(f); }
        sh += b.dim; }
    return s;
}
// sum of spaces: the functions of all parts, functionals mixed to be dual to them
inline Space sum(const std::vector<Space>& v, bool* sing){
    Space s; s.dim = v[0].dim; std::vector<LinFun> raw;
    for (auto& b: v){ s.phi.insert(s.phi.end(), b.phi.begin(), b.phi.end()); raw.insert(raw.end(), b.fun.begin(), b.fun.end()); }
    int n = s.nfa(); std::vector<ld> G(n*n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) G[i*n+j] = apply_fun(raw[i], s.phi[j]);
    auto W = inverse(G, n, sing); s.fun.resize(n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (fabsl(W[i*n+j]) > 1e-16L) for (auto p: raw[j]){ for (ld& x: p.w) x *= W[i*n+j]; s.fun[i].push_back(p); }
    return s;
}
// operators: same codes as in the library's documentation (identity, gradient, divergence, curl, partial derivatives)
enum Op { IDEN = 1, GRAD = 2, DIV = 3, CURL = 4, DX = 6, DY = 7, DZ = 8 };
inline const char* op_name(int o){ static const char* n[] = {"?","IDEN","GRAD","DIV","CURL","?","DUDX","DUDY","DUDZ"}; return n[o]; }
inline int op_dim(int op, int dim){ return op == GRAD ? 3*dim : op == DIV ? dim/3 : dim; }
// matrix (op_dim x nfa), column-major, at barycentric point l
inline std::vector<ld> eval(const Space& s, const Tet& t, int op, const ld* l){
    int D = op_dim(op, s.dim), n = s.nfa(); std::vector<ld> R((size_t)D*n, 0); MonoVal m = monos(l); std::vector<ld> val(s.dim), g(3*s.dim);
    for (int i = 0; i < n; ++i){
        for (int k = 0; k < s.dim; ++k){
            const Poly& p = s.phi[i][k]; val[k] = 0; g[3*k] = g[3*k+1] = g[3*k+2] = 0; if (p.zero()) continue;
            ld a = 0, d[3] = {0,0,0}; for (int q = 0; q < NM; ++q){ ld c = p.c[q]; if (c == 0) continue; a += c*m.v[q]; d[0] += c*m.d[0][q]; d[1] += c*m.d[1][q]; d[2] += c*m.d[2][q]; }
            val[k] = a; for (int x = 0; x < 3; ++x) g[3*k+x] = d[0]*t.gl[1][x] + d[1]*t.gl[2][x] + d[2]*t.gl[3][x];
        }
        ld* r = &R[(size_t)D*i];
        switch (op){
            case IDEN: for (int k = 0; k < s.dim; ++k) r[k] = val[k]; break;
            case GRAD: for (int k = 0; k < 3*s.dim; ++k) r[k] = g[k]; break;
            case DX: case DY: case DZ: for (int k = 0; k < s.dim; ++k) r[k] = g[3*k + (op - DX)]; break;
            case DIV: r[0] = g[0] + g[4] + g[8]; break;
            case CURL: r[0] = g[3*2+1] - g[3*1+2]; r[1] = g[3*0+2] - g[3*2+0]; r[2] = g[3*1+0] - g[3*0+1]; break;
        }
    }
    return R;
}
} // namespace ref
