// Q01: quadrature rules
#include <stdexcept>
#include "anifem++/fem/quadrature_formulas.h"
#include "ref.h"
using pbt::Src; using pbt::Ctx; using pbt::fmt;
using ld = long double;

struct Rule { int dim, n; std::vector<int> sym; std::vector<std::vector<ld>> p; std::vector<ld> w; const double *pd, *wd; };
template<int D, class Q> static Rule take(const Q& q){
    Rule r; r.dim = D; r.n = q.GetNumPoints(); for (int x: q.GetSymmetryPartition()) r.sym.push_back(x); r.pd = q.GetPointData(); r.wd = q.GetWeightData();
    for (int i = 0; i < r.n; ++i){ auto pw = q.GetPointWeight(i); std::vector<ld> v; for (int k = 0; k <= D; ++k) v.push_back(pw.p[k]); r.p.push_back(v); r.w.push_back(pw.w); }
    return r;
}
static Rule get(int dim, int ord){
    if (dim == 1) return take<1>(segment_quadrature_formulas(ord));
    if (dim == 2) return take<2>(triangle_quadrature_formulas(ord));
    return take<3>(tetrahedron_quadrature_formulas(ord));
}
static const int MAXO[4] = {0, 21, 20, 20};
static ld fact(int n){ ld r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }

// every rule, every barycentric monomial of degree <= order (exhaustive)
PBT_ENUM(Q01_monomials, 22 + 21 + 21, "one case per (cell dimension, order): all barycentric monomials of degree <= order against the closed formula; all are non-trivial"){
    int idx = (int)s.below(64); int dim = idx < 22 ? 1 : idx < 43 ? 2 : 3, ord = dim == 1 ? idx : dim == 2 ? idx - 22 : idx - 43;
    c.note(fmt("dim=%d order=%d", dim, ord)); c.nontrivial();
    Rule r = get(dim, ord);
    c.ok(r.n > 0, "rule has no points");
    ld sw = 0;
    for (int i = 0; i < r.n; ++i){
        ld t = 0; sw += r.w[i];
        for (int k = 0; k <= dim; ++k){ t += r.p[i][k]; c.ok(r.p[i][k] >= -1e-14L && r.p[i][k] <= 1 + 1e-14L, [&]{ return fmt("point %d is outside the cell: coordinate %d = %.17Lg", i, k, r.p[i][k]); }); }
        c.near((double)t, 1, 1e-14, [&]{ return fmt("sum of barycentric coordinates of point %d", i); });
        for (int k = 0; k <= dim; ++k) c.near(r.pd[(dim+1)*i+k], (double)r.p[i][k], 1e-14, [&]{ return fmt("exposed data, point %d, coordinate %d", i, k); });
        c.near(r.wd[i], (double)r.w[i], 1e-16, [&]{ return fmt("exposed data, weight %d", i); });
    }
    c.near((double)sw, 1, 5e-14, "sum of weights");
    // a point set is a set of distinct points
    for (int i = 0; i < r.n; ++i) for (int j = 0; j < i; ++j){ ld d = 0; for (int k = 0; k <= dim; ++k) d += fabsl(r.p[i][k]-r.p[j][k]); c.ok(d > 1e-6L, [&]{ return fmt("points %d and %d coincide", j, i); }); }
    int e[4] = {0,0,0,0}; long cnt = 0;
    std::function<void(int,int)> rec = [&](int k, int left){
        if (k == dim + 1){
            int t = 0; ld ex = fact(dim); for (int q = 0; q <= dim; ++q){ t += e[q]; ex *= fact(e[q]); } ex /= fact(t + dim);
            ld v = 0; for (int i = 0; i < r.n; ++i){ ld m = r.w[i]; for (int q = 0; q <= dim; ++q) for (int z = 0; z < e[q]; ++z) m *= r.p[i][q]; v += m; }
            ++cnt; c.near((double)v, (double)ex, 2e-13*(double)ex + 2e-15, [&]{ return fmt("mean of l^(%d,%d,%d,%d)", e[0], e[1], e[2], e[3]); });
            return;
        }
        for (int z = 0; z <= left; ++z){ e[k] = z; rec(k + 1, left - z); } e[k] = 0;
    };
    rec(0, ord);
    c.note(fmt("%d points, %ld monomials", r.n, cnt));
    // declared symmetry orbits
    static const int osz[4][5] = {{0},{1,2},{1,3,6},{1,4,6,12,24}};
    bool sym = true; int tot = 0; for (size_t k = 0; k < r.sym.size(); ++k){ if (r.sym[k] < 0) sym = false; else tot += r.sym[k]*osz[dim][k]; }
    c.ok(sym, "rule is not declared symmetric although the documentation guarantees it");
    c.ok(tot == r.n, [&]{ return fmt("declared orbits have %d points, the rule has %d", tot, r.n); });
    int at = 0;
    for (size_t k = 0; k < r.sym.size(); ++k) for (int o = 0; o < r.sym[k]; ++o, at += osz[dim][k]){
        auto key = [&](int i){ auto v = r.p[i]; std::sort(v.begin(), v.end()); return v; };
        auto a = key(at);
        for (int i = at; i < at + osz[dim][k]; ++i){
            auto b = key(i); for (int q = 0; q <= dim; ++q) c.near((double)b[q], (double)a[q], 1e-14, [&]{ return fmt("orbit of points %d..%d: point %d is not an image of the first", at, at + osz[dim][k] - 1, i); });
            c.near((double)r.w[i], (double)r.w[at], 1e-16, [&]{ return fmt("orbit of points %d..%d: weight of point %d", at, at + osz[dim][k] - 1, i); });
        }
        // number of distinct images equals the orbit size
        int mult = 1; { std::vector<int> cnts; for (int q = 0; q <= dim;){ int z = q; while (z <= dim && fabsl(a[z]-a[q]) < 1e-9L) ++z; cnts.push_back(z-q); q = z; } mult = (int)(fact(dim+1) + 0.5L); for (int z: cnts) mult /= (int)(fact(z) + 0.5L); }
        c.ok(mult == osz[dim][k], [&]{ return fmt("point %d has %d images under the symmetry group, but is declared in an orbit of %d", at, mult, osz[dim][k]); });
    }
}
// random simplices and polynomials in Cartesian coordinates, mean value against Gauss-Duffy quadrature
PBT_PROP(Q01_affine, 60000, 800000, "random simplex (any shape, scale 1e-3..1e3, shifted), random polynomial of random degree <= the order asked: product of affine functions plus power; non-trivial when the degree is >= 2"){
    int dim = s.range(1, 3), ord = s.range(0, MAXO[dim]); int deg = ord == 0 ? 0 : (s.flip() ? ord : s.range(0, ord));
    Rule r = get(dim, ord);
    ld x[4][3]; double sc = std::pow(10.0, s.range(-3, 3)), sh = s.pick({3,1}) ? 10*sc : sc;
    for (int i = 0; i <= dim; ++i) for (int k = 0; k < 3; ++k) x[i][k] = sc*s.unit() + (k == 1 ? sh : -sh/2);
    // polynomial: sum of two products of deg affine factors, factors bounded by one on the simplex
    ld big = 0; for (int i = 0; i <= dim; ++i) for (int k = 0; k < 3; ++k) big = std::max(big, fabsl(x[i][k]));
    std::vector<std::array<ld,4>> f[2];
    for (int t = 0; t < 2; ++t) for (int d = 0; d < (t ? s.range(0, deg) : deg); ++d){ std::array<ld,4> a; ld n = 1e-30L; for (int k = 0; k < 3; ++k) a[k] = s.unit()/big; a[3] = s.unit(); 
        for (int i = 0; i <= dim; ++i){ ld v = a[3]; for (int k = 0; k < 3; ++k) v += a[k]*x[i][k]; n = std::max(n, fabsl(v)); } for (ld& q: a) q /= n; f[t].push_back(a); }
    auto val = [&](const ld* l){ ld p[3] = {0,0,0}; for (int i = 0; i <= dim; ++i) for (int k = 0; k < 3; ++k) p[k] += l[i]*x[i][k]; ld z = 0; for (int t = 0; t < 2; ++t){ ld m = 1; for (auto& a: f[t]) m *= a[0]*p[0]+a[1]*p[1]+a[2]*p[2]+a[3]; z += m; } return z; };
    c.note(fmt("dim=%d order=%d degree=%d scale=%g shift=%g", dim, ord, deg, sc, sh)); c.nontrivial(deg >= 2); c.label(fmt("dim%d", dim));
    ld v = 0; for (int i = 0; i < r.n; ++i) v += r.w[i]*val(r.p[i].data());
    static const int all[4] = {0,1,2,3}; ld ex = 0; for (auto& q: ref::quad(dim, all, deg)) ex += q.w*val(q.l);
    c.near((double)v, (double)ex, 2e-13*(1 + deg), "mean value of the polynomial");
}
PBT_PROP(Q01_refused, 2000, 20000, "orders outside the supported range; every case is non-trivial"){
    int dim = s.range(1, 3); int o = s.flip() ? -1 - (int)s.below(s.flip() ? 3 : 1000000) : MAXO[dim] + 1 + (int)s.below(s.flip() ? 3 : 1000000);
    c.note(fmt("dim=%d order=%d", dim, o)); c.nontrivial(); bool thrown = false;
    try { Rule r; (void)r; if (dim == 1) segment_quadrature_formulas(o); else if (dim == 2) triangle_quadrature_formulas(o); else tetrahedron_quadrature_formulas(o); } catch (const std::exception&){ thrown = true; }
    c.ok(thrown, "an unsupported order is not refused");
}
#ifdef WITH_EIGEN
PBT_ENUM(Q01_eigen_views, 22 + 21 + 21, "one case per (cell dimension, order): the matrix views against the exposed data"){
    int idx = (int)s.below(64); int dim = idx < 22 ? 1 : idx < 43 ? 2 : 3, ord = dim == 1 ? idx : dim == 2 ? idx - 22 : idx - 43; c.nontrivial(); c.note(fmt("dim=%d order=%d", dim, ord));
    auto chk = [&](const auto& q){ auto W = q.WeightView(); auto B = q.BaryView(); c.ok(W.size() == q.GetNumPoints() && B.cols() == q.GetNumPoints() && B.rows() == dim + 1, "sizes of the views");
        for (int i = 0; i < q.GetNumPoints(); ++i){ c.ok(W[i] == q.GetWeightData()[i], "weight view"); for (int k = 0; k <= dim; ++k) c.ok(B(k, i) == q.GetPointData()[(dim+1)*i+k], "point view"); } };
    if (dim == 1) chk(segment_quadrature_formulas(ord)); else if (dim == 2) chk(triangle_quadrature_formulas(ord)); else chk(tetrahedron_quadrature_formulas(ord));
}
#endif
