// L01: dense linear algebra against residuals in extended precision. L02: geometry of cells against definitions.
#include "femgen.h"
#include "anifem++/fem/geometry.h"
#include <cfloat>
using pbt::Src; using pbt::Ctx; using pbt::fmt; using ref::ld;
template<class T> using Buf = std::unique_ptr<T[]>;          // exact-size heap blocks: ASan sees the first element behind
template<class T> static Buf<T> buf(size_t n){ return Buf<T>(new T[n]); }

struct Mat { int n = 0, m = 0; std::vector<ld> a; Mat(){} Mat(int n, int m): n(n), m(m), a((size_t)n*m, 0) {} ld& operator()(int i, int j){ return a[i + (size_t)j*n]; } ld operator()(int i, int j) const { return a[i + (size_t)j*n]; } };
static Mat mul(const Mat& A, const Mat& B){ Mat C(A.n, B.m); for (int j = 0; j < B.m; ++j) for (int k = 0; k < A.m; ++k){ ld t = B(k, j); if (t != 0) for (int i = 0; i < A.n; ++i) C(i, j) += A(i, k)*t; } return C; }
static Mat tr(const Mat& A){ Mat C(A.m, A.n); for (int j = 0; j < A.m; ++j) for (int i = 0; i < A.n; ++i) C(j, i) = A(i, j); return C; }
static Mat eye(int n){ Mat I(n, n); for (int i = 0; i < n; ++i) I(i, i) = 1; return I; }
static ld nrm(const Mat& A){ ld t = 0; for (auto v: A.a) t = std::max(t, fabsl(v)); return t; }
template<class T> static Mat from(const T* p, int n, int m){ Mat A(n, m); for (size_t i = 0; i < A.a.size(); ++i) A.a[i] = p[i]; return A; }
static std::string show(const Mat& A){ std::string r = fmt("%dx%d[", A.n, A.m); for (int j = 0; j < A.m; ++j){ if (j) r += " | "; for (int i = 0; i < A.n; ++i) r += fmt(i ? ",%.17g" : "%.17g", (double)A(i, j)); if (r.size() > 1500) return r + "..."; } return r + "]"; }
static Mat ortho(Src& s, int n){ // product of reflections, or a signed permutation
    Mat Q = eye(n); if (s.chance(1, 5)){ std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; s.shuffle(p); Mat P(n, n); for (int i = 0; i < n; ++i) P(p[i], i) = s.flip() ? -1 : 1; return P; }
    for (int r = 0; r < std::min(n, 4) + 1; ++r){ std::vector<ld> v(n); ld t = 0; for (auto& x: v){ x = s.real(-1, 1); t += x*x; } if (t < 1e-6L) continue; for (int j = 0; j < n; ++j){ ld d = 0; for (int i = 0; i < n; ++i) d += v[i]*Q(i, j); d *= 2/t; for (int i = 0; i < n; ++i) Q(i, j) -= d*v[i]; } }
    return Q; }
template<class T> struct Lim; template<> struct Lim<double>{ static constexpr int e = 40; static constexpr double lc = 6; }; template<> struct Lim<float>{ static constexpr int e = 8; static constexpr double lc = 2; };
template<class T> static ld rnd(const Mat& A, T* o){ ld e = 0; for (size_t i = 0; i < A.a.size(); ++i){ o[i] = (T)A.a[i]; e = std::max(e, fabsl((ld)o[i] - A.a[i])); } return e; }
template<class T> static ld scale(Src& s, Ctx& c){ if (!s.chance(1, 3)) return 1; int e = s.range(-Lim<T>::e, Lim<T>::e); c.note(fmt("scaled by 2^%d", 3*e)); c.label(e < 0 ? "tiny" : "huge"); return ldexpl(1, 3*e); }
static int dim(Src& s, int big){ return s.pick({6, 3, 1}) == 0 ? 1 + (int)s.below(4) : s.chance(3, 4) ? 1 + (int)s.below(12) : 1 + (int)s.below(big); }
// matrices with known singular values; cond: log10 of the largest condition number; kinds also return exact rank through sv
struct Gen { Mat A; std::vector<ld> sv; bool svknown = false; const char* kind = ""; };
static Gen gen_mat(Src& s, int n, int m, double lc, bool full){
    Gen g; int k = std::min(n, m); g.A = Mat(n, m);
    switch (s.pick({3, 3, 2, 2, 2, full ? 0 : 2, full ? 0 : 1, 2})){
    case 0: { g.kind = "orthogonal factors"; for (int i = 0; i < k; ++i) g.sv.push_back(powl(10, -s.real(0, lc))); if (s.chance(1, 3)) for (auto& v: g.sv) v = s.flip() ? 1 : 0.25L; g.sv[0] = 1; Mat U = ortho(s, n), V = ortho(s, m); for (int t = 0; t < k; ++t) for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) g.A(i, j) += U(i, t)*g.sv[t]*V(j, t); g.svknown = true; break; }
    case 1: { g.kind = "random"; for (auto& v: g.A.a) v = s.unit(); break; }
    case 2: { g.kind = "permuted triangular"; std::vector<int> p(n), q(m); for (int i = 0; i < n; ++i) p[i] = i; for (int i = 0; i < m; ++i) q[i] = i; s.shuffle(p); s.shuffle(q); for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) if (i <= j) g.A(p[i], q[j]) = i == j ? (s.flip() ? 1 : -1)*s.real(0.5, 2) : s.chance(1, 2) ? 0 : s.unit(); break; }
    case 3: { g.kind = "diagonally dominant"; for (auto& v: g.A.a) v = s.chance(1, 3) ? 0 : s.unit(); for (int i = 0; i < k; ++i) g.A(i, i) = (s.flip() ? 1 : -1)*(k + 1.0 + s.unit()); break; }
    case 4: { g.kind = "rows and columns of different sizes"; std::vector<ld> r(n), q(m); for (auto& v: r) v = powl(10, -s.real(0, lc)); for (auto& v: q) v = powl(10, -s.real(0, lc)); for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) g.A(i, j) = ((i == j ? 2.0L : 0.0L) + (ld)s.unit()/std::max(k, 2))*r[i]*q[j]; break; }
    case 7: { g.kind = "entries of different sizes"; double w = s.real(0, 3*lc); for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) g.A(i, j) = s.chance(1, 3) ? 0 : (s.flip() ? 1 : -1)*powl(10, -s.real(0, w)); for (int i = 0; i < k; ++i) if (s.chance(2, 3)) g.A(i, i) = powl(10, -s.real(0, lc)); break; }
    case 5: { g.kind = "low rank"; int r = (int)s.below(k); for (int i = 0; i < k; ++i) g.sv.push_back(i < r ? powl(10, -s.real(0, 3)) : 0); Mat U = ortho(s, n), V = ortho(s, m); for (int t = 0; t < r; ++t) for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) g.A(i, j) += U(i, t)*g.sv[t]*V(j, t); g.svknown = true; break; }
    case 6: { g.kind = "repeated and zero columns"; for (int j = 0; j < m; ++j){ int w = j ? s.pick({2, 2, 1}) : 1; for (int i = 0; i < n; ++i) g.A(i, j) = w == 0 ? 0 : w == 1 ? (ld)s.range(-3, 3) : g.A(i, (int)s.below(1)); } break; } }
    return g; }
// condition in the largest norm, by exact inverse in long double (Gauss-Jordan with full pivoting)
static bool invert(Mat A, Mat& I){ int n = A.n; I = eye(n); std::vector<int> q; ld amax = nrm(A); std::vector<char> used(n, 0); std::vector<int> colrow(n, -1);
    for (int k = 0; k < n; ++k){ int r = -1, c = -1; ld mx = 0; for (int i = 0; i < n; ++i) if (!used[i]) for (int j = 0; j < n; ++j) if (colrow[j] < 0 && fabsl(A(i, j)) > mx){ mx = fabsl(A(i, j)); r = i; c = j; }
        if (r < 0 || mx < amax*1e-17L) return false; used[r] = 1; colrow[c] = r; ld d = 1/A(r, c); for (int j = 0; j < n; ++j){ A(r, j) *= d; I(r, j) *= d; } for (int i = 0; i < n; ++i) if (i != r){ ld f = A(i, c); if (f != 0) for (int j = 0; j < n; ++j){ A(i, j) -= f*A(r, j); I(i, j) -= f*I(r, j); } } }
    Mat J(n, n); for (int c = 0; c < n; ++c) for (int j = 0; j < n; ++j) J(c, j) = I(colrow[c], j); I = J; return true; }

template<class T> static void solve_case(Src& s, Ctx& c, int what){
    int n = what == 2 ? 3 : dim(s, 30); const ld eps = std::numeric_limits<T>::epsilon(); Gen g = gen_mat(s, n, n, Lim<T>::lc, true); c.note(g.kind); c.label(g.kind); ld sc = what == 2 && sizeof(T) == 4 ? 1 : scale<T>(s, c); for (auto& v: g.A.a) v *= sc;
    auto A = buf<T>(n*n); rnd(g.A, A.get()); Mat E = from(A.get(), n, n), I; c.note(show(E)); s.assume(invert(E, I)); ld cond = nrm(E)*nrm(I)*n; s.assume(cond < 0.02L/eps/n); c.nontrivial(n > 1);
    if (cond > 1e3L) c.label("cond>1e3");
    ld C = 60*n*eps;
    if (what == 0){ int M = 1 + (int)s.below(s.flip() ? 2 : 6); auto B = buf<T>(n*M), X = buf<T>(n*M); ld sb = s.chance(1, 4) ? ldexpl(1, 3*s.range(-8, 8)) : 1; for (int i = 0; i < n*M; ++i) B[i] = s.chance(1, 4) ? T(0) : (T)(sb*s.unit()); bool inplace = s.flip(); Mat b = from(B.get(), n, M); auto mem = buf<T>(n*(n + M)); auto im = buf<int>(2*n); T* x = inplace ? B.get() : X.get();
        c.note(fmt("%d right-hand sides%s", M, inplace ? ", in place" : "")); Ani::fullPivLU_solve((const T*)A.get(), (const T*)B.get(), n, M, x, mem.get(), im.get());
        Mat R = mul(E, from(x, n, M)); for (int l = 0; l < M; ++l){ ld xm = 0, bm = 0; for (int i = 0; i < n; ++i){ xm = std::max(xm, fabsl((ld)x[i + n*l])); bm = std::max(bm, fabsl(b(i, l))); } for (int i = 0; i < n; ++i) c.near((double)R(i, l), (double)b(i, l), (double)(C*n*(nrm(E)*xm + bm)) + 1e-300, [&]{ return fmt("residual in row %d of solution %d", i, l); }); }
        for (int i = 0; i < n*n; ++i) c.ok((ld)A[i] == E.a[i], "the matrix is left alone"); if (!inplace) for (int i = 0; i < n*M; ++i) c.ok((ld)B[i] == b.a[i], "the right-hand side is left alone");
    } else if (what == 1){ auto J = buf<T>(n*n), mem = buf<T>(2*n*n); auto im = buf<int>(2*n); bool inplace = s.flip(); if (inplace) std::copy(A.get(), A.get() + n*n, J.get()); c.note(inplace ? "in place" : "");
        Ani::fullPivLU_inverse((const T*)(inplace ? J.get() : A.get()), J.get(), n, mem.get(), im.get());
        Mat P = mul(E, from(J.get(), n, n)); ld jm = nrm(from(J.get(), n, n)); for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) c.near((double)P(i, j), i == j, (double)(C*n*nrm(E)*jm), [&]{ return fmt("A*inv(A) at %d,%d", i, j); });
        for (int i = 0; i < n*n; ++i) c.near((double)((ld)J[i]/nrm(I)), (double)(I.a[i]/nrm(I)), (double)(C*cond), "inverse");
    } else if (what == 2){ auto J = buf<T>(9); T d = Ani::inverse3x3((const T*)A.get(), J.get()); ld det = 0, ad = 0; static const int P[6][4] = {{0,1,2,1},{1,2,0,1},{2,0,1,1},{0,2,1,-1},{2,1,0,-1},{1,0,2,-1}}; for (auto& p: P){ ld t = E(p[0], 0)*E(p[1], 1)*E(p[2], 2); det += p[3]*t; ad += fabsl(t); }
        c.near((double)((ld)d/ad), (double)(det/ad), (double)(20*eps), "determinant"); s.assume(fabsl(det) > 100*eps*ad);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j){ int a = (j+1)%3, b = (j+2)%3, e = (i+1)%3, f = (i+2)%3; ld co = E(a, e)*E(b, f) - E(a, f)*E(b, e), ac = fabsl(E(a, e)*E(b, f)) + fabsl(E(a, f)*E(b, e)), u = ac/fabsl(det); c.near((double)((ld)J[i + 3*j]/(u + (u == 0))), (double)(co/det/(u + (u == 0))), (double)(20*eps*(1 + ad/fabsl(det))), [&]{ return fmt("inverse(%d,%d)", i, j); }); }
    } else { auto L = buf<T>(n*n); std::copy(A.get(), A.get() + n*n, L.get()); std::vector<int> p(n), q(n); for (int i = 0; i < n; ++i) p[i] = q[i] = i; Ani::fullPivLU(L.get(), n, p.data(), q.data());
        std::vector<int> sp = p, sq = q; std::sort(sp.begin(), sp.end()); std::sort(sq.begin(), sq.end()); for (int i = 0; i < n; ++i) c.ok(sp[i] == i && sq[i] == i, "orders of rows and columns are permutations");
        Mat l = eye(n), u(n, n); for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i){ if (i > j) l(i, j) = L[i + n*j]; else u(i, j) = L[i + n*j]; c.ok(i <= j || fabsl((ld)L[i + n*j]) <= 1 + 4*eps, [&]{ return fmt("multiplier %d,%d is %g", i, j, (double)L[i + n*j]); }); }
        Mat P = mul(l, u); for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) c.near((double)P(i, j), (double)E(p[i], q[j]), (double)(C*nrm(E)*4), [&]{ return fmt("L*U at %d,%d", i, j); }); }
}
#define SOLVE(name, T, what, q, t, rule) PBT_PROP(name, q, t, rule){ solve_case<T>(s, c, what); }
#if LA_PART == 1
SOLVE(L01_solve, double, 0, 6000, 60000, "systems of dimension above one; sizes up to 30, six kinds of matrices, scaled by up to 2^120")
SOLVE(L01_inverse, double, 1, 4000, 40000, "dimension above one")
SOLVE(L01_inverse3x3, double, 2, 8000, 80000, "every non-singular 3x3 matrix")
SOLVE(L01_lu, double, 3, 4000, 40000, "dimension above one")
#endif
#if LA_PART == 2
SOLVE(L01_solve_float, float, 0, 3000, 30000, "dimension above one, single precision")
SOLVE(L01_inverse_float, float, 1, 2000, 20000, "dimension above one, single precision")
SOLVE(L01_inverse3x3_float, float, 2, 2000, 20000, "every non-singular 3x3 matrix, single precision")
#endif
template<class T> static void chol_case(Src& s, Ctx& c){
    int n = dim(s, 30), M = 1 + (int)s.below(4); const ld eps = std::numeric_limits<T>::epsilon(); Mat E(n, n); const char* k;
    switch (s.pick({3, 2, 2})){ case 0: { k = "orthogonal factors"; Mat Q = ortho(s, n); std::vector<ld> l(n); for (auto& v: l) v = powl(10, -s.real(0, Lim<T>::lc)); l[0] = 1; for (int t = 0; t < n; ++t) for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) E(i, j) += Q(i, t)*l[t]*Q(j, t); break; }
        case 1: { k = "diagonally dominant"; for (int j = 0; j < n; ++j) for (int i = 0; i <= j; ++i) E(i, j) = E(j, i) = i == j ? n + 1.0L + s.unit() : s.chance(1, 3) ? 0.0L : (ld)s.unit(); break; }
        default: { k = "scaled"; std::vector<ld> d(n); for (auto& v: d) v = powl(10, -s.real(0, Lim<T>::lc)); for (int j = 0; j < n; ++j) for (int i = 0; i <= j; ++i) E(i, j) = E(j, i) = (i == j ? 2.0L*n : (ld)s.unit())*d[i]*d[j]; } }
    c.note(k); c.label(k); ld sc = scale<T>(s, c); auto A = buf<T>(n*n); for (auto& v: E.a) v *= sc; for (int j = 0; j < n; ++j) for (int i = 0; i <= j; ++i) A[i + n*j] = A[j + n*i] = (T)E(i, j); E = from(A.get(), n, n); c.note(show(E)); c.nontrivial(n > 1);
    Mat I; s.assume(invert(E, I)); ld cond = nrm(E)*nrm(I)*n; s.assume(cond < 0.02L/eps/n); bool inv = s.chance(1, 3), memA = s.chance(1, 3), inpl = s.flip(); c.note(fmt("%s%s%s", inv ? "inverse" : "solve", memA ? ", work memory in A" : "", inpl && !inv ? ", in place" : ""));
    auto mem = buf<T>(n*(n + 1)/2); T* wm = memA ? A.get() : mem.get(); if (inv) M = n; auto B = buf<T>(n*M), X = buf<T>(n*M); Mat b(n, M); if (inv) b = eye(n); else { for (int i = 0; i < n*M; ++i) B[i] = s.chance(1, 4) ? T(0) : (T)s.unit(); b = from(B.get(), n, M); }
    T* x = inpl ? B.get() : X.get(); if (inv) Ani::cholesky_inverse((const T*)A.get(), x, n, wm); else Ani::cholesky_solve((const T*)A.get(), (const T*)B.get(), n, M, x, wm);
    Mat R = mul(E, from(x, n, M)); for (int l = 0; l < M; ++l){ ld xm = 0, bm = 0; for (int i = 0; i < n; ++i){ xm = std::max(xm, fabsl((ld)x[i + n*l])); bm = std::max(bm, fabsl(b(i, l))); } for (int i = 0; i < n; ++i) c.near((double)R(i, l), (double)b(i, l), (double)(40*eps*n*n*(nrm(E)*xm + bm)) + 1e-300, [&]{ return fmt("residual in row %d of solution %d", i, l); }); }
    if (!memA) for (int i = 0; i < n*n; ++i) c.ok((ld)A[i] == E.a[i], "the matrix is left alone"); if (!inv && !inpl) for (int i = 0; i < n*M; ++i) c.ok((ld)B[i] == b.a[i], "the right-hand side is left alone");
}
#if LA_PART == 1
PBT_PROP(L01_cholesky, 6000, 60000, "positive definite systems of dimension above one"){ chol_case<double>(s, c); }
#endif
#if LA_PART == 2
PBT_PROP(L01_cholesky_float, 2000, 20000, "positive definite systems of dimension above one, single precision"){ chol_case<float>(s, c); }
#endif
static void orthonormal(Ctx& c, const Mat& Q, ld tol, const char* what){ Mat P = mul(tr(Q), Q); for (int j = 0; j < Q.m; ++j) for (int i = 0; i < Q.m; ++i) c.near((double)P(i, j), i == j, (double)tol, [&]{ return fmt("%s: product of columns %d and %d", what, i, j); }); }
template<class T> static void qr_case(Src& s, Ctx& c){
    int n = dim(s, 24), m = 1 + (int)s.below(n); const ld eps = std::numeric_limits<T>::epsilon(); Gen g = gen_mat(s, n, m, Lim<T>::lc, false); c.note(g.kind); c.label(g.kind); ld sc = scale<T>(s, c); for (auto& v: g.A.a) v *= sc; auto A = buf<T>(n*m); rnd(g.A, A.get()); Mat E = from(A.get(), n, m); c.note(show(E)); c.nontrivial(n > 1 && nrm(E) > 0);
    auto Q = buf<T>(n*n), R = buf<T>(m*m), mem = buf<T>(n*m + n + m); Ani::householderQR((const T*)A.get(), n, m, Q.get(), R.get(), mem.get()); ld C = 40*eps*n;
    Mat q = from(Q.get(), n, n), r = from(R.get(), m, m); orthonormal(c, q, C, "Q"); for (int j = 0; j < m; ++j) for (int i = j + 1; i < m; ++i) c.ok(r(i, j) == 0, [&]{ return fmt("R(%d,%d) = %g", i, j, (double)r(i, j)); });
    Mat q1(n, m); for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) q1(i, j) = q(i, j); Mat P = mul(q1, r); for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) c.near((double)P(i, j), (double)E(i, j), (double)(C*nrm(E)*m), [&]{ return fmt("Q*R at %d,%d", i, j); });
    for (int i = 0; i < n*m; ++i) c.ok((ld)A[i] == E.a[i], "the matrix is left alone");
}
#if LA_PART == 1
PBT_PROP(L01_qr, 5000, 50000, "at least two rows and a non-zero matrix (any rank)"){ qr_case<double>(s, c); }
#endif
#if LA_PART == 2
PBT_PROP(L01_qr_float, 2000, 20000, "at least two rows and a non-zero matrix (any rank), single precision"){ qr_case<float>(s, c); }
#endif
template<class T> static void svd_case(Src& s, Ctx& c){
    int n = dim(s, 20), m = dim(s, 20), k = std::min(n, m); const ld eps = std::numeric_limits<T>::epsilon(); Gen g = gen_mat(s, n, m, Lim<T>::lc, false); c.note(g.kind); c.label(g.kind); c.label(n < m ? "wide" : n > m ? "tall" : "square"); ld sc = scale<T>(s, c); for (auto& v: g.A.a) v *= sc; for (auto& v: g.sv) v *= sc; auto A = buf<T>(n*m); rnd(g.A, A.get()); Mat E = from(A.get(), n, m); ld em = 0; for (auto v: E.a) em += v*v; em = sqrtl(em); c.note(show(E)); c.nontrivial(k > 1 && em > 0);
    auto U = buf<T>(n*n), S = buf<T>(k), V = buf<T>(m*m), mem = buf<T>(2*k*k + k); bool hu = !s.chance(1, 4), hv = !s.chance(1, 4); if (!hu || !hv) c.note(fmt("without%s%s", hu ? "" : " U", hv ? "" : " V"));
    int rc = Ani::jacobiSVD((const T*)A.get(), n, m, hu ? U.get() : (T*)nullptr, S.get(), hv ? V.get() : (T*)nullptr, mem.get()); c.ok(rc == 0, [&]{ return fmt("returned %d", rc); }); ld C = 60*eps*std::max(n, m);
    for (int i = 0; i < k; ++i) c.ok(S[i] >= 0 && std::isfinite(S[i]) && (i == 0 || S[i] <= S[i-1]), [&]{ return fmt("singular value %d is %g", i, (double)S[i]); });
    ld fs = 0; for (int i = 0; i < k; ++i) fs += (ld)S[i]*S[i]; c.near((double)(sqrtl(fs)/(em + (em == 0))), em > 0, (double)C, "sum of squares of the singular values");
    if (g.svknown){ std::sort(g.sv.rbegin(), g.sv.rend()); for (int i = 0; i < k; ++i) c.near((double)((ld)S[i]/(em + (em == 0))), (double)(g.sv[i]/(em + (em == 0))), (double)C, [&]{ return fmt("singular value %d", i); }); }
    Mat u = from(U.get(), n, n), v = from(V.get(), m, m); if (hu) orthonormal(c, u, C, "U"); if (hv) orthonormal(c, v, C, "V");
    if (hu && hv){ for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i){ ld t = 0; for (int l = 0; l < k; ++l) t += u(i, l)*S[l]*v(j, l); c.near((double)(t/(em + (em == 0))), (double)(E(i, j)/(em + (em == 0))), (double)C, [&]{ return fmt("U*S*V^T at %d,%d", i, j); }); } }
    else if (hu){ Mat P = mul(tr(u), E); for (int i = 0; i < n; ++i){ ld t = 0; for (int j = 0; j < m; ++j) t += P(i, j)*P(i, j); c.near((double)(sqrtl(t)/(em + (em == 0))), (double)((i < k ? (ld)S[i] : 0)/(em + (em == 0))), (double)C, [&]{ return fmt("length of row %d of U^T*A", i); }); } }
    else if (hv){ Mat P = mul(E, v); for (int j = 0; j < m; ++j){ ld t = 0; for (int i = 0; i < n; ++i) t += P(i, j)*P(i, j); c.near((double)(sqrtl(t)/(em + (em == 0))), (double)((j < k ? (ld)S[j] : 0)/(em + (em == 0))), (double)C, [&]{ return fmt("length of column %d of A*V", j); }); } }
    for (int i = 0; i < n*m; ++i) c.ok((ld)A[i] == E.a[i], "the matrix is left alone");
}
#if LA_PART == 1
PBT_PROP(L01_svd, 5000, 50000, "at least two rows and columns and a non-zero matrix (any rank)"){ svd_case<double>(s, c); }
#endif
#if LA_PART == 2
PBT_PROP(L01_svd_float, 2000, 20000, "at least two rows and columns and a non-zero matrix (any rank), single precision"){ svd_case<float>(s, c); }
#endif

// ---- L02 ------------------------------------------------------------------------------------------------------------
#if LA_PART == 3
using ref::V3;
struct Cl { double p[12]; V3 x[4]; ld h, off; };
static Cl cell(Src& s, Ctx& c){ Cl r; gen::Cell g = gen::tet(s, c, 1e-4, false); std::copy(g.p, g.p + 12, r.p); if (s.chance(1, 3)){ int e = s.range(-100, 100); for (double& v: r.p) v = std::ldexp(v, e); c.label(e < 0 ? "tiny" : "huge"); }
    r.h = 0; r.off = 0; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k){ r.x[i][k] = r.p[3*i + k]; r.off = std::max(r.off, fabsl(r.x[i][k])); } for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) r.h = std::max(r.h, norm(r.x[i] - r.x[j])); c.note("tet=[" + pbt::join(r.p, r.p + 12, ",") + "]"); return r; }
template<class A, class B> static void vnear(Ctx& c, const A& a, const B& b, ld sc, ld tol, const std::string& what){ for (int k = 0; k < 3; ++k) c.near((double)((ld)a[k]/sc), (double)((ld)b[k]/sc), (double)tol, [&]{ return fmt("%s, component %d", what.c_str(), k); }); }
PBT_PROP(L02_primitives, 20000, 200000, "every triangle and segment of a generated cell; cells of either orientation, shifted, scaled by up to 2^100"){
    Cl r = cell(s, c); const double eps = DBL_EPSILON; std::vector<int> o{0, 1, 2, 3}; s.shuffle(o); const double* p[4]; V3 x[4]; for (int i = 0; i < 4; ++i){ p[i] = r.p + 3*o[i]; x[i] = r.x[o[i]]; } c.nontrivial(); c.note(fmt("order %d%d%d%d", o[0], o[1], o[2], o[3]));
    V3 cr = cross(x[0] - x[2], x[1] - x[2]); ld h2 = r.h*r.h; double v[3], a[3], b[3]; Ani::cross(p[0], p[1], p[2], v); vnear(c, v, cr, h2, 20*eps, "cross of three points");
    for (int k = 0; k < 3; ++k){ a[k] = p[0][k] - p[2][k]; b[k] = p[1][k] - p[2][k]; } Ani::cross(a, b, v); vnear(c, v, cr, h2, 20*eps, "cross of two vectors");
    double ar = Ani::tri_area(p[0], p[1], p[2]); c.near((double)(ar/h2), (double)(norm(cr)/2/h2), 20*eps, "area");
    double n[3]; double ar2 = Ani::face_normal(p[0], p[1], p[2], p[3], n); c.near((double)(ar2/h2), (double)(norm(cr)/2/h2), 20*eps, "area returned with the normal");
    V3 d = x[3] - x[0]; V3 e = (1/norm(cr))*cr; if (dot(e, d) > 0) e = -1.0L*e; ld q = norm(cr)/h2; vnear(c, n, e, 1, 100*eps/(double)q, "outer normal");
    c.label(dot(cross(x[1] - x[0], x[2] - x[0]), d) > 0 ? "flipped" : "kept");
}
PBT_PROP(L02_cell, 20000, 200000, "every face of a generated cell, the cell given as constant or as writable coordinates"){
    Cl r = cell(s, c); const double eps = DBL_EPSILON; c.nontrivial(); ref::Tet t; for (int i = 0; i < 4; ++i) t.x[i] = r.x[i]; t.init(); ld off = r.off + r.h;
    V3 cen = 0.25L*(r.x[0] + r.x[1] + r.x[2] + r.x[3]); int w = (int)s.below(3);
    auto run = [&](const auto& T, const char* what){
        auto ce = T.centroid(); vnear(c, ce, cen, off, 8*eps, fmt("%s: centroid", what)); c.near((double)(T.diameter()/r.h), 1, 20*eps, fmt("%s: diameter", what));
        V3 sum; for (int f = 0; f < 4; ++f){ int q[3], k = 0; for (int i = 0; i < 4; ++i) if (i != f) q[k++] = i; V3 n = ref::cross(r.x[q[1]] - r.x[q[0]], r.x[q[2]] - r.x[q[0]]); if (ref::dot(n, r.x[f] - r.x[q[0]]) > 0) n = -1.0L*n; ld ln = ref::norm(n), h2 = r.h*r.h;
            auto nn = T.normal((unsigned char)f); vnear(c, nn, (1/ln)*n, 1, 100*eps*h2/ln, fmt("%s: normal opposite to node %d", what, f));
            auto nd = T.normal_direction((unsigned char)f); vnear(c, nd, n, h2, 20*eps, fmt("%s: direction of the normal opposite to node %d", what, f)); } };
    Ani::Tetra<const double> tc(r.p, r.p + 3, r.p + 6, r.p + 9); if (w != 1) run(tc, "constant");
    if (w != 0){ Ani::Tetra<double> tw(r.p, r.p + 3, r.p + 6, r.p + 9); run(tw, "writable"); }
    if (w == 2){ Ani::DenseMatrix<const double> m[4]; for (int i = 0; i < 4; ++i) m[i] = Ani::DenseMatrix<const double>(r.p + 3*i, 3, 1); Ani::Tetra<const double> tm(m[0], m[1], m[2], m[3]); run(tm, "from matrices"); }
}
// barycentric coordinates recovered from the image of a point, volumes and gradients through the element integrals
PBT_PROP(L02_barycentric, 4000, 40000, "points given by barycentric coordinates in batches of cells"){
    int f = 1 + (int)s.below(3); std::vector<gen::Cell> T; std::vector<double> co[4]; for (int k = 0; k < f; ++k){ T.push_back(gen::tet(s, c, 1e-3)); for (int i = 0; i < 4; ++i) co[i].insert(co[i].end(), T[k].p + 3*i, T[k].p + 3*i + 3); }
    auto XYZ = Ani::make_tetras((const double*)co[0].data(), (const double*)co[1].data(), (const double*)co[2].data(), (const double*)co[3].data(), f); c.nontrivial(); Ani::DynMem<> wmem; const double eps = DBL_EPSILON;
    for (int k = 0; k < f; ++k){ int q = 1 + (int)s.below(4); std::vector<double> L = gen::points(s, q), X; for (int n = 0; n < q; ++n) for (int d = 0; d < 3; ++d){ ld v = 0; for (int i = 0; i < 4; ++i) v += (ld)L[4*n + i]*T[k].p[3*i + d]; X.push_back((double)v); }
        ld off = 0; for (double v: T[k].p) off = std::max(off, fabsl((ld)v)); for (double v: X) off = std::max(off, fabsl((ld)v)); ld tol = 400*eps*(1 + off/T[k].h)/std::pow(T[k].quality(), 2);
        // lambda_i at the point = the P1 function with one unit coefficient
        Ani::FemSpace P1{Ani::P1Space()}; auto Op = P1.getOP(Ani::IDEN); for (int i = 0; i < 4; ++i){ double dofs[4] = {0, 0, 0, 0}; dofs[i] = 1; std::vector<double> out(q, -7); Ani::ArrayView<const double> Xv(X.data(), X.size()); Ani::DenseMatrix<> ov(out.data(), q, 1); auto tt = T[k].XYZ(); Ani::DenseMatrix<> dm(dofs, 4, 1); 
            Ani::fem3DapplyX(tt, Xv, dm, Op, ov, wmem); for (int n = 0; n < q; ++n) c.near(out[n], L[4*n + i], (double)tol, [&]{ return fmt("cell %d: barycentric coordinate %d of point %d", k, i, n); }); } }
    // volumes and products of gradients
    std::vector<double> am(16*f, -7); Ani::DenseMatrix<> A(am.data(), 1, f); using G = Ani::Operator<Ani::GRAD, Ani::FemFix<Ani::FEM_P1>>; using I0 = Ani::Operator<Ani::IDEN, Ani::FemFix<Ani::FEM_P0>>;
    Ani::fem3Dtet<I0, I0>(XYZ, Ani::TensorNull<>, A, wmem, 1); for (int k = 0; k < f; ++k) c.near((double)(am[k]/T[k].t.vol()), 1, (double)(100*eps/T[k].quality()), [&]{ return fmt("volume of cell %d", k); });
    Ani::DenseMatrix<> B(am.data(), 4, 4*f); Ani::fem3Dtet<G, G>(XYZ, Ani::TensorNull<>, B, wmem, 1); for (int k = 0; k < f; ++k) for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j){ ld e = ref::dot(T[k].t.gl[i], T[k].t.gl[j])*T[k].t.vol(), sc = ref::norm(T[k].t.gl[i])*ref::norm(T[k].t.gl[j])*T[k].t.vol(); c.near((double)(am[16*k + j*4 + i]/sc), (double)(e/sc), (double)(1000*eps/std::pow(T[k].quality(), 2)), [&]{ return fmt("cell %d: gradients %d and %d", k, i, j); }); }
}
#endif
