// L03: matrices and arrays over memory of the caller, against plain vectors.
#include "pbt.h"
#include <cmath>
#include <iostream>
#include "anifem++/fem/fem_memory.h"
using pbt::Src; using pbt::Ctx; using pbt::fmt; typedef long double ld;
template<class T> using Buf = std::unique_ptr<T[]>;
template<class T> struct Tr { static constexpr bool flt = std::is_floating_point<T>::value; };
template<class T> static T val(Src& s){
    if (!Tr<T>::flt) return (T)s.range(-20, 20);
    switch (s.pick({4, 4, 1, 1})){ case 0: return (T)s.range(-4, 4); case 1: return (T)s.unit(); case 2: return (T)(s.unit()*std::pow(10.0, s.range(-30, 30))); default: { T x = std::numeric_limits<T>::min()*(T)(1 + s.unit()*0.5); if (s.flip()) x *= (T)s.range(-8, 8); if (s.chance(1, 3)) x = std::numeric_limits<T>::denorm_min()*(T)s.range(-5, 5); return x; } } }
template<class T> static std::string sh(const std::vector<T>& v){ std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += fmt(i ? ",%.21Lg" : "%.21Lg", (ld)v[i]); return r + "]"; }
template<class T> struct Mx { size_t n, m, extra, off; Buf<T> b; std::vector<T> v; T g; Ani::DenseMatrix<T> A; // a matrix with its model; elements before and behind hold g
    size_t len() const { return off + n*m + extra; }
    void check(Ctx& c, const std::string& after){ for (size_t i = 0; i < len(); ++i){ bool in = i >= off && i < off + n*m; T x = in ? v[i - off] : g; c.ok(b[i] == x || (x != x && b[i] != b[i]), [&]{ return "after " + after + (in ? fmt(" element %zu of a %zux%zu matrix is %.21Lg and not %.21Lg", i - off, n, m, (ld)b[i], (ld)x) : fmt(" memory outside a %zux%zu matrix has changed", n, m)); }); }
        c.ok(A.nRow == n && A.nCol == m && A.data == b.get() + off && A.size == n*m + extra, [&]{ return "after " + after + " the view has other sizes"; }); } };
template<class T> static void make(Src& s, Mx<T>& x, size_t n, size_t m){ x.n = n; x.m = m; x.extra = s.chance(1, 3) ? s.below(5) : 0; x.off = s.chance(1, 3) ? s.below(3) : 0; x.b.reset(new T[x.len()]); x.g = (T)91; for (size_t i = 0; i < x.len(); ++i) x.b[i] = x.g; x.v.resize(n*m); for (auto& t: x.v) t = val<T>(s); for (size_t i = 0; i < n*m; ++i) x.b[x.off + i] = x.v[i];
    T* d = x.b.get() + x.off; if (x.extra) { if (s.flip()) x.A = Ani::DenseMatrix<T>(d, n, m, n*m + x.extra); else x.A.Init(d, n, m, n*m + x.extra); } else x.A = Ani::DenseMatrix<T>(d, n, m); }
template<class T> static bool close(T a, T x, int k = 4){ if (x != x) return a != a; if (a == x) return true; return Tr<T>::flt && std::fabs((ld)a - (ld)x) <= k*(ld)std::numeric_limits<T>::epsilon()*std::fabs((ld)x) + 2*(ld)std::numeric_limits<T>::denorm_min(); }
template<class T> static void parse(Ctx& c, const std::string& t, const Mx<T>& x, const std::string& vs, const std::string& rs){
    size_t p = 0; for (size_t i = 0; i < x.n; ++i) for (size_t j = 0; j < x.m; ++j){ std::string sep = j + 1 < x.m ? vs : rs; size_t q = t.find(sep, t.find_first_not_of(' ', p)); c.ok(q != std::string::npos, [&]{ return fmt("printed text has no separator behind (%zu, %zu): ", i, j) + t; }); std::string w = t.substr(p, q - p); char* e; ld y = strtold(w.c_str(), &e); ld z = x.v[i + j*x.n];
        c.ok(!*e && !w.empty() && (std::fabs(y - z) <= std::pow(10.0L, -std::numeric_limits<T>::digits10)*std::fabs(z) || y == z), [&]{ return fmt("element (%zu, %zu) = %.21Lg is printed as '", i, j, z) + w + "' in " + t; }); p = q + sep.size(); }
    c.ok(p == t.size() || x.m == 0, [&]{ return "printed text has more than the elements: " + t; }); }
template<class T, class R> static void history(Src& s, Ctx& c){
    size_t n = s.below(6), m = s.below(6); if (s.chance(3, 4)){ n = 1 + n % 5; m = 1 + m % 5; } Mx<T> x, y; Mx<R> z; make(s, x, n, m); make(s, y, n, m); make(s, z, n, m); c.note(fmt("%zux%zu ", n, m) + sh(x.v) + " " + sh(y.v) + " " + sh(z.v)); int k = 1 + (int)s.below(8); c.nontrivial(n*m > 1 && n != m && k > 2); if (n*m == 0) c.label("empty");
    const T big = Tr<T>::flt ? std::numeric_limits<T>::max()/1024 : (T)1000000; 
    for (int q = 0; q < k; ++q){ std::string a; for (auto& t: x.v) if (!(t <= big && t >= -big)){ for (size_t i = 0; i < n*m; ++i) x.b[x.off + i] = x.v[i] = (T)1; break; }
        switch (s.pick({2, 2, 2, 2, 1, 1, 2, 2, 2, 2})){
        case 0: { bool mn = s.flip(), other = s.flip(); a = mn ? "-=" : "+="; Ani::DenseMatrix<T>* r; for (size_t i = 0; i < n*m; ++i){ if (other){ if (mn) x.v[i] -= z.v[i]; else x.v[i] += z.v[i]; } else { if (mn) x.v[i] -= y.v[i]; else x.v[i] += y.v[i]; } } r = other ? (mn ? &(x.A -= z.A) : &(x.A += z.A)) : (mn ? &(x.A -= y.A) : &(x.A += y.A)); c.ok(r == &x.A, "a compound assignment does not return its left operand"); break; }
        case 1: { if (s.flip()){ int f = s.range(-4, 4); a = fmt("*= %d", f); x.A *= f; for (auto& t: x.v) t *= f; } else { T f = val<T>(s); a = fmt("*= %Lg", (ld)f); x.A *= f; for (auto& t: x.v) t *= f; } break; }
        case 2: { T f = val<T>(s); if (s.flip()){ int g = s.range(-6, 6); if (!g) g = 2; f = (T)g; a = fmt("/= %d", g); x.A /= g; } else { if (f == 0) f = 3; a = fmt("/= %.21Lg", (ld)f); x.A /= f; } for (size_t i = 0; i < n*m; ++i){ T w = x.v[i]/f, &u = x.b[x.off + i]; c.ok(close(u, w), [&]{ return fmt("%.21Lg ", (ld)x.v[i]) + a + fmt(" is %.21Lg and not %.21Lg", (ld)u, (ld)w); }); x.v[i] = u; } break; }
        case 3: { if (!n || !m) break; size_t i = s.below(n), j = s.below(m); T f = val<T>(s); a = fmt("setting (%zu, %zu)", i, j); if (s.flip()) x.A(i, j) = f; else x.A[i + n*j] = f; x.v[i + n*j] = f; break; }
        case 4: a = "SetZero"; x.A.SetZero(); for (auto& t: x.v) t = 0; break;
        case 5: { int f = s.flip() ? 1 : s.range(-4, 4); a = fmt("SetEye(%d)", f); if (f == 1 && s.flip()) x.A.SetEye(); else x.A.SetEye(f); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) x.v[i + n*j] = i == j ? (T)f : (T)0; break; }
        case 6: { a = "reading"; const auto& C = x.A; for (size_t j = 0; j < m; ++j) for (size_t i = 0; i < n; ++i){ c.ok(C(i, j) == x.v[i + n*j] && C[i + n*j] == x.v[i + n*j] && &x.A(i, j) == x.b.get() + x.off + i + n*j, [&]{ return fmt("element (%zu, %zu) of a %zux%zu matrix is another", i, j, n, m); }); } break; }
        case 7: { if (!Tr<T>::flt) break; a = "ScalNorm"; double f = s.range(-8, 8)/2.0, g = s.range(-8, 8)/2.0; bool two = s.flip(); ld t = 0, mx = 0; for (size_t i = 0; i < n*m; ++i){ ld u = f*(ld)x.v[i] + (two ? g*(ld)y.v[i] : 0); t += u*u; mx = std::max(mx, std::max(std::fabs(f*(ld)x.v[i]), two ? std::fabs(g*(ld)y.v[i]) : 0)); } t = std::sqrt(t);
            ld lim = std::sqrt((ld)std::numeric_limits<T>::max())/100, low = std::sqrt((ld)std::numeric_limits<T>::min()); if (mx > lim) break; for (size_t i = 0; i < n*m; ++i) if (std::fabs((ld)x.v[i]) > lim) mx = lim*2; if (mx > lim) break;
            T r = two ? Ani::DenseMatrix<T>::ScalNorm(f, x.A, g, y.A) : Ani::DenseMatrix<T>::ScalNorm(f, x.A); c.ok(std::fabs((ld)r - t) <= 40*(ld)std::numeric_limits<T>::epsilon()*mx + 40*low, [&]{ return fmt("norm of %g*A", f) + (two ? fmt(" + %g*B", g) : "") + fmt(" is %.21Lg and not %.21Lg", (ld)r, t); }); break; }
        case 8: { static const char* S[] = {" ", ", ", ";", "\t", " | ", "\n", "],\n"}; bool def = s.flip(); std::string vs = def ? " " : S[s.below(5)], rs = def ? "\n" : S[1 + s.below(6)]; if (!def && (vs == rs || vs == " ")) break; a = "printing"; std::string t; if (def && s.flip()){ std::ostringstream o; o << x.A; t = o.str(); } else t = def ? x.A.to_string() : x.A.to_string(vs, rs); if (def){ std::istringstream in(t); std::string l; size_t i = 0; while (std::getline(in, l) && m){ c.ok(i < n, "more lines than rows"); std::istringstream w(l); std::string e; size_t j = 0; while (w >> e){ c.ok(j < m, "more words than columns"); ld y = strtold(e.c_str(), nullptr), q = x.v[i + j*n]; c.ok(y == q || std::fabs(y - q) <= std::pow(10.0L, -std::numeric_limits<T>::digits10)*std::fabs(q), [&]{ return fmt("element (%zu, %zu) = %.21Lg is printed as ", i, j, q) + e; }); ++j; } c.ok(j == m, "fewer words than columns"); ++i; } c.ok(i == n || !m, [&]{ return "fewer lines than rows: " + t; }); } else parse(c, t, x, vs, rs); break; }
        case 9: { a = "changing a view"; auto C = x.A; c.ok(C.data == x.A.data && C.nRow == n && C.nCol == m, "a copied view refers to other memory"); if (n*m){ size_t i = s.below(n*m); C[i] = (T)3; x.v[i] = (T)3; } C.nRow = 0; break; }
        }
        x.check(c, a); y.check(c, a); z.check(c, a); } }
PBT_PROP(L03_matrix, 40000, 600000, "matrices that are not square, with more than two operations"){ history<double, float>(s, c); }
PBT_PROP(L03_matrix_float, 20000, 300000, "matrices that are not square, with more than two operations"){ history<float, short>(s, c); }
PBT_PROP(L03_matrix_int, 20000, 300000, "matrices that are not square, with more than two operations"){ history<int, short>(s, c); }
PBT_PROP(L03_matrix_wide, 20000, 300000, "matrices that are not square, with more than two operations"){ history<long double, double>(s, c); }
PBT_PROP(L03_array, 20000, 200000, "arrays of at least two elements"){
    size_t n = s.below(8), cap = n + s.below(4); Buf<double> b(new double[cap + 1]); std::vector<double> v; for (size_t i = 0; i < cap; ++i) b[i] = val<double>(s); v.assign(b.get(), b.get() + cap); c.note(fmt("%zu of %zu", n, cap)); c.nontrivial(n >= 2);
    Ani::ArrayView<> a; c.ok(a.empty() && a.size == 0 && a.begin() == a.end(), "a view of nothing is not empty"); if (s.flip()) a.Init(b.get(), n); else a = Ani::ArrayView<>(b.get(), n);
    c.ok(a.empty() == (n == 0), "emptiness is wrong"); size_t k = 0; for (double& x: a){ c.ok(&x == &b[k], "iteration visits another element"); ++k; } c.ok(k == n, "iteration has another length");
    Ani::ArrayView<const double> q = a; k = 0; for (const double& x: q){ c.ok(&x == &b[k], "iteration over a constant view visits another element"); ++k; } c.ok(k == n && q.size == n, "a constant view has another length");
    const auto& ca = a; k = 0; for (const double& x: ca){ c.ok(&x == &b[k] && ca[k] == v[k], "iteration over a constant object visits another element"); ++k; } c.ok(k == n, "iteration has another length");
    auto d = a; if (n){ size_t i = s.below(n); d[i] = 5; v[i] = 5; } for (size_t i = 0; i < n; ++i) c.ok(a[i] == v[i] && q[i] == v[i], "views of one array differ");
    if (s.flip()){ d.SetZero(); for (size_t i = 0; i < n; ++i) v[i] = 0; } for (size_t i = 0; i < cap; ++i) c.ok(b[i] == v[i], "an element outside the view has changed or one inside has not");
    d.clear(); c.ok(d.empty() && d.size == 0 && a.size == n && (n == 0 || a[0] == v[0]), "clearing a view empties another or leaves it"); }
template<int N> static void band(Src& s, Ctx& c){
    std::vector<double> b(200); Ani::BandDenseMatrix<N> A; size_t o = 0; int r = 0, q = 0; for (int i = 0; i < N; ++i){ int n = 1 + (int)s.below(3), m = 1 + (int)s.below(4); A.data[i] = Ani::DenseMatrix<>(b.data() + o, n, m); o += n*m; A.stRow[i] = r; A.stCol[i] = q; r += n; q += m; c.note(fmt("%dx%d", n, m)); } A.stRow[N] = r; A.stCol[N] = q;
    Ani::BandDenseMatrixX<> X(A); c.ok(X.nparts == N && X.data == A.data && X.stRow == A.stRow && X.stCol == A.stCol, "the run-time form of a block matrix does not refer to it");
    Ani::BandDenseMatrix<N> B(X); auto C = Ani::convToBendMx(A, r, q); for (auto* p: {&B, &C}){ for (int i = 0; i <= N; ++i){ c.ok(p->stRow[i] == A.stRow[i] && p->stCol[i] == A.stCol[i], "converted block matrix has its blocks at other places"); if (i < N) c.ok(p->data[i].data == A.data[i].data && p->data[i].nRow == A.data[i].nRow && p->data[i].nCol == A.data[i].nCol, "converted block matrix has other blocks"); } } c.nontrivial(N > 1); }
PBT_PROP(L03_blocks, 5000, 50000, "more than one block"){ switch (s.below(4)){ case 0: { std::vector<double> b(30); int n = 1 + (int)s.below(5), m = 1 + (int)s.below(6); Ani::DenseMatrix<> D(b.data(), n, m); auto A = Ani::convToBendMx(D, n, m); c.ok(A.data[0].data == b.data() && (int)A.data[0].nRow == n && (int)A.data[0].nCol == m && A.stRow[0] == 0 && A.stCol[0] == 0 && A.stRow[1] == n && A.stCol[1] == m, "a dense matrix as one block has another place"); break; } case 1: band<1>(s, c); break; case 2: band<2>(s, c); break; default: band<3>(s, c); } }
