// X02: packed tensors against their full-index definitions.
#pragma once
#include "pbt.h"
#include <limits>
#include <sstream>
#include "anifem++/autodiff/physical_tensors.h"
namespace tens {
using pbt::Src; using pbt::Ctx; using pbt::fmt; using namespace Ani; typedef long double ld;
template<class T> struct Info;
template<std::size_t N_, class FT_> struct Info<PhysArr<N_, FT_>>{ static constexpr int N = N_, R = 1; using FT = FT_; static constexpr const char* name = "PhysArr"; static FT get(const PhysArr<N_, FT_>& t, const int* i){ return t[i[0]]; } };
#define VP_RANK2(K) template<std::size_t N_, class FT_> struct Info<K<N_, FT_>>{ static constexpr int N = N_, R = 2; using FT = FT_; static constexpr const char* name = #K; static FT get(const K<N_, FT_>& t, const int* i){ return t(i[0], i[1]); } }
#define VP_RANK4(K) template<std::size_t N_, class FT_> struct Info<K<N_, FT_>>{ static constexpr int N = N_, R = 4; using FT = FT_; static constexpr const char* name = #K; static FT get(const K<N_, FT_>& t, const int* i){ return t(i[0], i[1], i[2], i[3]); } }
VP_RANK2(SymMtx); VP_RANK2(PhysMtx); VP_RANK4(Tensor4Rank); VP_RANK4(SymTensor4Rank); VP_RANK4(BiSymTensor4Rank);
inline int ipow(int a, int b){ int r = 1; while (b--) r *= a; return r; }
template<class T> std::string tname(){ return fmt("%s<%d,%s>", Info<T>::name, Info<T>::N, sizeof(typename Info<T>::FT) == 4 ? "float" : sizeof(typename Info<T>::FT) == 8 ? "double" : "long double"); }
template<int R> void unpack(int q, int N, int* i){ for (int r = R - 1; r >= 0; --r){ i[r] = q % N; q /= N; } }
inline int flat(std::initializer_list<int> i, int N){ int q = 0; for (int k: i) q = q*N + k; return q; }
using Full = std::vector<ld>;
template<class T> Full full(const T& t){ constexpr int N = Info<T>::N, R = Info<T>::R; Full f(ipow(N, R)); int i[4]; for (int q = 0; q < (int)f.size(); ++q){ unpack<R>(q, N, i); f[q] = Info<T>::get(t, i); } return f; }
inline ld norm(const Full& f){ ld m = 0; for (auto v: f) m = std::max(m, fabsl(v)); return m; }
template<class FT> FT num(Src& s){ switch (s.pick({6, 3, 1})){ case 0: return (FT)s.range(-9, 9); case 1: return (FT)s.real(-4, 4); default: return (FT)s.real(-1, 1)*(FT)std::pow(10.0, s.range(-6, 6)); } }
template<class T> T random(Src& s){ T t; for (std::size_t i = 0; i < t.continuous_size(); ++i) t[i] = num<typename Info<T>::FT>(s); return t; }
template<class FT> ld eps(){ return std::numeric_limits<FT>::epsilon(); }
inline void same(Ctx& c, const Full& got, const Full& want, ld tol, const std::string& what){
    if (got.size() != want.size()) c.fail(what + ": size"); for (std::size_t q = 0; q < got.size(); ++q) c.ok(fabsl(got[q] - want[q]) <= tol, [&]{ return fmt("%s: component %d is %.20Lg expected %.20Lg (tol %.2Lg)", what.c_str(), (int)q, got[q], want[q], tol); }); }
inline void same(Ctx& c, ld got, ld want, ld tol, const std::string& what){ c.ok(fabsl(got - want) <= tol, [&]{ return fmt("%s is %.20Lg expected %.20Lg (tol %.2Lg)", what.c_str(), got, want, tol); }); }

// which full components one stored number stands for, by the symmetry the type is documented to have
template<class T> struct Orb; 
template<std::size_t N, class F> struct Orb<PhysArr<N, F>>{ static std::set<int> of(const int* i){ return {i[0]}; } };
template<std::size_t N, class F> struct Orb<PhysMtx<N, F>>{ static std::set<int> of(const int* i){ return {flat({i[0], i[1]}, N)}; } };
template<std::size_t N, class F> struct Orb<SymMtx<N, F>>{ static std::set<int> of(const int* i){ return {flat({i[0], i[1]}, N), flat({i[1], i[0]}, N)}; } };
template<std::size_t N, class F> struct Orb<Tensor4Rank<N, F>>{ static std::set<int> of(const int* i){ return {flat({i[0], i[1], i[2], i[3]}, N)}; } };
template<std::size_t N, class F> struct Orb<SymTensor4Rank<N, F>>{ static std::set<int> of(const int* i){ return {flat({i[0], i[1], i[2], i[3]}, N), flat({i[2], i[3], i[0], i[1]}, N)}; } };
template<std::size_t N, class F> struct Orb<BiSymTensor4Rank<N, F>>{ static std::set<int> of(const int* i){ std::set<int> r; for (int m = 0; m < 8; ++m){ int a = i[0], b = i[1], k = i[2], l = i[3]; if (m & 1) std::swap(a, b); if (m & 2) std::swap(k, l); if (m & 4){ std::swap(a, k); std::swap(b, l); } r.insert(flat({a, b, k, l}, N)); } return r; } };
template<class T> struct Indexed: std::false_type {};       // kinds with Index, index(), continuous_index() and iterators of their own
template<std::size_t N, class F> struct Indexed<SymMtx<N, F>>: std::true_type {};
template<std::size_t N, class F> struct Indexed<SymTensor4Rank<N, F>>: std::true_type {};
template<std::size_t N, class F> struct Indexed<BiSymTensor4Rank<N, F>>: std::true_type {};
template<class I> I mk(const int* i, std::integral_constant<int, 2>){ return I(i[0], i[1]); }
template<class I> I mk(const int* i, std::integral_constant<int, 4>){ return I(i[0], i[1], i[2], i[3]); }

template<class T> void packing(Ctx& c){
    constexpr int N = Info<T>::N, R = Info<T>::R; using FT = typename Info<T>::FT; std::string nm = tname<T>(); T t; int n = t.continuous_size(), total = ipow(N, R); c.note(nm); c.nontrivial();
    c.ok((int)t.rank() == R, nm + " rank"); same(c, full(t), Full(total, 0), 0, nm + " of nothing");
    std::vector<int> owner(total, -1); int i[4]; std::vector<std::set<int>> orb(n);
    for (int k = 0; k < n; ++k){
        T e; e[k] = 1; auto f = full(e); std::set<int> on; for (int q = 0; q < total; ++q){ c.ok(f[q] == 0 || f[q] == 1, nm + " component"); if (f[q] == 1) on.insert(q); }
        c.ok(!on.empty(), [&]{ return fmt("%s: stored number %d is no component", nm.c_str(), k); }); if (on.empty()) continue;
        unpack<R>(*on.begin(), N, i); c.ok(on == Orb<T>::of(i), [&]{ return fmt("%s: stored number %d stands for %d components from %d, its symmetry asks for %d", nm.c_str(), k, (int)on.size(), *on.begin(), (int)Orb<T>::of(i).size()); });
        for (int q: on){ c.ok(owner[q] < 0, [&]{ return fmt("%s: component %d is stored as %d and %d", nm.c_str(), q, owner[q], k); }); owner[q] = k; }
        c.ok((int)e.index_duplication(k) == (int)on.size(), [&]{ return fmt("%s: %d copies of stored number %d expected %d", nm.c_str(), (int)e.index_duplication(k), k, (int)on.size()); }); orb[k] = on;
        if constexpr (R != 4) if (k) c.ok(*orb[k].begin() > *orb[k-1].begin(), nm + " order of storage");       // documented: rows of the upper triangle
        if constexpr (Indexed<T>::value){
            auto x = T::index(k); int q = 0; for (int r = 0; r < R; ++r) q = q*N + (int)x[r]; c.ok(on.count(q) == 1, [&]{ return fmt("%s: index of stored number %d is component %d", nm.c_str(), k, q); }); c.ok((int)T::continuous_index(x) == k, [&]{ return fmt("%s: continuous_index(index(%d)) is %d", nm.c_str(), k, (int)T::continuous_index(x)); });
            for (int q2: on){ int j[4]; unpack<R>(q2, N, j); auto y = mk<typename T::Index>(j, std::integral_constant<int, R>()); c.ok(y == x && (int)T::continuous_index(y) == k && e[y] == 1, [&]{ return fmt("%s: component %d has stored number %d expected %d", nm.c_str(), q2, (int)T::continuous_index(y), k); }); }
        }
        // every way of writing a component writes the stored number
        for (int q: on){ unpack<R>(q, N, i); T w; FT v = (FT)(k + 2);
            if constexpr (R == 1) w(std::array<std::size_t, 1>{(std::size_t)i[0]}) = v; else if constexpr (R == 2){ w(i[0], i[1]) = v; T w2; w2(std::array<std::size_t, 2>{(std::size_t)i[0], (std::size_t)i[1]}) = v; T w3; w3(std::array<std::size_t, 1>{(std::size_t)i[0]}, std::array<std::size_t, 1>{(std::size_t)i[1]}) = v; c.ok(w2[k] == v && w3[k] == v, nm + " written through arrays"); const T cw = w; c.ok(cw(std::array<std::size_t, 2>{(std::size_t)i[0], (std::size_t)i[1]}) == v && cw(std::array<std::size_t, 1>{(std::size_t)i[0]}, std::array<std::size_t, 1>{(std::size_t)i[1]}) == v, nm + " read through arrays"); }
            else { w(i[0], i[1], i[2], i[3]) = v; std::array<std::size_t, 2> a{(std::size_t)i[0], (std::size_t)i[1]}, b{(std::size_t)i[2], (std::size_t)i[3]}; std::array<std::size_t, 4> ab{a[0], a[1], b[0], b[1]}; T w2; w2(a, b) = v; T w3; w3(ab) = v; c.ok(w2[k] == v && w3[k] == v, nm + " written through arrays"); const T cw = w; c.ok(cw(a, b) == v && cw(ab) == v, nm + " read through arrays"); }
            c.ok(w[k] == v, [&]{ return fmt("%s: writing component %d leaves %g as stored number %d", nm.c_str(), q, (double)w[k], k); }); }
    }
    for (int q = 0; q < total; ++q) c.ok(owner[q] >= 0, [&]{ return fmt("%s: component %d is not stored", nm.c_str(), q); });
}
template<class T> void iterators(Src& s, Ctx& c){
    T t = random<T>(s); const T ct = t; int n = t.continuous_size(); std::string nm = tname<T>(); c.note(nm); c.nontrivial(n > 1);
    std::vector<ld> want(n); for (int k = 0; k < n; ++k) want[k] = t[k];
    std::vector<ld> got; for (auto& v: t) got.push_back(v); same(c, got, want, 0, nm + " iterated"); got.clear(); for (auto it = ct.cbegin(); it != ct.cend(); ++it) got.push_back(*it); same(c, got, want, 0, nm + " iterated");
    c.ok(t.end() - t.begin() == n && ct.cend() - ct.cbegin() == n && std::distance(t.begin(), t.end()) == n, [&]{ return fmt("%s: %ld from beginning to end, of %d", nm.c_str(), (long)(t.end() - t.begin()), n); });
    auto it = t.begin(); int at = 0; for (int step = 0, m = 3 + (int)s.below(12); step < m; ++step){
        int to = (int)s.below(n); switch (s.below(7)){ case 0: it += to - at; break; case 1: it -= at - to; break; case 2: it = it + (to - at); break; case 3: it = it - (at - to); break; case 4: it = (to - at) + it; break; case 5: if (at + 1 < n){ to = at + 1; if (s.flip()) ++it; else { auto o = it++; c.ok(o - t.begin() == at, nm + " it++"); } } else { it = t.begin() + to; } break; default: if (at > 0){ to = at - 1; if (s.flip()) --it; else { auto o = it--; c.ok(o - t.begin() == at, nm + " it--"); } } else it = t.begin() + to; }
        at = to; c.ok((ld)*it == want[at] && it - t.begin() == at && t.end() - it == n - at && it == t.begin() + at && !(it != t.begin() + at), [&]{ return fmt("%s: position %ld expected %d", nm.c_str(), (long)(it - t.begin()), at); });
        int o = (int)s.below(n); auto jt = t.begin() + o; c.ok((it < jt) == (at < o) && (it <= jt) == (at <= o) && (it > jt) == (at > o) && (it >= jt) == (at >= o) && (it == jt) == (at == o) && (it != jt) == (at != o), nm + " order of positions"); c.ok((ld)it[o - at] == want[o] && jt - it == o - at, [&]{ return fmt("%s: it[%d] at %d", nm.c_str(), o - at, at); });
        if constexpr (Indexed<T>::value){ c.ok((int)it.continuous_index() == at && it.index() == T::index(at), nm + " index of a position"); }
    }
}
// what all kinds share
template<class T> void vectorspace(Src& s, Ctx& c){
    using FT = typename Info<T>::FT; T a = random<T>(s), b = random<T>(s); FT k = num<FT>(s); if (std::fabs((double)k) < 1e-3) k = 2; const T ca = a, cb = b; auto fa = full(a), fb = full(b); ld e = 4*eps<FT>(), na = norm(fa), nb = norm(fb); std::string nm = tname<T>(); c.note(nm); c.nontrivial(na > 0 && nb > 0);
    auto map = [&](auto f){ Full r(fa.size()); for (std::size_t q = 0; q < r.size(); ++q) r[q] = f(fa[q], fb[q]); return r; };
    auto sum = map([](ld x, ld y){ return x + y; }), dif = map([](ld x, ld y){ return x - y; }), mul = map([&](ld x, ld){ return x*k; }), dv = map([&](ld x, ld){ return x/k; });
    same(c, full(ca + cb), sum, e*(na + nb), nm + " a+b"); same(c, full(ca - cb), dif, e*(na + nb), nm + " a-b"); same(c, full(-ca), map([](ld x, ld){ return -x; }), 0, nm + " -a"); same(c, full(ca*k), mul, e*na*fabsl(k), nm + " a*k"); same(c, full(k*ca), mul, e*na*fabsl(k), nm + " k*a"); same(c, full(ca/k), dv, e*na/fabsl(k), nm + " a/k");
    T t = a; T& r1 = (t += b); same(c, full(t), sum, e*(na + nb), nm + " a+=b"); c.ok(&r1 == &t, nm + " +="); t = a; t -= b; same(c, full(t), dif, e*(na + nb), nm + " a-=b"); t = a; t *= k; same(c, full(t), mul, e*na*fabsl(k), nm + " a*=k"); t = a; t /= k; same(c, full(t), dv, e*na/fabsl(k), nm + " a/=k"); t = a; t += t; same(c, full(t), map([](ld x, ld){ return 2*x; }), e*na, nm + " a+=a");
    ld dot = 0, sq = 0; for (std::size_t q = 0; q < fa.size(); ++q){ dot += fa[q]*fb[q]; sq += fa[q]*fa[q]; } ld M = fa.size(); same(c, ca.Dot(cb), dot, e*M*M*na*nb, nm + " a.Dot(b)");
    same(c, ca.SquareFrobNorm(), sq, e*M*M*na*na, nm + " squared norm");
}

template<std::size_t N, class FT> void products(Src& s, Ctx& c){
    using P = PhysMtx<N, FT>; using S = SymMtx<N, FT>; using V = PhysArr<N, FT>; P p = random<P>(s), q = random<P>(s); S a = random<S>(s), b = random<S>(s); V f = random<V>(s), g = random<V>(s); auto P_ = full(p), Q_ = full(q), A_ = full(a), B_ = full(b), F_ = full(f), G_ = full(g);
    ld e = 8*N*eps<FT>(), np = norm(P_), nq = norm(Q_), na = norm(A_), nb = norm(B_), nf = norm(F_), ng = norm(G_); std::string nm = fmt("N=%d %s ", (int)N, sizeof(FT) == 8 ? "double" : "other"); c.note(nm); c.nontrivial(np > 0 && na > 0 && nf > 0); int n = N;
    auto mm = [&](const Full& x, const Full& y){ Full r(n*n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) r[i*n + j] += x[i*n + k]*y[k*n + j]; return r; };
    auto mv = [&](const Full& x, const Full& y){ Full r(n); for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) r[i] += x[i*n + k]*y[k]; return r; };
    same(c, full(p*q), mm(P_, Q_), e*np*nq, nm + "Phys*Phys"); same(c, full(p*a), mm(P_, A_), e*np*na, nm + "Phys*Sym"); same(c, full(a*p), mm(A_, P_), e*np*na, nm + "Sym*Phys");
    { Full r(n*n); for (int i = 0; i < n*n; ++i) r[i] = P_[i] + A_[i]; same(c, full(p + a), r, e*(np + na), nm + "Phys+Sym"); same(c, full(a + p), r, e*(np + na), nm + "Sym+Phys"); for (int i = 0; i < n*n; ++i) r[i] = P_[i] - A_[i]; same(c, full(p - a), r, e*(np + na), nm + "Phys-Sym"); for (auto& v: r) v = -v; same(c, full(a - p), r, e*(np + na), nm + "Sym-Phys"); }
    { FT k0 = num<FT>(s), k1 = num<FT>(s); S d = S::Identity(k0) + k1*a; auto D_ = full(d); same(c, full(a*d), mm(A_, D_), 8*e*na*(fabsl(k0) + fabsl(k1)*na), nm + "Sym*Sym of commuting matrices"); }
    std::array<FT, N> fa; for (int i = 0; i < n; ++i) fa[i] = f[i]; auto r1 = p.Mul(fa), r2 = a.Mul(fa); V R1(r1), R2(r2); same(c, full(R1), mv(P_, F_), e*np*nf, nm + "Phys.Mul(array)"); same(c, full(R2), mv(A_, F_), e*na*nf, nm + "Sym.Mul(array)"); same(c, full(p.Mul(f)), mv(P_, F_), e*np*nf, nm + "Phys.Mul"); same(c, full(a.Mul(f)), mv(A_, F_), e*na*nf, nm + "Sym.Mul");
    auto bil = [&](const Full& x){ auto y = mv(x, G_); ld r = 0; for (int i = 0; i < n; ++i) r += F_[i]*y[i]; return r; }; same(c, p.Dot(f, g), bil(P_), e*n*np*nf*ng, nm + "Phys.Dot(f,g)"); same(c, a.Dot(f, g), bil(A_), e*n*na*nf*ng, nm + "Sym.Dot(f,g)");
    ld tp = 0, ta = 0; for (int i = 0; i < n; ++i){ tp += P_[i*n + i]; ta += A_[i*n + i]; } same(c, p.Trace(), tp, e*np, nm + "Phys trace"); same(c, a.Trace(), ta, e*na, nm + "Sym trace");
    Full tr(n*n), sy(n*n), id(n*n), sq(n*n), s2(n*n); FT k = num<FT>(s); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j){ tr[i*n + j] = P_[j*n + i]; sy[i*n + j] = (P_[i*n + j] + P_[j*n + i])/2; id[i*n + j] = i == j ? (ld)k : 0; sq[i*n + j] = F_[i]*F_[j]; s2[i*n + j] = F_[i]*G_[j] + F_[j]*G_[i]; }
    same(c, full(p.Transpose()), tr, 0, nm + "transposed"); same(c, full(a.Transpose()), A_, 0, nm + "transposed"); same(c, full(p.Sym()), sy, e*np, nm + "symmetric part"); same(c, full(P::Identity(k)), id, 0, nm + "identity"); same(c, full(S::Identity(k)), id, 0, nm + "identity");
    same(c, full(P::TensorSquare(f)), sq, e*nf*nf, nm + "Phys f x f"); same(c, full(S::TensorSquare(f)), sq, e*nf*nf, nm + "Sym f x f"); same(c, full(P::TensorSymMul2(f, g)), s2, e*nf*ng, nm + "Phys f x g + g x f"); same(c, full(S::TensorSymMul2(f, g)), s2, e*nf*ng, nm + "Sym f x g + g x f");
    std::array<FT, N*N> raw; for (int i = 0; i < n*n; ++i) raw[i] = p[i]; same(c, full(P(raw, false)), tr, 0, nm + "by columns"); same(c, full(P(raw, true)), P_, 0, nm + "by rows"); same(c, full(P(raw.data())), P_, 0, nm + "by rows"); same(c, full(P(a)), A_, 0, nm + "from symmetric"); 
    std::array<FT, N*(N + 1)/2> low; for (int i = 0, w = 0; i < n; ++i) for (int j = 0; j <= i; ++j, ++w) low[w] = a(i, j); if constexpr (N != 3) same(c, full(S(low, false)), A_, 0, nm + "by rows of the lower triangle"); same(c, full(S(a.m_dat)), A_, 0, nm + "by rows of the upper triangle");
    auto back = [&](std::string text){ std::istringstream is(text); Full r; ld v; while (is >> v) r.push_back(v); return r; };
    { std::ostringstream o; o.precision(25); o << p; same(c, back(o.str()), P_, 1e-22L*np, nm + "printed Phys"); } { std::ostringstream o; o.precision(25); o << a; same(c, back(o.str()), A_, 1e-22L*na, nm + "printed Sym"); const std::string txt = o.str(); c.ok(std::count(txt.begin(), txt.end(), '\n') == n, nm + "printed rows"); }
}
template<std::size_t N, class FT> void rank4(Src& s, Ctx& c){
    using P = PhysMtx<N, FT>; using S = SymMtx<N, FT>; P p = random<P>(s), q = random<P>(s); S a = random<S>(s), b = random<S>(s); auto P_ = full(p), Q_ = full(q), A_ = full(a), B_ = full(b); ld e = 8*eps<FT>(), np = norm(P_), nq = norm(Q_), na = norm(A_), nb = norm(B_); std::string nm = fmt("N=%d ", (int)N); c.note(nm); c.nontrivial(np > 0 && na > 0);
    auto outer = [&](const Full& x, const Full& y){ Full r; for (auto u: x) for (auto v: y) r.push_back(u*v); return r; }; auto plus = [](Full x, const Full& y){ for (std::size_t i = 0; i < x.size(); ++i) x[i] += y[i]; return x; };
    auto pp = outer(P_, P_), pq = plus(outer(P_, Q_), outer(Q_, P_)), aa = outer(A_, A_), ab = plus(outer(A_, B_), outer(B_, A_)); using T = Tensor4Rank<N, FT>; using Y = SymTensor4Rank<N, FT>; using B = BiSymTensor4Rank<N, FT>;
    same(c, full(T::TensorSquare(p)), pp, e*np*np, nm + "Tensor4 p x p"); same(c, full(Y::TensorSquare(p)), pp, e*np*np, nm + "SymTensor4 p x p"); same(c, full(T::TensorSquare(a)), aa, e*na*na, nm + "Tensor4 a x a"); same(c, full(Y::TensorSquare(a)), aa, e*na*na, nm + "SymTensor4 a x a"); same(c, full(B::TensorSquare(a)), aa, e*na*na, nm + "BiSym a x a");
    same(c, full(T::TensorSymMul2(p, q)), pq, e*np*nq, nm + "Tensor4 p x q + q x p"); same(c, full(Y::TensorSymMul2(p, q)), pq, e*np*nq, nm + "SymTensor4 p x q + q x p"); same(c, full(T::TensorSymMul2(a, b)), ab, e*na*nb, nm + "Tensor4 a x b + b x a"); same(c, full(Y::TensorSymMul2(a, b)), ab, e*na*nb, nm + "SymTensor4 a x b + b x a"); same(c, full(B::TensorSymMul2(a, b)), ab, e*na*nb, nm + "BiSym a x b + b x a");
    if constexpr (N == 3){ FT k = num<FT>(s); Full id(81); int i[4]; for (int z = 0; z < 81; ++z){ unpack<4>(z, 3, i); id[z] = (ld)k*((i[0] == i[2] && i[1] == i[3]) + (i[0] == i[3] && i[1] == i[2]))/2; } same(c, full(B::Identity(k)), id, 0, nm + "BiSym identity"); }
    auto back = [&](auto& t){ std::ostringstream o; o.precision(25); o << t; std::istringstream is(o.str()); Full r; ld v; while (is >> v) r.push_back(v); return r; };       // the printed table holds every component once
    auto sorted = [](Full f){ std::sort(f.begin(), f.end()); return f; }; T t = random<T>(s); Y y = random<Y>(s); B bb = random<B>(s); same(c, sorted(back(t)), sorted(full(t)), 1e-22L*norm(full(t)), nm + "printed Tensor4"); same(c, sorted(back(y)), sorted(full(y)), 1e-22L*norm(full(y)), nm + "printed SymTensor4"); same(c, sorted(back(bb)), sorted(full(bb)), 1e-22L*norm(full(bb)), nm + "printed BiSym");
}
// a conversion keeps the tensor when the target can hold it; vectors list the components in the order they are stored
template<std::size_t N, class FT> void conversions(Src& s, Ctx& c){
    using P = PhysMtx<N, FT>; using S = SymMtx<N, FT>; using T = Tensor4Rank<N, FT>; using Y = SymTensor4Rank<N, FT>; using B = BiSymTensor4Rank<N, FT>; c.nontrivial(); c.note(fmt("N=%d", (int)N));
    auto stored = [](auto& t){ Full r; for (std::size_t i = 0; i < t.continuous_size(); ++i) r.push_back(t[i]); return r; };
    P p = random<P>(s); S a = random<S>(s); T t = random<T>(s); Y y = random<Y>(s); B b = random<B>(s);
    same(c, full(tensor_convert<P>(a)), full(a), 0, "Sym to Phys"); { P pa(a); same(c, full(tensor_convert<S>(pa)), full(a), 0, "Phys to Sym"); } same(c, full(tensor_convert<P>(p)), full(p), 0, "Phys to Phys"); same(c, full(tensor_convert<S>(a)), full(a), 0, "Sym to Sym");
    if constexpr (N > 1){ auto v = tensor_convert<PhysArr<N*N, FT>>(p); same(c, full(v), full(p), 0, "Phys to vector"); same(c, full(tensor_convert<P>(v)), full(p), 0, "vector to Phys"); auto w = tensor_convert<PhysArr<N*N, FT>>(a); same(c, full(w), full(a), 0, "Sym to full vector"); same(c, full(tensor_convert<S>(w)), full(a), 0, "full vector to Sym");
        auto u = tensor_convert<PhysArr<N*(N + 1)/2, FT>>(a); same(c, full(u), stored(a), 0, "Sym to vector"); same(c, full(tensor_convert<S>(u)), full(a), 0, "vector to Sym");
        auto tv = tensor_convert<PhysArr<N*N*N*N, FT>>(t); same(c, full(tv), full(t), 0, "Tensor4 to vector"); same(c, full(tensor_convert<T>(tv)), full(t), 0, "vector to Tensor4"); auto yv = tensor_convert<PhysArr<N*N*(N*N + 1)/2, FT>>(y); same(c, full(yv), stored(y), 0, "SymTensor4 to vector"); same(c, full(tensor_convert<Y>(yv)), full(y), 0, "vector to SymTensor4");
        constexpr std::size_t n = N*(N + 1)/2, m = n*(n + 1)/2; auto bv = tensor_convert<PhysArr<m, FT>>(b); same(c, full(bv), stored(b), 0, "BiSym to vector"); same(c, full(tensor_convert<B>(bv)), full(b), 0, "vector to BiSym");
        auto vo = tensor_convert<SymMtx<n, FT>>(b); std::vector<std::pair<int, int>> ij; for (int i = 0; i < (int)N; ++i) for (int j = i; j < (int)N; ++j) ij.push_back({i, j}); Full want; for (auto& x: ij) for (auto& z: ij) want.push_back(b(x.first, x.second, z.first, z.second)); same(c, full(vo), want, 0, "BiSym to matrix of pairs"); same(c, full(tensor_convert<B>(vo)), full(b), 0, "matrix of pairs to BiSym"); }
    T ty = tensor_convert<T>(y); same(c, full(ty), full(y), 0, "SymTensor4 to Tensor4"); same(c, full(tensor_convert<Y>(ty)), full(y), 0, "Tensor4 to SymTensor4"); T tb = tensor_convert<T>(b); same(c, full(tb), full(b), 0, "BiSym to Tensor4"); same(c, full(tensor_convert<B>(tb)), full(b), 0, "Tensor4 to BiSym"); Y yb = tensor_convert<Y>(b); same(c, full(yb), full(b), 0, "BiSym to SymTensor4"); same(c, full(tensor_convert<B>(yb)), full(b), 0, "SymTensor4 to BiSym");
}
template<std::size_t N, class FT> void inverses(Src& s, Ctx& c){
    using P = PhysMtx<N, FT>; using S = SymMtx<N, FT>; int n = N; bool sym = s.flip(); int kind = s.pick({4, 2, 2, 2}); P p = random<P>(s); if (kind == 1) for (int i = 0; i < n; ++i) p(i, i) = 0; if (kind == 2) for (int i = 0; i < n*n; ++i) if (s.flip()) p[i] = 0; if (kind == 3){ FT k = (FT)std::pow(10.0, s.range(-12, 18)); p *= k; } S a; for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) a(i, j) = p(i, j); Full A = sym ? full(a) : full(p);
    c.note(fmt("N=%d %s ", (int)N, sym ? "symmetric" : "general") + [&]{ std::string r; for (auto v: A) r += fmt("%.17Lg ", v); return r; }()); ld m = norm(A), u = eps<FT>();
    Full L = A; ld det = 1; { std::vector<int> pv(n); for (int k = 0; k < n; ++k){ int r = k; for (int i = k; i < n; ++i) if (fabsl(L[i*n + k]) > fabsl(L[r*n + k])) r = i; if (r != k){ det = -det; for (int j = 0; j < n; ++j) std::swap(L[r*n + j], L[k*n + j]); } det *= L[k*n + k]; if (L[k*n + k] == 0) break; for (int i = k + 1; i < n; ++i){ ld q = L[i*n + k]/L[k*n + k]; for (int j = k; j < n; ++j) L[i*n + j] -= q*L[k*n + j]; } } }
    ld fact = 1; for (int i = 2; i <= n; ++i) fact *= i; ld tol = 200*n*n*fact*u*powl(m, n); same(c, sym ? a.Det() : p.Det(), det, tol, "determinant"); bool well = fabsl(det) > 100*tol; c.nontrivial(well && n > 1); c.label(well ? "regular" : "singular");
    auto prod = [&](const Full& x, const Full& y){ Full r(n*n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) r[i*n + j] += x[i*n + k]*y[k*n + j]; return r; };
    if constexpr (N == 3){ Full D(9), X = sym ? full(a.Adj()) : full(p.Adj()); for (int i = 0; i < 3; ++i) D[4*i] = det; same(c, prod(A, X), D, 200*u*m*m*m, "matrix times adjugate"); same(c, prod(X, A), D, 200*u*m*m*m, "adjugate times matrix"); }
    if (well){ Full X = sym ? full(a.Inv()) : full(p.Inv()), I(n*n); for (int i = 0; i < n; ++i) I[i*n + i] = 1; ld nx = norm(X); ld t = 400*n*n*u*(n == 3 ? m*m*m/fabsl(det)*(1 + m*nx) : 1 + m*nx); if (t < 1e-2L){ same(c, prod(A, X), I, t, "matrix times inverse"); same(c, prod(X, A), I, t, "inverse times matrix"); c.label("inverse"); } }
}
}
