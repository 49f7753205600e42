// F05: the symbolic expressions the spaces are written in. A dense numeric back end stands for the user's symbolic library; programs over a pool of expressions are compared with plain matrices after every step.
#include "pbt.h"
#include "numexpr.h"
#include <cmath>
#include <sstream>
#include <functional>
using pbt::Src; using pbt::Ctx; using pbt::fmt; using Ani::Expr; using vp::NumExpr;
namespace FT = Ani::FT;
struct M { size_t m = 1, n = 1; std::vector<double> v; M(size_t m = 1, size_t n = 1, double x = 0): m(m), n(n), v(m*n, x) {} double& operator()(size_t i, size_t j){ return v[i + m*j]; } double operator()(size_t i, size_t j) const { return v[i + m*j]; } };
static std::string show(const M& a){ std::string r = fmt("%zux%zu[", a.m, a.n); for (size_t i = 0; i < a.m; ++i){ if (i) r += "; "; for (size_t j = 0; j < a.n; ++j) r += fmt(j ? " %.17g" : "%.17g", a(i, j)); } return r + "]"; }
template<class V> static auto assign(Expr& e, V&& v, int) -> decltype(e = std::forward<V>(v), true){ e = std::forward<V>(v); return true; }
template<class V> static bool assign(Expr&, V&&, long){ return false; } // no assignment of such a value exists
static M get(const Expr& e){ auto p = e.target<NumExpr>(); if (!p) return M(0, 0); M r(p->m, p->n); r.v = p->v; return r; }
static Expr mk(const M& a){ NumExpr x(a.m, a.n); x.v = a.v; return Expr(x); }
struct Slot { Expr e; M m; bool old; };
static double val(Src& s){ switch (s.pick({4, 2, 2, 1})){ case 0: return s.range(-3, 3); case 1: return s.range(-12, 12)/4.0; case 2: return s.unit()*3; default: return s.pick({1, 1, 1, 1}) * 0.5; } }
static M rnd(Src& s, size_t m, size_t n){ M r(m, n); for (auto& x: r.v) x = val(s); return r; }

struct U { const char* n; Expr (*e)(const Expr&); double (*f)(double); };
#define UN(N, F) U{#N, [](const Expr& a){ return FT::N(a); }, [](double x)->double { return F; }}
static const U un[] = {UN(abs, std::fabs(x)), UN(exp, std::exp(x)), UN(expm1, std::expm1(x)), UN(log, std::log(x)), UN(log1p, std::log1p(x)), UN(sqrt, std::sqrt(x)), UN(cbrt, std::cbrt(x)), UN(sin, std::sin(x)), UN(cos, std::cos(x)), UN(tan, std::tan(x)), UN(asin, std::asin(x)), UN(acos, std::acos(x)), UN(atan, std::atan(x)), UN(sinh, std::sinh(x)), UN(cosh, std::cosh(x)), UN(tanh, std::tanh(x)), UN(erf, std::erf(x)), UN(erfc, std::erfc(x)), UN(tgamma, std::tgamma(x)), UN(lgamma, std::lgamma(x)), UN(floor, std::floor(x)), UN(ceil, std::ceil(x)), UN(sign, (x > 0) - (x < 0)), UN(sq, x*x), U{"-", [](const Expr& a){ return -a; }, [](double x){ return -x; }}, U{"!", [](const Expr& a){ return !a; }, [](double x)->double { return x == 0; }}};
struct Bi { const char* n; Expr (*ee)(const Expr&, const Expr&); Expr (*ed)(const Expr&, double); Expr (*de)(double, const Expr&); double (*f)(double, double); };
#define OP(N, F) Bi{#N, [](const Expr& a, const Expr& b){ return a N b; }, [](const Expr& a, double b){ return a N b; }, [](double a, const Expr& b){ return a N b; }, [](double x, double y)->double { return F; }}
#define FN(N, F) Bi{#N, [](const Expr& a, const Expr& b){ return FT::N(a, b); }, [](const Expr& a, double b){ return FT::N(a, b); }, [](double a, const Expr& b){ return FT::N(a, b); }, [](double x, double y)->double { return F; }}
static const Bi bi[] = {OP(+, x + y), OP(-, x - y), OP(*, x*y), OP(/, x/y), OP(<, x < y), OP(<=, x <= y), OP(>, x > y), OP(>=, x >= y), OP(==, x == y), OP(!=, x != y), OP(&&, x != 0 && y != 0), OP(||, x != 0 || y != 0), FN(pow, std::pow(x, y)), FN(atan2, std::atan2(x, y)), FN(fmod, std::fmod(x, y)), FN(min, std::min(x, y)), FN(max, std::max(x, y)), FN(hypot, std::hypot(x, y))};
// products of matrices
static M dotm(const M& a, const M& b, double& t){ M r; t = 0; for (size_t i = 0; i < a.v.size(); ++i){ r.v[0] += a.v[i]*b.v[i]; t += std::fabs(a.v[i]*b.v[i]); } return r; }
static M crossm(const M& a, const M& b){ M r(a.m, a.n); for (int k = 0; k < 3; ++k) r.v[k] = a.v[(k+1)%3]*b.v[(k+2)%3] - a.v[(k+2)%3]*b.v[(k+1)%3]; return r; }
static M mulm(const M& a, const M& b){ M r(a.m, b.n); for (size_t i = 0; i < a.m; ++i) for (size_t j = 0; j < b.n; ++j) for (size_t k = 0; k < a.n; ++k) r(i, j) += a(i, k)*b(k, j); return r; }
static M absm(M a){ for (auto& x: a.v) x = std::fabs(x); return a; }
static double big(const M& a){ double t = 0; for (double x: a.v) if (std::fabs(x) > t) t = std::fabs(x); return t; }
static bool finite(const M& a){ for (double x: a.v) if (!std::isfinite(x)) return false; return true; }

struct World { Src& s; Ctx& c; std::vector<Slot> p; bool chained = false, ties = false; std::string last;
    World(Src& s, Ctx& c): s(s), c(c) {}
    size_t any(){ size_t k = s.below(p.size()); if (!p[k].old) chained = true; return k; }
    template<class F> int find(F f){ std::vector<size_t> q; for (size_t k = 0; k < p.size(); ++k) if (f(p[k].m)) q.push_back(k); if (q.empty()) return -1; size_t k = q[s.below(q.size())]; if (!p[k].old) chained = true; return (int)k; }
    int like(size_t k){ auto& a = p[k].m; return find([&](const M& b){ return a.m == b.m && a.n == b.n; }); }
    void add(Expr e, M m, double tol = 0){ same(e, m, tol); if (finite(m) && big(m) < 1e100){ m = get(e); } else { for (auto& x: m.v) if (!std::isfinite(x) || std::fabs(x) >= 1e100) x = 1; e = mk(m); }
        Slot t{std::move(e), m, false}; if (p.size() < 10) p.push_back(std::move(t)); else { size_t k = s.below(p.size()); p[k].e = std::move(t.e); p[k].m = m; p[k].old = false; } }
    void same(const Expr& e, const M& m, double tol){ M g = get(e); bool ok = e.nrows() == m.m && e.ncols() == m.n && g.v.size() == m.v.size(); for (size_t i = 0; ok && i < m.v.size(); ++i) ok = (std::isnan(g.v[i]) && std::isnan(m.v[i])) || g.v[i] == m.v[i] || std::fabs(g.v[i] - m.v[i]) <= tol + 1e-13*std::fabs(m.v[i]); c.ok(ok, [&]{ return last + " gave " + show(g) + " and not " + show(m); }); }
    void all(){ for (size_t k = 0; k < p.size(); ++k){ M g = get(p[k].e); bool ok = g.m == p[k].m.m && g.n == p[k].m.n && g.v == p[k].m.v; c.ok(ok, [&]{ return "after " + last + fmt(" expression %zu is ", k) + show(g) + " and not " + show(p[k].m); }); } }
    template<class F> void throws(const char* what, F f){ bool t = false; try { f(); } catch (const std::runtime_error&){ t = true; } last = what; c.ok(t, [&]{ return std::string(what) + " is not refused"; }); }
    void step(){
        switch (s.pick({4, 8, 3, 3, 4, 4, 3, 4, 2, 1, 1})){
        case 0: { size_t k = any(); auto& u = un[s.below(sizeof un/sizeof *un)]; last = fmt("%s(%s)", u.n, show(p[k].m).c_str()); M r = p[k].m; for (auto& x: r.v) x = u.f(x); add(u.e(p[k].e), r); break; }
        case 1: { size_t k = any(); auto& b = bi[s.below(sizeof bi/sizeof *bi)]; auto& a = p[k]; int w = s.pick({3, 1, 1}); M r = a.m;
            if (w == 0){ auto& q = p[like(k)]; last = fmt("%s of %s and %s", b.n, show(a.m).c_str(), show(q.m).c_str()); for (size_t i = 0; i < r.v.size(); ++i){ ties |= r.v[i] == q.m.v[i]; r.v[i] = b.f(r.v[i], q.m.v[i]); } add(b.ee(a.e, q.e), r); }
            else { double x = s.chance(1, 3) ? a.m.v[s.below(a.m.v.size())] : val(s); last = fmt(w == 1 ? "%s of %s and number %g" : "%s of %s and number %g (number first)", b.n, show(a.m).c_str(), x); for (auto& t: r.v){ ties |= t == x; t = w == 1 ? b.f(t, x) : b.f(x, t); } add(w == 1 ? b.ed(a.e, x) : b.de(x, a.e), r); } break; }
        case 2: { int w = s.pick({1, 1, 2}); 
            if (w == 0){ size_t k = any(); int l = like(k); double t, x = val(s); int v = s.pick({2, 1, 1}); M o = v ? M(p[k].m.m, p[k].m.n, x) : p[l].m; M a = p[k].m; last = "dot(" + show(a) + ", " + show(o) + ")"; M r = v == 2 ? dotm(o, a, t) : dotm(a, o, t); add(v == 0 ? FT::dot(p[k].e, p[l].e) : v == 1 ? FT::dot(p[k].e, x) : FT::dot(x, p[k].e), r, 1e-12*t); }
            else if (w == 1){ int k = find([](const M& a){ return a.v.size() == 3; }); if (k < 0) break; int l = like(k); double x = val(s); int v = s.pick({3, 1, 1}); M o = v ? M(p[k].m.m, p[k].m.n, x) : p[l].m, a = p[k].m; last = "cross(" + show(a) + ", " + show(o) + (v == 2 ? ") swapped" : ")"); M r = v == 2 ? crossm(o, a) : crossm(a, o); add(v == 0 ? FT::cross(p[k].e, p[l].e) : v == 1 ? FT::cross(p[k].e, x) : FT::cross(x, p[k].e), r, 1e-12*big(a)*big(o)); }
            else { size_t k = any(); auto a = p[k].m; int v = a.m == a.n ? s.pick({3, 1, 1}) : 0; double x = val(s); if (v){ M o(a.m, a.n, x); last = "mtimes(" + show(a) + fmt(v == 1 ? ", number %g)" : ", number %g) swapped", x); add(v == 1 ? FT::mtimes(p[k].e, x) : FT::mtimes(x, p[k].e), v == 1 ? mulm(a, o) : mulm(o, a), 1e-12*big(mulm(absm(a), absm(o))) + 1e-12*big(mulm(absm(o), absm(a)))); break; }
                int l = find([&](const M& b){ return b.m == a.n; }); if (l < 0) break; last = "mtimes(" + show(a) + ", " + show(p[l].m) + ")"; M r = mulm(a, p[l].m); add(FT::mtimes(p[k].e, p[l].e), r, 1e-12*big(mulm(absm(a), absm(p[l].m)))); } break; }
        case 3: { bool iff = s.flip(); unsigned w = 1 + (unsigned)s.below(7); // which operands are expressions
            if (!iff){ size_t k = any(); const Expr* e[3]; M a[3]; double x[3]; std::string d; for (int i = 0; i < 3; ++i){ x[i] = val(s); if (w >> i & 1){ int l = like(k); e[i] = &p[l].e; a[i] = p[l].m; } else { e[i] = nullptr; a[i] = M(p[k].m.m, p[k].m.n, x[i]); } d += (i ? ", " : "") + (e[i] ? show(a[i]) : fmt("number %g", x[i])); }
                last = "fma(" + d + ")"; M r = a[0]; double t = 0; for (size_t i = 0; i < r.v.size(); ++i){ t = std::max(t, std::fabs(r.v[i]*a[1].v[i]) + std::fabs(a[2].v[i])); r.v[i] = r.v[i]*a[1].v[i] + a[2].v[i]; }
                add(w == 7 ? FT::fma(*e[0], *e[1], *e[2]) : w == 6 ? FT::fma(x[0], *e[1], *e[2]) : w == 5 ? FT::fma(*e[0], x[1], *e[2]) : w == 3 ? FT::fma(*e[0], *e[1], x[2]) : w == 4 ? FT::fma(x[0], x[1], *e[2]) : w == 1 ? FT::fma(*e[0], x[1], x[2]) : FT::fma(x[0], *e[1], x[2]), r, 1e-12*t); }
            else { int k = w & 1 ? find([](const M& a){ return a.v.size() == 1; }) : (int)any(); if (k < 0) break; const Expr* e[3]; M a[3]; double x[3]; size_t base = (size_t)-1; std::string d; for (int i = 0; i < 3; ++i){ x[i] = i == 0 ? (double)s.below(2) : val(s); e[i] = nullptr; if (w >> i & 1){ int l = i == 0 ? k : base != (size_t)-1 && !(w & 1) ? like(base) : (int)any(); if (base == (size_t)-1) base = l; e[i] = &p[l].e; a[i] = p[l].m; } }
                for (int i = 0; i < 3; ++i){ if (!e[i]) a[i] = M(p[base].m.m, p[base].m.n, x[i]); d += (i ? ", " : "") + (e[i] ? show(a[i]) : fmt("number %g", x[i])); }
                last = "ifelse(" + d + ")"; M r = a[0].v[0] != 0 ? a[1] : a[2];
                add(w == 7 ? FT::ifelse(*e[0], *e[1], *e[2]) : w == 6 ? FT::ifelse(x[0], *e[1], *e[2]) : w == 5 ? FT::ifelse(*e[0], x[1], *e[2]) : w == 3 ? FT::ifelse(*e[0], *e[1], x[2]) : w == 4 ? FT::ifelse(x[0], x[1], *e[2]) : w == 1 ? FT::ifelse(*e[0], x[1], x[2]) : FT::ifelse(x[0], *e[1], x[2]), r); } break; }
        case 4: { int w = s.pick({1, 1, 1, 2, 2, 2}); size_t n = 1 + s.below(4); size_t k = any(); std::vector<size_t> q{k}; static const char* N[] = {"min", "max", "mtimes", "vertcat", "horzcat", "scalsum"};
            for (size_t i = 1; i < n; ++i){ auto& a = p[q.back()].m; int l = find([&](const M& b){ return w == 2 ? b.m == a.n : w == 3 ? b.n == a.n : w == 4 ? b.m == a.m : b.m == a.m && b.n == a.n; }); if (l < 0) break; q.push_back(l); }
            std::vector<Expr> e; std::vector<double> f; last = N[w]; last += "("; for (size_t l: q){ e.push_back(p[l].e); f.push_back(val(s)); last += show(p[l].m) + (w == 5 ? fmt("*%g ", f.back()) : " "); } last += ")";
            M r = p[q[0]].m; double t = 0; 
            if (w == 5){ for (auto& x: r.v) x *= f[0]; t = big(r); }
            M ra = absm(r);
            for (size_t i = 1; i < q.size(); ++i){ auto& b = p[q[i]].m; if (w == 2){ r = mulm(r, b); ra = mulm(ra, absm(b)); } else if (w == 3){ M z(r.m + b.m, r.n); for (size_t a = 0; a < z.m; ++a) for (size_t j = 0; j < z.n; ++j) z(a, j) = a < r.m ? r(a, j) : b(a - r.m, j); r = z; } else if (w == 4){ r.v.insert(r.v.end(), b.v.begin(), b.v.end()); r.n += b.n; } else for (size_t a = 0; a < r.v.size(); ++a){ ties |= r.v[a] == b.v[a]; r.v[a] = w == 0 ? std::min(r.v[a], b.v[a]) : w == 1 ? std::max(r.v[a], b.v[a]) : r.v[a] + f[i]*b.v[a]; t = std::max(t, std::fabs(f[i]*b.v[a])); } }
            double tol = w == 2 ? 1e-12*big(ra) : w == 5 ? 1e-12*t*q.size() : 0; auto b = e.data(), z = e.data() + e.size();
            if (w >= 3 && w < 5 && e.size() == 2 && s.flip()) add(w == 3 ? FT::vertcat({e[0], e[1]}) : FT::horzcat({e[0], e[1]}), r, tol);
            else add(w == 0 ? FT::min(b, z) : w == 1 ? FT::max(b, z) : w == 2 ? FT::mtimes(b, z) : w == 3 ? FT::vertcat(b, z) : w == 4 ? FT::horzcat(b, z) : FT::scalsum(b, z, f.data()), r, tol); break; }
        case 5: { size_t k = any(); auto a = p[k].m; switch (s.pick({2, 2, 2, 2, 2, 2, 1})){
            case 0: { size_t i = s.below(a.m), j = s.below(a.n); last = fmt("entry (%zu, %zu) of ", i, j) + show(a); add(p[k].e(i, j), M(1, 1, a(i, j))); break; }
            case 1: { size_t i = s.below(a.m); last = fmt("row %zu of ", i) + show(a); M r(1, a.n); for (size_t j = 0; j < a.n; ++j) r(0, j) = a(i, j); add(p[k].e.row(i), r); break; }
            case 2: { size_t j = s.below(a.n); last = fmt("column %zu of ", j) + show(a); M r(a.m, 1); for (size_t i = 0; i < a.m; ++i) r(i, 0) = a(i, j); add(p[k].e.col(j), r); break; }
            case 3: { last = "transpose of " + show(a); M r(a.n, a.m); for (size_t i = 0; i < a.m; ++i) for (size_t j = 0; j < a.n; ++j) r(j, i) = a(i, j); add(p[k].e.T(), r); break; }
            case 4: { std::vector<size_t> I(1 + s.below(4)), J(1 + s.below(4)); for (auto& x: I) x = s.below(a.m); for (auto& x: J) x = s.below(a.n); last = "submatrix at " + pbt::show(I) + " x " + pbt::show(J) + " of " + show(a); M r(I.size(), J.size()); for (size_t i = 0; i < r.m; ++i) for (size_t j = 0; j < r.n; ++j) r(i, j) = a(I[i], J[j]); if (I.size() == 2 && J.size() == 1) add(FT::submatrix(p[k].e, {I[0], I[1]}, {J[0]}), r); else add(FT::submatrix(p[k].e, I.data(), I.size(), J.data(), (long)J.size()), r); break; }
            case 5: { size_t i0 = s.below(a.m), j0 = s.below(a.n), di = 1 + s.below(3), dj = 1 + s.below(3); last = fmt("submatrix from (%zu, %zu) by steps %zu, %zu of ", i0, j0, di, dj) + show(a); M r((a.m - i0 + di - 1)/di, (a.n - j0 + dj - 1)/dj); for (size_t i = 0; i < r.m; ++i) for (size_t j = 0; j < r.n; ++j) r(i, j) = a(i0 + i*di, j0 + j*dj); add(FT::submatrix(p[k].e, i0, (long)di, j0, (long)dj), r); break; }
            default: { size_t i = a.m + s.below(2), j = s.below(a.n); if (s.flip()){ i = s.below(a.m); j = a.n + s.below(2); } const Expr& e = p[k].e; throws(fmt("entry (%zu, %zu) of a %zux%zu expression", i, j, a.m, a.n).c_str(), [&]{ e(i, j); }); } } break; }
        case 6: { size_t k = any(); int l = like(k); int w = s.pick({1, 1, 1, 1}); M r = p[k].m; auto& y = p[l].m; last = fmt("%c= on expression %zu with %d: ", "+-*/"[w], k, l) + show(r) + " and " + show(y); for (size_t i = 0; i < r.v.size(); ++i) r.v[i] = w == 0 ? p[k].m.v[i] + y.v[i] : w == 1 ? p[k].m.v[i] - y.v[i] : w == 2 ? p[k].m.v[i]*y.v[i] : p[k].m.v[i]/y.v[i]; if (!finite(r) || big(r) > 1e100) break;
            auto& e = p[k].e; auto& o = p[l].e; Expr& q = w == 0 ? e += o : w == 1 ? e -= o : w == 2 ? e *= o : e /= o; c.ok(&q == &e, [&]{ return last + " does not return its left operand"; }); same(e, r, 0); p[k].m = r; p[k].old = false; break; }
        case 7: { size_t k = any(); auto a = p[k].m; switch (s.pick({3, 2, 2, 2, 2, 1, 1, 1, 2, 1, 1})){
            case 0: { last = fmt("copying expression %zu", k); Expr e(p[k].e); add(std::move(e), a); break; }
            case 1: { size_t l = s.below(p.size()); last = fmt("assigning expression %zu to %zu", k, l); p[l].e = static_cast<const Expr&>(p[k].e); p[l].m = a; break; }
            case 2: { double x = val(s); last = fmt("assigning number %g to expression %zu", x, k); p[k].e = x; for (auto& t: p[k].m.v) t = x; break; }
            case 3: { M r = rnd(s, a.m, a.n); last = fmt("assigning values to expression %zu", k); p[k].e = r.v.data(); p[k].m = r; break; }
            case 4: { size_t m = 1 + s.below(4), n = 1 + s.below(4); last = fmt("zeroes(%zu, %zu)", m, n); add(p[k].e.zeroes(m, n), M(m, n)); break; }
            case 5: { M r = rnd(s, 1 + s.below(3), 1 + s.below(3)); NumExpr x(r.m, r.n); x.v = r.v; last = fmt("assigning a back end value to expression %zu", k); c.ok(assign(p[k].e, static_cast<const NumExpr&>(x), 0), "a value of the back end cannot be assigned to an expression"); x.v[0] += 1; p[k].m = r; break; }
            case 6: { M r = rnd(s, 1 + s.below(3), 1 + s.below(3)); auto x = std::make_shared<NumExpr>(r.m, r.n); x->v = r.v; bool cp = s.flip(); last = "making an expression from a shared back end value"; Expr e; if (s.flip()){ c.ok(cp ? assign(e, static_cast<const std::shared_ptr<NumExpr>&>(x), 0) : assign(e, std::shared_ptr<NumExpr>(x), 0), "a shared value of the back end cannot be assigned to an expression"); } else { std::shared_ptr<Ani::BaseExpr> y = x; Expr g = cp ? Expr(static_cast<const std::shared_ptr<Ani::BaseExpr>&>(y)) : Expr(std::move(y)); e = std::move(g); } c.ok((e.base().get() == x.get()) == !cp, [&]{ return std::string(cp ? "an expression made from a shared value it should copy refers to that value" : "an expression given a shared value does not hold it"); }); if (cp) x->v[0] += 1; add(std::move(e), r); break; }
            case 7: { last = fmt("moving expression %zu", k); Expr e(std::move(p[k].e)); p[k].e = std::move(e); break; }
            case 8: { std::vector<std::pair<size_t, size_t>> f; for (size_t m = 1; m <= a.v.size(); ++m) if (a.v.size() % m == 0) f.push_back({m, a.v.size()/m}); auto d = f[s.below(f.size())]; last = fmt("reshaping expression %zu to %zux%zu", k, d.first, d.second); p[k].e.reshape(d.first, d.second); p[k].m.m = d.first; p[k].m.n = d.second; break; }
            case 9: { last = fmt("assigning expression %zu to itself", k); auto& e = p[k].e; e = static_cast<const Expr&>(e); break; }
            default: { size_t l = s.below(p.size()); last = fmt("a copy of expression %zu changed", l); Expr e(p[l].e); e = 77.; Expr g(static_cast<const NumExpr&>(*p[l].e.target<NumExpr>())); g = 55.; } } break; }
        case 8: { int k = find([](const M& a){ return a.m == 3 && a.n == 3; }); if (k < 0){ size_t l = any(); auto& e = p[l].e; throws("det3x3 of an expression that is not 3x3", [&]{ FT::det3x3(e); }); break; } auto& a = p[k].m; last = "det3x3(" + show(a) + ")"; M r; double t = 0; for (int i = 0; i < 3; ++i){ double x = a(0, i)*a(1, (i+1)%3)*a(2, (i+2)%3), y = a(0, i)*a(1, (i+2)%3)*a(2, (i+1)%3); r.v[0] += x - y; t += std::fabs(x) + std::fabs(y); } add(FT::det3x3(p[k].e), r, 1e-12*t); break; }
        case 9: { size_t k = any(); M r; double t = 0; for (double x: p[k].m.v) t += x*x; r.v[0] = std::sqrt(t); last = "norm(" + show(p[k].m) + ")"; add(FT::norm(p[k].e), r, 1e-12*r.v[0]); break; }
        default: { Expr e; last = "an empty expression"; c.ok(e.nrows() == 0 && e.ncols() == 0, "an expression without a value has a size"); switch (s.below(5)){ case 0: throws("assigning a number to an empty expression", [&]{ e = 1.; }); break; case 1: throws("reshaping an empty expression", [&]{ e.reshape(2, 2); }); break; case 2: throws("zeroes of an empty expression", [&]{ e.zeroes(); }); break; case 3: { auto& a = p[0].e; throws("a gathering of no expressions", [&]{ FT::vertcat(&a, &a); }); break; } default: { Expr q[2]; q[0] = p[0].e; throws("a gathering with an empty expression", [&]{ FT::horzcat(q, q + 2); }); } } } }
    } };
PBT_PROP(F05_program, 40000, 600000, "programs of at least four steps in which an operation is applied to the result of an earlier one"){
    World w(s, c); size_t d = 1 + s.below(4), k = 2 + s.below(3); for (size_t i = 0; i < k; ++i){ size_t m = s.chance(1, 2) ? d : 1 + s.below(4), n = s.chance(1, 2) ? d : 1 + s.below(4); if (s.chance(1, 3)) m = n = 3; if (s.chance(1, 6)){ m = 3; n = 1; } M a = rnd(s, m, n); c.note(show(a)); w.p.push_back(Slot{mk(a), a, true}); }
    int n = 1 + (int)s.below(12); std::string t; for (int i = 0; i < n; ++i){ w.step(); t += w.last.substr(0, 60) + "; "; w.all(); }
    c.note(t); c.nontrivial(n >= 4 && w.chained); c.label(w.ties ? "equal operands met" : "no equal operands"); }
