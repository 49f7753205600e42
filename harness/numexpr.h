// Dense numeric implementation of the library's expression interface, used to evaluate its symbolic formulas.
#pragma once
#include "anifem++/fem/expr_interface.h"
#include <stdexcept>
namespace vp {
struct NumExpr: public Ani::BaseExpr {
    using B = Ani::BaseExpr; using sz = std::size_t;
    std::vector<double> v; sz m = 0, n = 0;
    NumExpr(sz a = 1, sz b = 1): v(a*b, 0.0), m(a), n(b) {}
    double& at(sz i, sz j){ if (i >= m || j >= n) throw std::out_of_range("expression index"); return v[i + m*j]; }
    double at(sz i, sz j) const { if (i >= m || j >= n) throw std::out_of_range("expression index"); return v[i + m*j]; }
    static const NumExpr& c(const B& b){ return static_cast<const NumExpr&>(b); }
    std::shared_ptr<B> makeExpr(sz a = 1, sz b = 1) const override { return std::make_shared<NumExpr>(a, b); }
    std::shared_ptr<B> makeCopy() const override { return std::make_shared<NumExpr>(*this); }
    sz size1() const override { return m; } sz size2() const override { return n; }
    B& put(sz a, sz b, std::vector<double> x){ m = a; n = b; v = std::move(x); return *this; }
    B& reshape(sz a, sz b) override { m = a; n = b; v.resize(a*b); return *this; }
    B& set_val(double x) override { for (double& t: v) t = x; return *this; }
    B& set_val(double* x) override { for (sz i = 0; i < v.size(); ++i) v[i] = x[i]; return *this; }
    B& set_val(const B& x) override { auto t = c(x); return put(t.m, t.n, t.v); }
    B& set_sub_matrix(const B& x, const sz* i, sz ni, const sz* j, long nj) override { NumExpr t = c(x), r(ni, nj); for (sz a = 0; a < ni; ++a) for (long b = 0; b < nj; ++b) r.at(a, b) = t.at(i[a], j[b]); return put(r.m, r.n, r.v); }
    B& set_sub_matrix(const B& x, sz i0, long di, sz j0, long dj) override { std::vector<sz> I, J; for (sz i = i0; i < c(x).m; i += di) I.push_back(i); for (sz j = j0; j < c(x).n; j += dj) J.push_back(j); return set_sub_matrix(x, I.data(), I.size(), J.data(), (long)J.size()); }
    B& set_horzcat(const B** b, const B** e) override { NumExpr r(c(**b).m, 0); for (; b != e; ++b){ auto& t = c(**b); if (t.m != r.m) throw std::runtime_error("horzcat sizes"); r.v.insert(r.v.end(), t.v.begin(), t.v.end()); r.n += t.n; } return put(r.m, r.n, r.v); }
    B& set_vertcat(const B** b, const B** e) override { sz rows = 0, cols = c(**b).n; for (auto k = b; k != e; ++k){ rows += c(**k).m; if (c(**k).n != cols) throw std::runtime_error("vertcat sizes"); } NumExpr r(rows, cols); sz s = 0; for (auto k = b; k != e; ++k){ auto& t = c(**k); for (sz i = 0; i < t.m; ++i) for (sz j = 0; j < cols; ++j) r.at(s + i, j) = t.at(i, j); s += t.m; } return put(r.m, r.n, r.v); }
    template<class F> B& bin(const B& x, const B& y, F f){ NumExpr a = c(x), b = c(y); bool sa = a.v.size() == 1, sb = b.v.size() == 1; if (!sa && !sb && (a.m != b.m || a.n != b.n)) throw std::runtime_error("expression sizes"); NumExpr r(sa ? b.m : a.m, sa ? b.n : a.n); for (sz i = 0; i < r.v.size(); ++i) r.v[i] = f(a.v[sa ? 0 : i], b.v[sb ? 0 : i]); return put(r.m, r.n, r.v); }
    template<class F> B& un(const B& x, F f){ NumExpr a = c(x); for (double& t: a.v) t = f(t); return put(a.m, a.n, a.v); }
    template<class F> B& fold(const B** b, const B** e, F f){ NumExpr r = c(**b); for (++b; b != e; ++b){ NumExpr q; q.bin(r, **b, f); r = q; } return put(r.m, r.n, r.v); }
    B& set_scal_sum(const B** b, const B** e, const double* k) override { NumExpr r(c(**b).m, c(**b).n); for (; b != e; ++b, ++k) for (sz i = 0; i < r.v.size(); ++i) r.v[i] += *k * c(**b).v[i]; return put(r.m, r.n, r.v); }
    B& set_sum(const B** b, const B** e) override { return fold(b, e, [](double x, double y){ return x + y; }); }
    B& set_mul(const B** b, const B** e) override { return fold(b, e, [](double x, double y){ return x * y; }); }
    B& set_sub(const B& a, const B& b) override { return bin(a, b, [](double x, double y){ return x - y; }); }
    B& set_swap_sign(const B& a) override { return un(a, [](double x){ return -x; }); }
    B& set_div(const B& a, const B& b) override { return bin(a, b, [](double x, double y){ return x / y; }); }
#define VP_UN(N, F) B& set_##N(const B& a) override { return un(a, [](double x)->double{ return F; }); }
    VP_UN(abs, std::fabs(x)) VP_UN(exp, std::exp(x)) VP_UN(expm1, std::expm1(x)) VP_UN(log, std::log(x)) VP_UN(log1p, std::log1p(x)) VP_UN(sqrt, std::sqrt(x)) VP_UN(cbrt, std::cbrt(x)) VP_UN(sin, std::sin(x)) VP_UN(cos, std::cos(x)) VP_UN(tan, std::tan(x))
    VP_UN(asin, std::asin(x)) VP_UN(acos, std::acos(x)) VP_UN(atan, std::atan(x)) VP_UN(sinh, std::sinh(x)) VP_UN(cosh, std::cosh(x)) VP_UN(tanh, std::tanh(x)) VP_UN(erf, std::erf(x)) VP_UN(erfc, std::erfc(x)) VP_UN(tgamma, std::tgamma(x)) VP_UN(lgamma, std::lgamma(x))
    VP_UN(floor, std::floor(x)) VP_UN(ceil, std::ceil(x)) VP_UN(sign, (x > 0) - (x < 0)) VP_UN(not, x == 0)
#define VP_BIN(N, F) B& set_##N(const B& a, const B& b) override { return bin(a, b, [](double x, double y)->double{ return F; }); }
    VP_BIN(pow, std::pow(x, y)) VP_BIN(atan2, std::atan2(x, y)) VP_BIN(fmod, std::fmod(x, y)) VP_BIN(hypot, std::hypot(x, y)) VP_BIN(lt, x < y) VP_BIN(eq, x == y) VP_BIN(and, x != 0 && y != 0) VP_BIN(or, x != 0 || y != 0)
    B& set_min(const B** b, const B** e) override { return fold(b, e, [](double x, double y){ return std::min(x, y); }); }
    B& set_max(const B** b, const B** e) override { return fold(b, e, [](double x, double y){ return std::max(x, y); }); }
    B& set_fma(const B& a, const B& b, const B& d) override { NumExpr t; t.bin(a, b, [](double x, double y){ return x*y; }); return bin(t, d, [](double x, double y){ return x + y; }); }
    B& set_ifelse(const B& x, const B& y, const B& z) override { NumExpr t = c(x).v[0] != 0 ? c(y) : c(z); return put(t.m, t.n, t.v); }
    B& set_transpose(const B& x) override { NumExpr a = c(x), r(a.n, a.m); for (sz i = 0; i < a.m; ++i) for (sz j = 0; j < a.n; ++j) r.at(j, i) = a.at(i, j); return put(r.m, r.n, r.v); }
    B& set_cross(const B& x, const B& y) override { NumExpr a = c(x), b = c(y); if (a.v.size() != 3 || b.v.size() != 3) throw std::runtime_error("cross sizes"); NumExpr r(a.m, a.n); for (int k = 0; k < 3; ++k) r.v[k] = a.v[(k+1)%3]*b.v[(k+2)%3] - a.v[(k+2)%3]*b.v[(k+1)%3]; return put(r.m, r.n, r.v); }
    B& set_dot(const B& x, const B& y) override { NumExpr a = c(x), b = c(y); if (a.v.size() != b.v.size()) throw std::runtime_error("dot sizes"); double t = 0; for (sz i = 0; i < a.v.size(); ++i) t += a.v[i]*b.v[i]; return put(1, 1, {t}); }
    B& set_mtimes(const B** b, const B** e) override { NumExpr r = c(**b); for (++b; b != e; ++b){ auto& t = c(**b); if (r.n != t.m) throw std::runtime_error("mtimes sizes"); NumExpr q(r.m, t.n); for (sz i = 0; i < r.m; ++i) for (sz j = 0; j < t.n; ++j) for (sz k = 0; k < r.n; ++k) q.at(i, j) += r.at(i, k)*t.at(k, j); r = q; } return put(r.m, r.n, r.v); }
    using B::set_sum; using B::set_mul; using B::set_min; using B::set_max; using B::set_mtimes; using B::set_val;
};
} // namespace vp
