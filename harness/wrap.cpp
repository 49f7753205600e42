// W01: wrapped element functions and their sparsities.
#include "wrap.h"
#include <map>
#include <sstream>
using namespace wr; typedef long double ld;

template<class Int, class Real> static void spars(Src& s, Ctx& c){
    Pat p = pat(s); c.note(p.str()); long N = p.n*p.m, nz = p.nnz(); c.nontrivial(nz > 1 && nz < N); if (!nz) c.label("empty"); if (!p.dense && nz == N) c.label("full");
    std::vector<Int> col, row; csc(p, col, row); auto M = mat<Int>(p); Ani::MatSparsityView<Int> w = p.dense ? Ani::MatSparsityView<Int>::make_as_dense((Int)p.n, (Int)p.m) : Ani::MatSparsityView<Int>::make_as_sparse((Int)nz, (Int)p.n, (Int)p.m, col.data(), row.data());
    int how = (int)s.below(3); auto view = [&]{ return how == 0 ? w : M.getView(); }; same(c, w, p, "a view"); same(c, M.getView(), p, "a matrix");
    std::vector<Real> val(nz); for (auto& x: val) x = (Real)s.range(-30, 30); Real fill = (Real)s.range(-3, 3), g = (Real)99; std::vector<Real> den(N); { long k = 0; for (long i = 0; i < N; ++i) den[i] = p.mask[i] ? val[k++] : fill; }
    auto chk = [&](const std::vector<Real>& a, const std::vector<Real>& x, const char* what){ for (size_t i = 0; i < a.size(); ++i) c.ok(a[i] == (i < x.size() ? x[i] : g), [&]{ return std::string(what) + fmt(" gives %g at place %zu and not %g", (double)a[i], i, (double)(i < x.size() ? x[i] : g)); }); };
    { std::vector<Real> f = val, t(N + 2, g); f.resize(nz + 1, (Real)77); if (how == 2) M.template densify<Real>(f.data(), t.data(), fill); else view().template densify<Real>(f.data(), t.data(), fill); chk(t, den, "densify"); f.pop_back(); c.ok(f == val, "densify changes its source"); 
      std::vector<Real> t2(N + 2, g); Ani::SparsedData<Real, Int> sd(view(), f.data()); sd.densify(t2.data(), fill); chk(t2, den, "densify of data with their sparsity"); }
    { std::vector<Real> z(N); long k = 0; for (long i = 0; i < N; ++i) z[i] = p.mask[i] ? val[k++] : (Real)0; std::vector<Real> t(N + 2, g); for (long i = 0; i < nz; ++i) t[i] = val[i]; if (how == 2) M.template densify<Real>(t.data()); else { auto v = view(); v.template densify<Real>(t.data()); } chk(t, z, "densify in place"); 
      std::vector<Real> u(nz + 2, g); if (how == 2) M.template sparsify<Real>(t.data(), u.data()); else view().template sparsify<Real>(t.data(), u.data()); chk(u, val, "sparsify"); }
    { std::vector<Int> a(p.m + 2, -7), b(nz + 1, -7); int part = (int)s.below(4); long *A; std::vector<short> sa(p.m + 2, -7), sb(nz + 1, -7); bool other = s.flip(); auto run = [&](auto& x, auto& y){ auto *px = part & 1 ? x.data() : nullptr, *py = part & 2 ? y.data() : nullptr; if (how == 2) M.copyCSC(px, py); else view().copyCSC(px, py);
        for (size_t i = 0; i < x.size(); ++i) c.ok((long)x[i] == (px && i < col.size() ? (long)col[i] : -7), "column starts are wrong or written where not asked for"); for (size_t i = 0; i < y.size(); ++i) c.ok((long)y[i] == (py && i < row.size() ? (long)row[i] : -7), "row indexes are wrong or written where not asked for"); };
      if (other) run(sa, sb); else run(a, b); }
    { std::vector<char> a(N + 1, 5); std::vector<bool> b(N + 1, true); std::vector<double> d(N + 1, 5); if (how == 2) M.fillTemplate(a.begin()), M.fillTemplate(b.begin()), M.template fillTemplate<double*, double>(d.data()); else view().fillTemplate(a.begin()), view().fillTemplate(b.begin()), view().template fillTemplate<double*, double>(d.data());
      for (long i = 0; i < N; ++i) c.ok((bool)a[i] == (bool)p.mask[i] && b[i] == (bool)p.mask[i] && d[i] == (double)p.mask[i], [&]{ return fmt("the template of the matrix is wrong at place %ld", i); }); c.ok(a[N] == 5 && d[N] == 5, "the template is longer than the matrix"); } }
PBT_PROP(W01_sparsity_long_double, 20000, 300000, "sparse matrices with some entries and some gaps"){ spars<long, double>(s, c); }
PBT_PROP(W01_sparsity_int_float, 20000, 300000, "sparse matrices with some entries and some gaps"){ spars<int, float>(s, c); }
PBT_PROP(W01_sparsity_int_int, 20000, 300000, "sparse matrices with some entries and some gaps"){ spars<int, int>(s, c); }

// a wrapper of generated shape
template<ThreadPar::Type P, class Real, class Int> struct Wrap {
    typedef Ani::MatFuncWrapDynamic<P, Real, Int> W; typedef Ani::DynMem<Real, Int> DM; typedef Ani::MatFuncWrap<Real, Int> Base;
    struct Log { const Real** args; Real** res; Real* w; Int* iw; void* ud; DM* dm; int calls = 0; int ret = 0; };
    struct Sh { std::vector<Pat> in, out; size_t sw, siw; bool ud, dm; std::shared_ptr<Log> log; };
    static Sh shape(Src& s){ Sh h; size_t a = s.below(5), b = s.below(4); for (size_t i = 0; i < a; ++i) h.in.push_back(pat(s)); for (size_t i = 0; i < b; ++i) h.out.push_back(pat(s)); h.sw = s.below(20); h.siw = s.below(20); h.ud = s.flip(); h.dm = s.chance(2, 3); h.log = std::make_shared<Log>(); return h; }
    static W make(const Sh& h){ std::vector<Ani::MatSparsity<Int>> i, o; for (auto& p: h.in) i.push_back(mat<Int>(p)); for (auto& p: h.out) o.push_back(mat<Int>(p)); auto l = h.log;
        return W([l](const Real** args, Real** res, Real* w, Int* iw, void* ud, DM* dm){ l->args = args; l->res = res; l->w = w; l->iw = iw; l->ud = ud; l->dm = dm; ++l->calls; return l->ret; }, i, o, h.sw, h.siw, h.ud, h.dm); }
    static std::string text(const Sh& h){ auto one = [](const Pat& p){ return fmt("[%ld", p.n) + (p.m > 1 ? fmt("x%ld", p.m) : "") + (p.nnz() != p.n*p.m ? fmt(" nnz=%ld", p.nnz()) : "") + "]"; }; std::string r = "MatFuncWrap: ("; for (size_t i = 0; i < h.in.size(); ++i) r += (i ? ", " : "") + fmt("i%zu", i) + one(h.in[i]); if (h.ud) r += ", user_data"; if (h.sw || h.siw){ r += ", external mem{ "; if (h.sw) r += fmt("w[%zu], ", h.sw); if (h.siw) r += fmt("iw[%zu], ", h.siw); r += "}"; }
        r += ")->("; for (size_t i = 0; i < h.out.size(); ++i) r += (i ? ", " : "") + fmt("o%zu", i) + one(h.out[i]); return r + ")\n"; }
    template<class F> static void declared(Ctx& c, const F& f, const Sh& h, const char* what){ auto bad = [&](const char* m){ return std::string(what) + ": " + m; };
        size_t a = 77, b = 77, x = 77, y = 77; f.working_sizes(a, b, x, y); c.ok(a == h.in.size() && b == h.out.size() && x == h.sw && y == h.siw, [&]{ return std::string(what) + fmt(": working sizes are %zu, %zu, %zu, %zu instead of %zu, %zu, %zu, %zu", a, b, x, y, h.in.size(), h.out.size(), h.sw, h.siw); });
        c.ok(f.is_user_data_required() == h.ud && f.n_in() == h.in.size() && f.n_out() == h.out.size() && f.isValid() && (bool)f, [&]{ return bad("numbers of arguments and results, need of user data or validity are wrong"); });
        for (int d = 0; d < 2; ++d) for (size_t i = 0; i < (d ? h.out : h.in).size(); ++i){ const Pat& p = (d ? h.out : h.in)[i]; Int k = (Int)i; same(c, d ? f.out_sparsity(k) : f.in_sparsity(k), p, what); long z = d ? f.out_nnz(k) : f.in_nnz(k), n = d ? f.out_size1(k) : f.in_size1(k), m = d ? f.out_size2(k) : f.in_size2(k); c.ok(z == p.nnz() && n == p.n && m == p.m, [&]{ return bad("declared sizes of a matrix are wrong"); });
            std::vector<Int> col, row, u(p.m + 1, -7), v(p.nnz() + 1, -7); csc(p, col, row); if (d) f.out_csc(k, u.data(), v.data()), f.out_csc(k, nullptr, nullptr); else f.in_csc(k, u.data(), v.data()), f.in_csc(k, nullptr, nullptr); v.pop_back(); c.ok(u == col && v == row, [&]{ return bad("declared CSC indexes are of another matrix"); }); }
        std::ostringstream o; auto& q = f.print_signature(o); c.ok(&q == &o, "print_signature does not return its stream"); std::string t = text(h); c.ok(o.str() == t, [&]{ return bad("signature is ") + o.str() + " instead of " + t; }); }
    template<class F, class M> static int bym(const F& f, M m){ if constexpr (std::is_base_of<Base, F>::value) return static_cast<const Base&>(f)(m); else return f(m); }
    template<class F> static void call(Src& s, Ctx& c, const F& f, const Sh& h, Int id, DM* dm, bool any, const char* what){ Real x[3]; Int y[2]; const Real* a[2] = {x, x + 1}; Real* r[2] = {x + 2, x}; int u; Log& l = *h.log; int n = l.calls; l.ret = s.range(-3, 3); typename Base::Memory m; m.m_args = a; m.m_res = r; m.m_w = s.flip() ? x : nullptr; m.m_iw = s.flip() ? y : nullptr; m.user_data = s.flip() ? &u : nullptr; m.mem_id = id;
        int ret = s.flip() ? bym(f, m) : f(a, r, m.m_w, m.m_iw, m.user_data, id); c.ok(ret == l.ret && l.calls == n + 1, [&]{ return std::string(what) + ": the result code or the number of calls is wrong"; }); c.ok(l.args == a && l.res == r && l.w == m.m_w && l.iw == m.m_iw && l.ud == m.user_data, [&]{ return std::string(what) + ": an argument is not passed as it was given"; });
        if (any) c.ok(l.dm != nullptr, [&]{ return std::string(what) + ": no memory is passed"; }); else c.ok(l.dm == dm, [&]{ return std::string(what) + ": another memory is passed"; }); }
    static void run(Src& s, Ctx& c){
        Sh h = shape(s), h2 = shape(s); W f = make(h); c.note(text(h)); c.nontrivial(h.in.size() > 1 && h.out.size() > 0 && h.sw != h.siw && h.dm);
        declared(c, f, h, "a wrapper"); call(s, c, f, h, s.range(-2, -1), nullptr, false, "a wrapper"); { W e; c.ok(!e.isValid() && !e, "a wrapper of nothing is valid"); Ani::MatFuncWrapHolder<P, Real, Int> o; c.ok(!o.isValid() && !o, "a holder of nothing is valid"); }
        int k = 1 + (int)s.below(4); typedef Ani::MatFuncWrapHolder<P, Real, Int> Ho;
        for (int i = 0; i < k; ++i) switch (s.below(6)){
            case 0: { W g(f); declared(c, g, h, "a copy"); call(s, c, g, h, -1, nullptr, false, "a copy"); break; }
            case 1: { W g = make(h2); if (s.flip()) g.setup_and_alloc_memory(); g = f; declared(c, g, h, "an assigned wrapper"); call(s, c, g, h, -1, nullptr, false, "an assigned wrapper"); break; }
            case 2: { W g(f); W q(std::move(g)); declared(c, q, h, "a moved wrapper"); call(s, c, q, h, -1, nullptr, false, "a moved wrapper"); break; }
            case 3: { W g(f), q = make(h2); q = std::move(g); declared(c, q, h, "a move-assigned wrapper"); call(s, c, q, h, -1, nullptr, false, "a move-assigned wrapper"); break; }
            case 4: { Ho q(W{f}); declared(c, q, h, "a holder"); call(s, c, q, h, -1, nullptr, false, "a holder"); Ho r(q), t; t = r; declared(c, t, h, "a copied holder"); c.ok(t.m_invoker == q.m_invoker, "a copied holder holds another function"); break; }
            case 5: { std::shared_ptr<Base> b = std::make_shared<W>(f); Ho q(b), r; r = b; declared(c, q, h, "a holder of a pointer"); declared(c, r, h, "a holder assigned a pointer"); call(s, c, r, h, -1, nullptr, false, "a holder of a pointer"); break; } }
        f = *&f; declared(c, f, h, "a self-assigned wrapper"); }
    // histories of memory: ids of distinct live pools, the same pool for the same id, pools keep their contents
    static void memory(Src& s, Ctx& c){
        Sh h = shape(s); h.in.clear(); h.out.clear(); if (s.chance(3, 4)) h.dm = true; W f = make(h); Ani::MatFuncWrapHolder<P, Real, Int> ho(W{f}); bool held = s.flip(); Base& F = held ? *ho.m_invoker : f; std::map<Int, DM*> live; std::vector<std::pair<Int, Int>> ranges; int n = 1 + (int)s.below(14), most = 0;
        auto take = [&](Int id){ call(s, c, F, h, id, nullptr, true, "a call with memory"); DM* p = h.log->dm; for (auto& q: live) c.ok(q.first != id && q.second != p, [&]{ return fmt("memory %ld is given out twice", (long)id); }); live[id] = p; most = std::max(most, (int)live.size()); };
        for (int i = 0; i < n; ++i){ int op = (int)s.pick({4, 3, 2, 2, 1, 1, 2, 1}); c.note(fmt("%d", op));
            if (!h.dm){ switch (op){ case 0: { Int id = F.setup_and_alloc_memory(); call(s, c, F, h, id, nullptr, false, "a wrapper without memory"); F.defragment_memory(id); F.release_memory(id); break; } case 1: { Int t = 1 + s.below(4); auto r = F.setup_and_alloc_memory_range(t); c.ok(r.second - r.first == t, "a range of another length"); for (Int k = r.first; k < r.second; ++k) call(s, c, F, h, k, nullptr, false, "a wrapper without memory"); F.release_memory_range(r); break; } case 2: F.release_all_memory(); break; case 3: F.clear_memory(); break; default: call(s, c, F, h, s.range(-3, 3), nullptr, false, "a wrapper without memory"); } continue; }
            switch (op){
            case 0: { Int id = F.setup_and_alloc_memory(); c.ok(id >= 0, "a negative index of memory"); take(id); break; }
            case 1: if (!live.empty()){ auto it = live.begin(); std::advance(it, s.below(live.size())); bool inr = false; for (auto& r: ranges) inr = inr || (it->first >= r.first && it->first < r.second); if (inr) break; F.release_memory(it->first); live.erase(it); } break;
            case 2: { Int t = 1 + s.below(4); auto r = F.setup_and_alloc_memory_range(t); c.ok(r.first >= 0 && r.second - r.first == t, [&]{ return fmt("a range of %ld memories is from %ld to %ld", (long)t, (long)r.first, (long)r.second); }); for (Int k = r.first; k < r.second; ++k) take(k); ranges.push_back(r); break; }
            case 3: if (!ranges.empty()){ size_t k = s.below(ranges.size()); auto r = ranges[k]; ranges.erase(ranges.begin() + k); F.release_memory_range(r); for (Int q = r.first; q < r.second; ++q) live.erase(q); } break;
            case 4: F.release_all_memory(); live.clear(); ranges.clear(); break;
            case 5: F.clear_memory(); live.clear(); ranges.clear(); break;
            case 6: for (auto& q: live) call(s, c, F, h, q.first, q.second, false, "a repeated call"); call(s, c, F, h, -1, nullptr, false, "a call without memory"); break;
            case 7: for (auto& q: live){ if (s.flip()) F.defragment_memory(q.first); call(s, c, F, h, q.first, q.second, false, "a call after defragmentation"); } F.defragment_memory(-1); break; } }
        c.nontrivial(h.dm && most > 2); if (!h.dm) c.label("without memory");
        if (!held){ auto l0 = live; W g(f); Int id = g.setup_and_alloc_memory(); if (h.dm){ call(s, c, g, h, id, nullptr, true, "a copy"); for (auto& q: l0) c.ok(q.second != h.log->dm, "a copy shares memory with the original"); for (auto& q: l0) call(s, c, f, h, q.first, q.second, false, "the original of a copy"); } } }
};
typedef ThreadPar::Type PT; constexpr PT PN = PT::NONE, PS = PT::STD;
PBT_PROP(W01_wrapper, 12000, 150000, "several arguments, results, different working sizes, with memory"){ Wrap<PN, double, long>::run(s, c); }
PBT_PROP(W01_wrapper_threads, 12000, 150000, "several arguments, results, different working sizes, with memory"){ Wrap<PS, double, int>::run(s, c); }
PBT_PROP(W01_memory, 20000, 300000, "three or more memories alive at once"){ if (s.flip()) Wrap<PN, double, long>::memory(s, c); else Wrap<PS, float, int>::memory(s, c); }

// a function of the user's own derived from the interface: everything it does not say itself follows from what it says
struct Own: Ani::MatFuncWrap<double, int> { std::vector<Pat> in, out; std::vector<Ani::MatSparsity<int>> mi, mo; mutable int calls = 0; bool ok = false;
    int operator()(const double** a, double** r, double* w, int* iw, void* u, int id) const override { ++calls; return (int)(a[0][0] + 10*r[0][0] + 100*w[0] + 1000*iw[0] + 10000*id + 100000**(int*)u); }
    size_t n_in() const override { return in.size(); } size_t n_out() const override { return out.size(); } Ani::MatSparsityView<int> out_sparsity(int i) const override { return mo[i].getView(); } Ani::MatSparsityView<int> in_sparsity(int i) const override { return mi[i].getView(); } bool isValid() const override { return ok; } };
PBT_PROP(W01_interface, 10000, 100000, "several matrices"){
    Own o; size_t a = s.below(4), b = s.below(4); for (size_t i = 0; i < a; ++i){ o.in.push_back(pat(s)); o.mi.push_back(mat<int>(o.in.back())); } for (size_t i = 0; i < b; ++i){ o.out.push_back(pat(s)); o.mo.push_back(mat<int>(o.out.back())); } o.ok = s.flip(); c.note(fmt("%zu in %zu out", a, b)); c.nontrivial(a + b > 1);
    Ani::MatFuncWrapHolder<PN, double, int> h(std::shared_ptr<Ani::MatFuncWrap<double, int>>(new Own(o))); auto chk = [&](const auto& f, const char* what){ size_t x = 7, y = 7, z = 7, w = 7; f.working_sizes(x, y, z, w); c.ok(x == a && y == b && z == 0 && w == 0 && !f.is_user_data_required() && f.isValid() == o.ok && (bool)f == o.ok, [&]{ return std::string(what) + " has other sizes"; });
        for (size_t i = 0; i < a; ++i){ same(c, f.in_sparsity((int)i), o.in[i], what); c.ok(f.in_nnz((int)i) == o.in[i].nnz() && f.in_size1((int)i) == o.in[i].n && f.in_size2((int)i) == o.in[i].m, "sizes of an argument"); std::vector<int> u(o.in[i].m + 1), v(o.in[i].nnz() + 1), col, row; csc(o.in[i], col, row); f.in_csc((int)i, u.data(), v.data()); v.pop_back(); c.ok(u == col && v == row, "indexes of an argument"); }
        for (size_t i = 0; i < b; ++i){ same(c, f.out_sparsity((int)i), o.out[i], what); c.ok(f.out_nnz((int)i) == o.out[i].nnz() && f.out_size1((int)i) == o.out[i].n && f.out_size2((int)i) == o.out[i].m, "sizes of a result"); std::vector<int> u(o.out[i].m + 1), v(o.out[i].nnz() + 1), col, row; csc(o.out[i], col, row); f.out_csc((int)i, u.data(), v.data()); v.pop_back(); c.ok(u == col && v == row, "indexes of a result"); } };
    chk(static_cast<Ani::MatFuncWrap<double, int>&>(o), "an interface"); chk(h, "a holder"); double A = s.below(10), R = s.below(10), W = s.below(10); int I = (int)s.below(10), id = s.range(-1, 4), u = (int)s.below(5); const double* pa[] = {&A}; double* pr[] = {&R}; int x = (int)(A + 10*R + 100*W) + 1000*I + 10000*id + 100000*u;
    c.ok(h(pa, pr, &W, &I, &u, id) == x, "a holder passes other arguments"); Ani::MatFuncWrap<double, int>::Memory m; m.m_args = pa; m.m_res = pr; m.m_w = &W; m.m_iw = &I; m.user_data = &u; m.mem_id = id; c.ok(h(m) == x && static_cast<Ani::MatFuncWrap<double, int>&>(o)(m) == x, "a call by structure passes other arguments"); }
