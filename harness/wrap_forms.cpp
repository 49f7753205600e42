// W01: every form of function the wrappers are offered for; a separate program, because a form that can not be compiled is
// decided as a failure of the property (run.py, must_compile).
#include "wrap.h"
using namespace wr;
template<class Real, class Int> struct Forms {
    static constexpr auto P = ThreadPar::Type::NONE; typedef Ani::DynMem<Real, Int> DM; typedef Ani::MatFuncWrapDynamic<P, Real, Int> W; typedef typename W::IOData IO;
    struct Log { const Real** args = nullptr; Real *A = nullptr, *F = nullptr, *w = nullptr; Int* iw = nullptr; void* ud = nullptr; DM* dm = nullptr; Real** res = nullptr; int calls = 0; };
    static void run(Src& s, Ctx& c){
        auto L = std::make_shared<Log>(); Log& l = *L; size_t n = s.below(9), m = s.below(9), nw = s.below(9), ni = s.below(9); bool ud = s.flip(), dm = s.flip(); int kind = (int)s.below(3), form = (int)s.below(6); c.note(fmt("kind %d form %d %zux%zu", kind, form, n, m)); c.label(fmt("%d.%d", kind, form)); c.nontrivial(n != m && n && m && nw != ni);
        W f; bool hud = form == 2 || form == 3 || form == 5, hw = form >= 3, hdm = form == 5; if (form == 0) hud = ud, hdm = dm, hw = true;
        auto io = [L](IO d){ L->args = d.args; L->res = d.res; L->w = d.w; L->iw = d.iw; L->ud = d.user_data; L->dm = d.allocator; ++L->calls; };
        #define SET1(a) L->args = x; L->a = A; ++L->calls;
        #define SET2 L->args = x; L->A = A; L->F = F; ++L->calls;
        #define ALL L->w = w; L->iw = iw; L->ud = u; L->dm = d;
        typedef const Real** X; typedef Real* R; typedef Int* I; typedef void* U; typedef DM* D; 
        if (kind == 0) switch (form){
            case 0: f = Ani::GenerateElemMatRhs<P, Real, Int>(std::function<void(IO)>(io), n, m, nw, ni, ud, dm); break;
            case 1: f = Ani::GenerateElemMatRhs<P, Real, Int>(std::function<void(X, R, R)>([L](X x, R A, R F){ SET2 }), n, m); break;
            case 2: f = Ani::GenerateElemMatRhs<P, Real, Int>(std::function<void(X, R, R, U)>([L](X x, R A, R F, U u){ SET2 L->ud = u; }), n, m); break;
            case 3: f = Ani::GenerateElemMatRhs<P, Real, Int>(std::function<void(X, R, R, R, I, U)>([L](X x, R A, R F, R w, I iw, U u){ D d = nullptr; SET2 ALL }), n, m, nw, ni); break;
            case 4: f = Ani::GenerateElemMatRhs<P, Real, Int>(std::function<void(X, R, R, R, I)>([L](X x, R A, R F, R w, I iw){ D d = nullptr; U u = nullptr; SET2 ALL }), n, m, nw, ni); break;
            case 5: f = Ani::GenerateElemMatRhs<P, Real, Int>(std::function<void(X, R, R, R, I, U, D)>([L](X x, R A, R F, R w, I iw, U u, D d){ SET2 ALL }), n, m, nw, ni); break; }
        else if (kind == 1) switch (form){
            case 0: f = Ani::GenerateElemMat<P, Real, Int>(std::function<void(IO)>(io), n, m, nw, ni, ud, dm); break;
            case 1: f = Ani::GenerateElemMat<P, Real, Int>(std::function<void(X, R)>([L](X x, R A){ SET1(A) }), n, m); break;
            case 2: f = Ani::GenerateElemMat<P, Real, Int>(std::function<void(X, R, U)>([L](X x, R A, U u){ SET1(A) L->ud = u; }), n, m); break;
            case 3: f = Ani::GenerateElemMat<P, Real, Int>(std::function<void(X, R, R, I, U)>([L](X x, R A, R w, I iw, U u){ D d = nullptr; SET1(A) ALL }), n, m, nw, ni); break;
            case 4: f = Ani::GenerateElemMat<P, Real, Int>(std::function<void(X, R, R, I)>([L](X x, R A, R w, I iw){ D d = nullptr; U u = nullptr; SET1(A) ALL }), n, m, nw, ni); break;
            case 5: f = Ani::GenerateElemMat<P, Real, Int>(std::function<void(X, R, R, I, U, D)>([L](X x, R A, R w, I iw, U u, D d){ SET1(A) ALL }), n, m, nw, ni); break; }
        else switch (form){
            case 0: f = Ani::GenerateElemRhs<P, Real, Int>(std::function<void(IO)>(io), n, nw, ni, ud, dm); break;
            case 1: f = Ani::GenerateElemRhs<P, Real, Int>(std::function<void(X, R)>([L](X x, R A){ SET1(F) }), n); break;
            case 2: f = Ani::GenerateElemRhs<P, Real, Int>(std::function<void(X, R, U)>([L](X x, R A, U u){ SET1(F) L->ud = u; }), n); break;
            case 3: f = Ani::GenerateElemRhs<P, Real, Int>(std::function<void(X, R, R, I, U)>([L](X x, R A, R w, I iw, U u){ D d = nullptr; SET1(F) ALL }), n, nw, ni); break;
            case 4: f = Ani::GenerateElemRhs<P, Real, Int>(std::function<void(X, R, R, I)>([L](X x, R A, R w, I iw){ D d = nullptr; U u = nullptr; SET1(F) ALL }), n, nw, ni); break;
            case 5: f = Ani::GenerateElemRhs<P, Real, Int>(std::function<void(X, R, R, I, U, D)>([L](X x, R A, R w, I iw, U u, D d){ SET1(F) ALL }), n, nw, ni); break; }
        size_t a = 9, b = 9, x = 99, y = 99; f.working_sizes(a, b, x, y); size_t nout = kind == 0 ? 2 : 1; c.ok(a == 4 && b == nout && f.n_in() == 4 && f.n_out() == nout, "numbers of arguments or results are wrong"); c.ok(x == (hw ? nw : 0) && y == (hw ? ni : 0), [&]{ return fmt("working sizes are %zu, %zu", x, y); }); c.ok(f.is_user_data_required() == hud && f.isValid(), "need of user data or validity is wrong");
        Pat v; v.n = 3; v.m = 1; v.dense = true; v.mask.assign(3, 1); for (int i = 0; i < 4; ++i) same(c, f.in_sparsity(i), v, "an argument"); Pat M; M.dense = true; M.n = n; M.m = m; M.mask.assign(n*m, 1); Pat B = M; B.m = 1; B.mask.assign(n, 1); if (kind < 2) same(c, f.out_sparsity(0), M, "the matrix"); if (kind != 1) same(c, f.out_sparsity(kind ? 0 : 1), B, "the right-hand side");
        Real t[9]; Int it[2]; int u; const Real* args[4] = {t, t + 1, t + 2, t + 3}; Real* res[2] = {t + 4, t + 5}; Int id = f.setup_and_alloc_memory(); bool mem = s.chance(3, 4); int q = f(args, res, t + 6, it, &u, mem ? id : -1); c.ok(q == 0 && l.calls == 1, "the function is not called once with success"); c.ok(l.args == args, "other coordinates are passed");
        if (form == 0) c.ok(l.res == res, "other results are passed"); else { if (kind < 2) c.ok(l.A == res[0], "another matrix is passed"); if (kind != 1) c.ok(l.F == res[kind ? 0 : 1], "another right-hand side is passed"); }
        if (hw) c.ok(l.w == t + 6 && l.iw == it, "other working arrays are passed"); if (form == 2 || form == 3 || form == 5 || form == 0) c.ok(l.ud == &u, "other user data are passed"); if (form == 0 || form == 5) c.ok((l.dm != nullptr) == (hdm && mem), "memory is passed where not asked for or not where it is");
        std::shared_ptr<Ani::MatFuncWrap<Real, Int>> keep; Ani::MatFuncWrapHolder<P, Real, Int> h; W g(f); const W& cf = f; h = cf; c.ok(h.isValid() && h.n_out() == nout && h.out_size1(0) == (Int)n, "a holder assigned a wrapper holds another"); h(args, res); c.ok(l.calls == 2, "a holder assigned a wrapper calls another"); Ani::MatFuncWrapHolder<P, Real, Int> h2; h2 = W(f); h2(args, res); c.ok(l.calls == 3 && h2.n_in() == 4, "a holder assigned a wrapper calls another");
        { Pat p = pat(s); std::vector<Real> d(p.n*p.m + 1, (Real)9), w(p.n*p.m); for (auto& e: w) e = (Real)s.range(-9, 9); for (size_t i = 0; i < w.size(); ++i) d[i] = w[i]; auto S = mat<Int>(p); if (s.flip()) S.template sparsify<Real>(d.data()); else S.getView().template sparsify<Real>(d.data()); size_t k = 0; for (size_t i = 0; i < w.size(); ++i) if (p.mask[i]){ c.ok(d[k] == w[i], "compressing a matrix in place gives another entry"); ++k; } c.ok(d[p.n*p.m] == (Real)9, "compressing in place writes behind the matrix"); }
    } };
PBT_PROP(W01_forms, 20000, 200000, "matrices that are not square, different working sizes"){ Forms<double, long>::run(s, c); }
PBT_PROP(W01_forms_float, 20000, 200000, "matrices that are not square, different working sizes"){ Forms<float, int>::run(s, c); }
