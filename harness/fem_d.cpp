// D01-D02: interpolation onto degrees of freedom; M01: places of the degrees of freedom of spaces.
#define ST_IMPL
#include "statics.h"
using namespace gen;
using Ani::ArrayView; using Ani::DynMem; using Ani::OperatorType; using Ani::DofT::TetGeomSparsity; using Ani::PlainMemoryX;

// a function of the space given by its coefficients
static std::vector<ref::Poly> combine(const ref::Space& m, const std::vector<double>& u){
    std::vector<ref::Poly> r(m.dim); for (auto& p: r) p.c.assign(ref::NM, 0);
    for (int j = 0; j < m.nfa(); ++j) for (int k = 0; k < m.dim; ++k) if (!m.phi[j][k].zero()) for (int i = 0; i < ref::NM; ++i) r[k].c[i] += u[j]*m.phi[j][k].c[i];
    return r;
}
// place of every degree of freedom: bit masks of the vertices its functional touches, in the order of numbering
struct Place { int mask; int el; int dim() const { return __builtin_popcount(mask) - 1; }
    int etype() const { switch (dim()){ case 0: return Ani::DofT::NODE; case 1: return el == ref::ND0 ? Ani::DofT::EDGE_ORIENT : Ani::DofT::EDGE_UNORIENT; case 2: return el == ref::RT0 ? Ani::DofT::FACE_ORIENT : Ani::DofT::FACE_UNORIENT; default: return Ani::DofT::CELL; } } };
static void places(const Node& n, const ref::Tet& t, std::vector<Place>& r){
    if (n.kind == ELEM){ auto m = ref::element(n.el, t); for (auto& f: m.fun){ int k = 0; for (auto& p: f) for (int i = 0; i < 4; ++i) if (fabsl(p.l[i]) > 1e-12L) k |= 1 << i; r.push_back({k, n.el}); } return; }
    for (int i = 0; i < (n.kind == VEC ? n.k : 1); ++i) for (auto& c: n.ch) places(c, t, r);
}
// selection of parts: model is a set of vertex masks
struct Sel { TetGeomSparsity sp; std::set<int> m; std::string txt; };
static int part_mask(int dim, int i){ if (dim == 0) return 1 << i; if (dim == 1) return 1 << ref::EDGE[i][0] | 1 << ref::EDGE[i][1]; if (dim == 2) return 1 << ref::FACE[i][0] | 1 << ref::FACE[i][1] | 1 << ref::FACE[i][2]; return 15; }
static Sel selection(Src& s){
    Sel r; int k = s.pick({1, 3, 3, 2});
    auto add = [&](int d, int i, bool cl){ r.sp.set(d, i, cl); int pm = part_mask(d, i); r.m.insert(pm); if (cl) for (int q = 1; q < 16; ++q) if ((q & pm) == q) r.m.insert(q); r.txt += fmt("%c%d%s ", "nefc"[d], i, cl ? "+" : ""); };
    static const int cnt[4] = {4, 6, 4, 1};
    if (k == 0) add(3, 0, true); else if (k == 3) { for (int d = 0; d < 4; ++d) for (int i = 0; i < cnt[d]; ++i) if (s.flip()) add(d, i, false); }
    else for (int j = s.range(1, 3); j-- > 0;){ int d = s.pick({2, 3, 3, 1}); add(d, (int)s.below(cnt[d]), s.flip()); }
    return r;
}
static const double KEEP = -3.5e77;
static int quad_for(Src& s, int ord){ return s.range(std::max(ord, 1), 9); }
struct UserFun { const PFun* f; const void* expect; mutable bool bad = false; mutable long calls = 0; int dim; int rep = 1;
    int operator()(const std::array<double, 3>& X, double* r, uint d, void* ud) const { ++calls; if (ud != expect || (int)d != dim*rep) bad = true; for (int k = 0; k < rep; ++k){ (*f)(X, r + k*dim, dim, ud); if (k) for (int i = 0; i < dim; ++i) r[k*dim + i] *= -2; } return 0; } };
static int plain_fn(const std::array<double, 3>& X, double* r, uint d, void* ud){ return (*(UserFun*)ud)(X, r, d, ud); }
// calls fn with a PlainMemoryX of exactly the announced size (guarded), or leaves it to the DynMem
template<class F> static void mem_call(Ctx& c, uint64_t fill, bool raw, PlainMemoryX<> req, F fn){ el::Call k; k.mem = raw ? el::RAW : el::EXACT; k.fill = fill; el::with_mem_x(k, req, fn); c.ok(k.mem_error.empty(), k.mem_error); }

// all ways of interpolating a function on every degree of freedom
static void interp_all(Src& s, Ctx& c, const Ani::FemSpace& sp, const Cell& C, const PFun& f, int N, int D, std::vector<double>& u, int q){
    int how = (int)s.below(9), tag; UserFun g{&f, nullptr}; g.dim = D; void* ud = s.flip() ? nullptr : (void*)&tag; g.expect = ud; DynMem<> wm; ArrayView<> U(u.data(), N); uint64_t fill = s.below(1 << 20); bool raw = s.flip(); TetGeomSparsity cell; cell.setCell(true);
    static const char* nm[] = {"dof, growing memory", "dof, given memory", "dofs of the cell, growing memory", "dofs of the cell, given memory", "two functions at once", "two functions, given memory", "function pointer", "parts of the cell one by one", "component by component"}; c.label(nm[how]); c.note(nm[how]);
    switch (how){
        case 0: for (int i = 0; i < N; ++i) sp.interpolateOnDOF(C.XYZ(), g, U, i, wm, ud, q); break;
        case 1: for (int i = 0; i < N; ++i) mem_call(c, fill, raw, sp.interpolateOnDOF_mem_req(i, q), [&](PlainMemoryX<> m){ sp.interpolateOnDOF(C.XYZ(), g, U, i, m, ud, q); }); break;
        case 2: sp.interpolateByDOFs(C.XYZ(), g, U, cell, wm, ud, q); break;
        case 3: mem_call(c, fill, raw, sp.interpolateByDOFs_mem_req(q), [&](PlainMemoryX<> m){ sp.interpolateByDOFs(C.XYZ(), g, U, cell, m, ud, q); }); break;
        case 4: case 5: { g.rep = 2; std::vector<double> u2(N, KEEP); ArrayView<> v[2] = {U, ArrayView<>(u2.data(), N)};
            for (int i = 0; i < N; ++i) if (how == 4) sp.interpolateOnDOF(C.XYZ(), g, v, i, 2, wm, ud, q); else mem_call(c, fill, raw, sp.interpolateOnDOF_mem_req(i, 2, q), [&](PlainMemoryX<> m){ sp.interpolateOnDOF(C.XYZ(), g, v, i, 2, m, ud, q); });
            double mx = 1e-300; for (double x: u) mx = std::max(mx, std::fabs(x));
            for (int i = 0; i < N; ++i) c.near(u2[i], -2*u[i], 1e-8*mx, [&]{ return fmt("second of two functions, degree of freedom %d", i); }); break; }
        case 6: g.expect = &g; ud = &g; if (s.flip()) for (int i = 0; i < N; ++i) sp.interpolateOnDOF(C.XYZ(), Ani::BaseFemSpace::EvalFunc(plain_fn), U, i, wm, ud, q); else sp.interpolateByDOFs(C.XYZ(), Ani::BaseFemSpace::EvalFunc(plain_fn), U, cell, wm, ud, q); break;
        case 7: { std::vector<std::pair<int,int>> p; static const int cnt[4] = {4, 6, 4, 1}; for (int d = 0; d < 4; ++d) for (int i = 0; i < cnt[d]; ++i) p.push_back({d, i}); s.shuffle(p); for (auto& e: p){ TetGeomSparsity t; t.set(e.first, e.second); sp.interpolateByDOFs(C.XYZ(), g, U, t, wm, ud, q); } break; }
        default: { int k = 0; for (;; ++k){ auto sub = sp.subSpace(k); if (!sub.isValid()) break; sp.interpolateByDOFs(C.XYZ(), g, U, cell, sp.dofMap().GetNestedDofMapView({k}), wm, ud, q); }
            if (k == 0){ auto v = sp.dofMap().GetNestedDofMapView(); sp.interpolateByDOFs(C.XYZ(), g, U, cell, v, wm, ud, q); } }
    }
    c.ok(!g.bad, "the function was called with wrong user data or dimension");
}
static void check_reproduced(Src& s, Ctx& c, const std::vector<double>& u, const std::vector<double>& e, const std::string& what){
    double mx = 1e-300; for (double x: e) mx = std::max(mx, std::fabs(x));
    for (size_t i = 0; i < u.size(); ++i) c.near(u[i], e[i], 5e-9*mx, [&]{ return what + fmt(": degree of freedom %zu", i); });
}
static std::vector<double> coeffs(Src& s, int N){ std::vector<double> u(N); for (double& x: u) x = s.chance(1, 8) ? 0 : s.unit()*3; u[s.below(N)] = 2; return u; }

PBT_PROP(D01_runtime, 4000, 100000, "functions of a space with at least two degrees of freedom, evaluated back at generated points"){
    Limits L; L.max_nfa = 40; Node n = space(s, L); Cell C = tet(s, c, 0.02); int N = nfa(n), D = dim(n); c.note(str(n)); c.label(kind_name(n)); c.nontrivial(N > 1);
    auto m = model(n, C.t); auto u = coeffs(s, N); auto P = combine(m, u); PFun f{&C, P}; auto sp = lib(n, s.flip()); int q = quad_for(s, order(n)); c.note(fmt("quad=%d", q));
    std::vector<double> v(N, KEEP); interp_all(s, c, sp, C, f, N, D, v, q); check_reproduced(s, c, v, u, "interpolation of a function of the space");
    // evaluated back
    auto l = points(s, s.range(1, 4)); int Q = l.size()/4; auto op = sp.getOP(Ani::IDEN); std::vector<double> out((size_t)D*Q, KEEP); DynMem<> wm; Ani::DenseMatrix<> DM(v.data(), N, 1), O(out.data(), (size_t)D*Q, 1);
    Ani::fem3DapplyL(C.XYZ(), ArrayView<>(l.data(), l.size()), DM, op, O, wm); double sc = pscale(P);
    for (int k = 0; k < Q; ++k){ auto X = C.t.at(std::array<ld, 4>{{l[4*k], l[4*k+1], l[4*k+2], l[4*k+3]}}.data()); ld ll[4]; lld(&l[4*k], ll); ref::MonoVal mv = ref::monos(ll); (void)X;
        for (int d = 0; d < D; ++d){ ld t = 0; for (int i = 0; i < ref::NM; ++i) if (!P[d].zero()) t += P[d].c[i]*mv.v[i]; c.near(out[d + (size_t)D*k], (double)t, 1e-8*sc, [&]{ return fmt("evaluated back at point %d component %d", k, d); }); } }
}
PBT_PROP(D01_static, 2500, 60000, "functions of a compile-time space with at least two degrees of freedom"){
    auto& A = st::all(); auto& S = A[s.below(A.size())]; if (geom_union(S.node)) return; Cell C = tet(s, c, 0.02); int N = nfa(S.node), D = dim(S.node); c.note(S.name); c.label(S.name); c.nontrivial(N > 1);
    auto m = model(S.node, C.t); auto u = coeffs(s, N); auto P = combine(m, u); PFun f{&C, P}; int q = quad_for(s, order(S.node)); std::vector<double> v(N, KEEP), v2(N, KEEP); int how = (int)s.below(3), tag; UserFun g{&f, &tag}; g.dim = D; TetGeomSparsity cell; cell.setCell(true);
    c.note(fmt("quad=%d how=%d", q, how));
    if (how == 0) for (int i = 0; i < N; ++i) S.interp(C, st::Fn([&](const std::array<double, 3>& X, double* r, unsigned d, void* ud){ return g(X, r, d, ud); }), v.data(), N, i, &tag, q);
    else if (how == 1){ g.rep = 2; for (int i = 0; i < N; ++i) S.interp2(C, st::Fn([&](const std::array<double, 3>& X, double* r, unsigned d, void* ud){ return g(X, r, d, ud); }), v.data(), v2.data(), N, i, &tag, q); for (int i = 0; i < N; ++i) c.near(v2[i], -2*u[i], 3e-8, [&]{ return fmt("%s: second function, degree of freedom %d", S.name, i); }); }
    else S.by_dofs(C, st::Fn([&](const std::array<double, 3>& X, double* r, unsigned d, void* ud){ return g(X, r, d, ud); }), v.data(), N, cell, &tag, q);
    c.ok(!g.bad, "the function was called with wrong user data or dimension"); check_reproduced(s, c, v, u, S.name);
}
PBT_PROP(D01_constant, 1500, 30000, "spaces with point-value or mean degrees of freedom"){
    auto plain = [](const Node& n){ return !has_union(n) && !has_el(n, ref::RT0) && !has_el(n, ref::ND0); };
    Cell C = tet(s, c, 0.02); double v = s.unit()*7; TetGeomSparsity cell; cell.setCell(true); auto cf = [&](const std::array<double, 3>&, double* r, unsigned d, void*){ for (unsigned i = 0; i < d; ++i) r[i] = v; return 0; };
    std::vector<double> a, b; std::string nm; int N; DynMem<> wm;
    if (s.flip()){ Limits L; L.unions = false; Node n; int k = 0; do n = space(s, L); while (!plain(n) && ++k < 20); if (!plain(n)) n = E(ref::P2); N = nfa(n); nm = str(n); auto sp = lib(n, s.flip()); a.assign(N, KEEP); b.assign(N, KEEP);
        bool sub = s.flip(); if (sub){ auto w = sp.dofMap().GetNestedDofMapView(); sp.interpolateConstant(v, ArrayView<>(a.data(), N), cell, w); } else sp.interpolateConstant(v, ArrayView<>(a.data(), N), cell);
        sp.interpolateByDOFs(C.XYZ(), cf, ArrayView<>(b.data(), N), cell, wm); c.label("run time");
    } else { auto& A = st::all(); auto& S = A[s.below(A.size())]; if (!plain(S.node)) return; nm = S.name; N = nfa(S.node); a.assign(N, KEEP); b.assign(N, KEEP); S.constant(v, a.data(), N, cell); S.by_dofs(C, st::Fn(cf), b.data(), N, cell, nullptr, 5); c.label("compile time"); }
    c.note(nm); c.nontrivial();
    for (int i = 0; i < N; ++i){ c.ok(a[i] == v, [&]{ return fmt("%s: constant on degree of freedom %d is %.17g, expected %.17g", nm.c_str(), i, a[i], v); }); c.near(b[i], v, 1e-12*(1 + std::fabs(v)), [&]{ return fmt("%s: constant function on degree of freedom %d", nm.c_str(), i); }); }
}

// ------------------------------------------------------------------ D02
struct Wave { double a[3][4]; int operator()(const std::array<double, 3>& X, double* r, uint d, void*) const { for (uint k = 0; k < d; ++k){ auto& w = a[k%3]; r[k] = std::sin(w[0] + w[1]*X[0] + w[2]*X[1] + w[3]*X[2] + k) + 0.25*k; } return 0; } };
static Wave wave(Src& s, const Cell& C){ Wave w; for (auto& r: w.a){ r[0] = s.unit(); for (int i = 1; i < 4; ++i) r[i] = 3*s.unit()/C.h; } return w; }
PBT_PROP(D02_selected, 4000, 100000, "selections that are neither empty nor everything on the space"){
    Limits L; L.max_nfa = 40; L.depth = s.pick({1, 2, 2}); Node n = space(s, L); bool raw = s.chance(3, 4); Node f = n; auto sp = lib(n, raw); int N = nfa(n); Cell C = tet(s, c, 0.02); Sel S = selection(s); Wave w = wave(s, C); int q = s.range(1, 7);
    c.note(str(n) + " parts: " + S.txt); c.label(kind_name(n)); ArrayView<> dummy; DynMem<> wm; std::vector<double> full(N, KEEP), got(N, KEEP); std::vector<Place> pl; places(n, C.t, pl);
    for (int i = 0; i < N; ++i) sp.interpolateOnDOF(C.XYZ(), w, ArrayView<>(full.data(), N), i, wm, nullptr, q);
    // optional restriction to a component
    std::vector<int> path; int b0 = 0, b1 = N; bool sub = raw && s.flip();
    if (sub){ const Node* cur = &f; int len = s.range(0, 2); for (int k = 0; k < len && cur->kind != ELEM; ++k){ int cnt = cur->kind == VEC ? cur->k : (int)cur->ch.size(), i = (int)s.below(cnt); path.push_back(i); if (cur->kind == VEC){ b0 += i*nfa(cur->ch[0]); cur = &cur->ch[0]; } else { for (int j = 0; j < i; ++j) b0 += nfa(cur->ch[j]); cur = &cur->ch[i]; } b1 = b0 + nfa(*cur); } c.note("component " + pbt::show(path)); }
    auto view = [&]{ return sp.dofMap().GetNestedDofMapView(path.data(), (int)path.size()); };
    int how = (int)s.below(3); double v = s.unit(); uint64_t fill = s.below(1 << 20); bool rw = s.flip(); ArrayView<> U(got.data(), N); static const char* nm[] = {"growing memory", "given memory", "constant"}; c.label(sub ? std::string(nm[how]) + ", component" : nm[how]);
    if (how == 0){ if (sub) sp.interpolateByDOFs(C.XYZ(), w, U, S.sp, view(), wm, nullptr, q); else sp.interpolateByDOFs(C.XYZ(), w, U, S.sp, wm, nullptr, q); }
    else if (how == 1) mem_call(c, fill, rw, sp.interpolateByDOFs_mem_req(q), [&](PlainMemoryX<> m){ if (sub) sp.interpolateByDOFs(C.XYZ(), w, U, S.sp, view(), m, nullptr, q); else sp.interpolateByDOFs(C.XYZ(), w, U, S.sp, m, nullptr, q); });
    else { if (sub) sp.interpolateConstant(v, U, S.sp, view()); else sp.interpolateConstant(v, U, S.sp); }
    int hit = 0; double mx = 1; for (double x: full) mx = std::max(mx, std::fabs(x));
    for (int i = 0; i < N; ++i){ bool in = i >= b0 && i < b1 && S.m.count(pl[i].mask); hit += in;
        if (!in) c.ok(got[i] == KEEP, [&]{ return fmt("degree of freedom %d is not selected but was written", i); });
        else { c.ok(got[i] != KEEP, [&]{ return fmt("degree of freedom %d is selected but was not written", i); }); c.near(got[i], how == 2 ? v : full[i], 1e-11*mx, [&]{ return fmt("value of the selected degree of freedom %d", i); }); } }
    c.nontrivial(hit > 0 && hit < N);
}
PBT_PROP(D02_static, 2500, 60000, "selections that are neither empty nor everything on the space"){
    auto& A = st::all(); auto& S = A[s.below(A.size())]; int N = nfa(S.node); Cell C = tet(s, c, 0.02); Sel T = selection(s); Wave w = wave(s, C); int q = s.range(1, 7); c.note(std::string(S.name) + " parts: " + T.txt); c.label(S.name);
    std::vector<double> full(N, KEEP), got(N, KEEP); std::vector<Place> pl; places(S.node, C.t, pl); bool con = s.chance(1, 3); double v = s.unit(), mx = 1;
    for (int i = 0; i < N; ++i){ std::vector<double> one(N, KEEP); S.interp(C, st::Fn(w), one.data(), N, i, nullptr, q); full[i] = one[i]; for (int j = 0; j < N; ++j) c.ok((one[j] != KEEP) == (i == j), [&]{ return fmt("%s: interpolation of degree of freedom %d and the value of %d", S.name, i, j); }); }
    for (double x: full) mx = std::max(mx, std::fabs(x));
    if (con) S.constant(v, got.data(), N, T.sp); else S.by_dofs(C, st::Fn(w), got.data(), N, T.sp, nullptr, q);
    int hit = 0; for (int i = 0; i < N; ++i){ bool in = T.m.count(pl[i].mask); hit += in; if (!in) c.ok(got[i] == KEEP, [&]{ return fmt("%s: degree of freedom %d is not selected but was written", S.name, i); }); else c.near(got[i], con ? v : full[i], 1e-11*mx, [&]{ return fmt("%s: value of the selected degree of freedom %d", S.name, i); }); }
    c.nontrivial(hit > 0 && hit < N);
}
PBT_PROP(D02_one, 1500, 30000, "spaces with at least two degrees of freedom"){
    Limits L; L.max_nfa = 40; L.geom_unions = true; Node n = space(s, L); auto sp = lib(n, s.flip()); int N = nfa(n), D = dim(n), r = s.range(1, 3); Cell C = tet(s, c, 0.02); Wave w = wave(s, C); int i = (int)s.below(N), q = s.range(1, 7); c.note(fmt("%s dof %d fusion %d", str(n).c_str(), i, r)); c.label(kind_name(n)); c.nontrivial(N > 1);
    std::vector<std::vector<double>> u(r, std::vector<double>(N, KEEP)); std::vector<ArrayView<>> v; for (auto& x: u) v.emplace_back(x.data(), N); DynMem<> wm; uint64_t fill = s.below(1 << 20); bool rw = s.flip();
    auto g = [&](const std::array<double, 3>& X, double* o, unsigned d, void*){ if ((int)d != D*r) throw std::runtime_error(fmt("the function was asked for %u values, expected %d", d, D*r)); for (int k = 0; k < r; ++k){ w(X, o + k*D, D, nullptr); for (int j = 0; j < D; ++j) o[k*D + j] *= k + 1; } return 0; };
    if (s.flip()) sp.interpolateOnDOF(C.XYZ(), g, v.data(), i, r, wm, nullptr, q); else mem_call(c, fill, rw, sp.interpolateOnDOF_mem_req(i, r, q), [&](PlainMemoryX<> m){ sp.interpolateOnDOF(C.XYZ(), g, v.data(), i, r, m, nullptr, q); });
    double one; { std::vector<double> x(N, KEEP); sp.interpolateOnDOF(C.XYZ(), w, ArrayView<>(x.data(), N), i, wm, nullptr, q); one = x[i]; }
    for (int k = 0; k < r; ++k) for (int j = 0; j < N; ++j) if (j != i) c.ok(u[k][j] == KEEP, [&]{ return fmt("degree of freedom %d of function %d was written, only %d was asked for", j, k, i); }); else c.near(u[k][j], one*(k + 1), 1e-10*(std::fabs(one) + 1), [&]{ return fmt("value for function %d of %d", k, r); });
}
// spaces whose restriction to a part is determined by the degrees of freedom on the part's closure
static bool conforming(const Node& n){ return !has(n, [](const Node& x){ return x.kind == ELEM && (x.el == ref::P0 || x.el == ref::ND0 || x.el == ref::RT0 || x.el == ref::CR1); }); }
static const int ETYPES[4][2] = {{1, 1}, {2, 4}, {8, 16}, {32, 32}};
PBT_PROP(D02_region, 3000, 60000, "parts that carry degrees of freedom of the space"){
    Limits L; L.max_nfa = 40; int d = s.pick({2, 3, 3, 3}); Node n; int k = 0; do n = space(s, L); while (d < 3 && !conforming(n) && ++k < 20); if (d < 3 && !conforming(n)) n = Vec(E(ref::P2), 2);
    Cell C = tet(s, c, 0.02); static const int cnt[4] = {4, 6, 4, 1}; int id = (int)s.below(cnt[d]), N = nfa(n), D = dim(n), tag; auto sp = lib(n, s.flip()); auto m = model(n, C.t); auto u = coeffs(s, N); auto P = combine(m, u); PFun f{&C, P}; UserFun g{&f, &tag}; g.dim = D;
    // only bubbles of a union vanish on lower parts: functionals are dual, so the coefficients are found on every part
    int q = s.range(std::min(2*order(n), 9), 9); if (q < 2*order(n)) q = std::min(2*order(n), 12); c.note(fmt("%s %c%d quad %d", str(n).c_str(), "nefc"[d], id, q)); c.label(fmt("dimension %d", d)); c.label(kind_name(n));
    std::vector<double> v(N, KEEP); std::vector<Place> pl; places(n, C.t, pl); uint64_t fill = s.below(1 << 20); bool rw = s.flip(); int et = ETYPES[d][s.below(2)];
    mem_call(c, fill, rw, sp.interpolateOnRegion_mem_req(et, q), [&](PlainMemoryX<> mm){ sp.interpolateOnRegion(C.XYZ(), std::function<int(const std::array<double, 3>&, double*, uint, void*)>([&](const std::array<double, 3>& X, double* r, uint dd, void* ud){ return g(X, r, dd, ud); }), ArrayView<>(v.data(), N), et, id, mm, &tag, q); });
    c.ok(!g.bad, "the function was called with wrong user data or dimension"); int pm = part_mask(d, id), hit = 0;
    for (int i = 0; i < N; ++i){ bool in = (pl[i].mask & pm) == pl[i].mask; hit += in;
        if (!in) c.ok(v[i] == KEEP, [&]{ return fmt("degree of freedom %d is not on the part but was written", i); });
        else c.near(v[i], u[i], 2e-7, [&]{ return fmt("degree of freedom %d on the part", i); }); }
    c.nontrivial(hit > 0);
}

// ------------------------------------------------------------------ D02, compile time
PBT_PROP(D02_region_static, 1500, 30000, "parts that carry degrees of freedom of the space"){
    auto& A = st::all(); auto& S = A[s.below(A.size())]; const Node& n = S.node; if (geom_union(n)) return; int d = conforming(n) ? s.pick({2, 3, 3, 3}) : s.chance(1, 5) ? 0 : 3; bool det = d == 3 || conforming(n);
    Cell C = tet(s, c, 0.02); static const int cnt[4] = {4, 6, 4, 1}; int id = (int)s.below(cnt[d]), N = nfa(n), D = dim(n), tag; auto m = model(n, C.t); auto u = coeffs(s, N); auto P = combine(m, u); PFun f{&C, P}; UserFun g{&f, &tag}; g.dim = D;
    int q = s.range(std::min(2*order(n), 9), 9); if (q < 2*order(n)) q = std::min(2*order(n), 12); c.note(fmt("%s %c%d quad %d", S.name, "nefc"[d], id, q)); c.label(fmt("dimension %d", d)); c.label(S.name);
    std::vector<double> v(N, KEEP); std::vector<Place> pl; places(n, C.t, pl); int et = ETYPES[d][s.below(2)]; st::Fn F([&](const std::array<double, 3>& X, double* r, unsigned dd, void* ud){ return g(X, r, dd, ud); });
    auto req = S.region_req(et, q); bool stack = req.enoughRawSize() < 250000 && s.flip(); c.label(stack ? "own memory" : "given memory");
    if (stack) S.region(C, F, v.data(), N, et, id, nullptr, &tag, q);
    else { el::Call k; k.mem = s.flip() ? el::RAW : el::EXACT; k.fill = s.below(1 << 20); el::with_mem(k, req, [&](Ani::PlainMemory<> mm){ S.region(C, F, v.data(), N, et, id, &mm, &tag, q); }); c.ok(k.mem_error.empty(), k.mem_error); }
    c.ok(!g.bad, "the function was called with wrong user data or dimension"); int pm = part_mask(d, id), hit = 0;
    for (int i = 0; i < N; ++i){ bool in = (pl[i].mask & pm) == pl[i].mask; hit += in;
        if (!in) c.ok(v[i] == KEEP, [&]{ return fmt("%s: degree of freedom %d is not on the part but was written", S.name, i); });
        else if (det) c.near(v[i], u[i], 2e-7, [&]{ return fmt("%s: degree of freedom %d on the part", S.name, i); }); }
    c.nontrivial(hit > 0);
}

// ------------------------------------------------------------------ M01: the map of a space and where its functionals live
static void check_places(Ctx& c, const std::string& nm, const Ani::DofT::DofMap& dm, const Node& n, const ref::Tet& t){
    std::vector<Place> pl; places(n, t, pl); std::map<std::pair<int,int>, unsigned> seen; c.ok(dm.NumDofOnTet() == pl.size(), [&]{ return fmt("%s: the map has %u degrees of freedom, expected %zu", nm.c_str(), dm.NumDofOnTet(), pl.size()); });
    std::map<std::pair<int,int>, unsigned> own; int part = 0; (void)own; (void)part;
    for (unsigned i = 0; i < pl.size(); ++i){ auto lo = dm.LocalOrderOnTet(Ani::DofT::TetOrder(i)); int d = Ani::DofT::GeomTypeDim(lo.etype), et = pl[i].etype(); unsigned l = seen[{et, pl[i].mask}]++;
        c.ok(lo.gid == i && lo.etype == et && d == pl[i].dim() && part_mask(d, lo.nelem) == pl[i].mask && lo.leid == l, [&]{ return fmt("%s: degree of freedom %u is placed on type %d part %d index %u, its functional lives on the vertices %d, expected type %d index %u", nm.c_str(), i, (int)lo.etype, (int)lo.nelem, lo.leid, pl[i].mask, et, l); });
        c.ok(dm.TetDofID(lo.getGeomOrder()) == i && dm.TypeOnTet(i) == (unsigned)et, [&]{ return fmt("%s: number of the place of degree of freedom %u", nm.c_str(), i); });
        int st = pl[i].el == ref::P3 && d == 1 ? 1 : 0; c.ok(lo.stype == st && (st == 0 ? lo.lsid == 0 : lo.lsid < 2), [&]{ return fmt("%s: degree of freedom %u is in symmetry group %d, index %d", nm.c_str(), i, (int)lo.stype, (int)lo.lsid); });
    }
}
PBT_PROP(M01_spaces, 1500, 30000, "composed spaces"){
    Cell C; { static const double p[12] = {0,0,0, 1,0,0, 0,1,0, 0,0,1}; std::copy(p, p + 12, C.p); C.set(); }
    if (s.chance(1, 3)){ auto& A = st::all(); auto& S = A[s.below(A.size())]; c.note(S.name); c.label("compile time"); check_places(c, S.name, S.map(), S.node, C.t); c.nontrivial(S.node.kind != ELEM); }
    else { Limits L; L.max_nfa = 90; L.max_dim = 30; L.geom_unions = true; L.depth = 3; Node n = space(s, L); c.note(str(n)); c.label(kind_name(n)); auto sp = lib(n, s.flip()); check_places(c, str(n), sp.dofMap(), n, C.t); c.nontrivial(n.kind != ELEM); }
}
