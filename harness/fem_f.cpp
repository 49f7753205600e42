// F01-F04: finite element spaces against the reference model.
#include "statics.h"
#include "numexpr.h"
using namespace gen;
using Ani::ArrayView; using Ani::DynMem; using Ani::OperatorType; using Ani::DofT::TetGeomSparsity;

// ------------------------------------------------------------------ F01
PBT_PROP(F01_values, 4000, 80000, "every case evaluates all basis functions of a generated space on a generated tetrahedron"){
    Limits L; L.geom_unions = true; Node n = space(s, L); Cell C = tet(s, c); c.note(str(n)); c.label(kind_name(n)); c.nontrivial();
    auto l = points(s, s.range(1, 6)); auto sp = lib(n, s.flip());
    c.ok((int)sp.dim() == dim(n), [&]{ return fmt("dim() = %u, expected %d", sp.dim(), dim(n)); });
    c.ok((int)sp.dofMap().NumDofOnTet() == nfa(n), [&]{ return fmt("number of functions %u, expected %d", sp.dofMap().NumDofOnTet(), nfa(n)); });
    c.ok((int)sp.order() == order(n), [&]{ return fmt("order() = %u, expected %d", sp.order(), order(n)); });
    compare_op(c, run_op(sp.getOP(Ani::IDEN), C, l), model(n, C.t), C, ref::IDEN, l, "IDEN");
}
static void static_op(Src& s, Ctx& c, bool iden){
    auto& A = st::all(); auto& S = A[s.below(A.size())]; std::vector<int> ops; for (auto& o: S.ops) if ((o.first == ref::IDEN) == iden) ops.push_back(o.first);
    int op = s.of(ops); auto& O = S.ops[op]; Cell C = tet(s, c); c.note(S.name); c.note(ref::op_name(op)); c.label(S.name); c.nontrivial();
    auto l = points(s, s.range(1, 6)); auto m = model(S.node, C.t);
    Vals v; v.d = O.dim; v.n = O.nfa; v.q = l.size()/4; std::vector<double> d(v.n), out; std::array<const double*, 4> X{C.p, C.p+3, C.p+6, C.p+9};
    for (int i = 0; i < v.n; ++i){ std::fill(d.begin(), d.end(), 0); d[i] = 1; O.apply(X, 1, l, d, out); v.v.insert(v.v.end(), out.begin(), out.end()); }
    compare_op(c, v, m, C, op, l, std::string(S.name) + " " + ref::op_name(op));
    if (iden) c.ok(O.order == order(S.node), [&]{ return fmt("%s: Order %d, expected %d", S.name, O.order, order(S.node)); });
}
PBT_PROP(F01_static, 1500, 30000, "every case evaluates all basis functions of a compile-time space"){ static_op(s, c, true); }
PBT_PROP(F01_dual, 1200, 25000, "spaces with at least two functions"){
    Limits L; L.max_nfa = 30; Node n = space(s, L); Cell C = tet(s, c, 0.02); c.note(str(n)); c.label(kind_name(n)); c.nontrivial(nfa(n) > 1);
    auto sp = lib(n, s.flip()); int N = nfa(n); auto m = model(n, C.t); DynMem<> wm; int quad = s.range(5, 9);
    int j = (int)s.below(N); PFun f{&C, m.phi[j]}; std::vector<double> u(N, -3.5);
    double sc = pscale(m.phi[j]) + 1;
    for (int i = 0; i < N; ++i) sp.interpolateOnDOF(C.XYZ(), f, ArrayView<>(u.data(), N), i, wm, nullptr, quad);
    for (int i = 0; i < N; ++i) c.near(u[i], i == j, 2e-9*sc, [&]{ return fmt("functional %d on basis function %d", i, j); });
}
// known limitation: sums whose combined functionals depend on the shape of the cell
PBT_PROP(KF_F04_sum_of_face_element_and_bubble, 1, 1, "one fixed case"){
    Node n = Sum({E(ref::RT0), Vec(E(ref::B4), 3)}); double p[12] = {0,0,0, 1,0,0, 0.5,2,0, 0.3,0.2,0.7}; Cell C; for (int i = 0; i < 12; ++i) C.p[i] = p[i]; C.set();
    auto sp = lib(n, true); int N = nfa(n); auto m = model(n, C.t); DynMem<> wm; std::vector<double> u(N, 0.0); PFun f{&C, m.phi[0]};
    for (int i = 0; i < N; ++i) sp.interpolateOnDOF(C.XYZ(), f, ArrayView<>(u.data(), N), i, wm, nullptr, 9);
    for (int i = 0; i < N; ++i) c.near(u[i], i == 0, 1e-6, [&]{ return fmt("functional %d of RT0 + B4^3 on its basis function 0", i); });
}
// functionals of elementary spaces on arbitrary polynomials: point values and moments where they are documented to be
PBT_PROP(F01_functionals, 2500, 50000, "polynomials of degree at least one"){
    int e = (int)s.below(ref::NEL); Cell C = tet(s, c, 0.02); int deg = s.range(0, 4); auto u = poly_vec(s, ref::el_dim(e), deg); c.note(ref::EL_NAME[e]); c.label(ref::EL_NAME[e]); c.nontrivial(deg > 0);
    auto m = model(E(e), C.t); auto sp = lib_el(e); DynMem<> wm; PFun f{&C, u}; int N = m.nfa(); std::vector<double> d(N, -3.5); bool stat = s.flip(); int q = s.range(std::max(deg, 1), 8);
    for (int i = 0; i < N; ++i){ if (!stat) sp.interpolateOnDOF(C.XYZ(), f, ArrayView<>(d.data(), N), i, wm, nullptr, q); else st::all()[e].interp(C, st::Fn(f), d.data(), N, i, nullptr, q); }
    // the library's functional of a bubble space is dual on the space only: there the point value is the documented functional
    for (int i = 0; i < N; ++i) c.near(d[i], (double)ref::apply_fun(m.fun[i], u), 2e-9*(1 + pscale(u)), [&]{ return fmt("%s functional %d", ref::EL_NAME[e], i); });
}
template<class FEM> static void dof_at(int i, const double* p, double* x){ Ani::DOF_coord<FEM>::at(i, p, x); }
PBT_PROP(F01_points, 1200, 12000, "every case locates one degree of freedom"){
    using namespace Ani; using U = FemUnionT<FemFix<FEM_P1>, FemFix<FEM_B2>>;
    struct R { const char* n; Node node; void (*at)(int, const double*, double*); };
    static const std::vector<R> T = {
        {"P0", E(ref::P0), dof_at<FemFix<FEM_P0>>}, {"P1", E(ref::P1), dof_at<FemFix<FEM_P1>>}, {"P2", E(ref::P2), dof_at<FemFix<FEM_P2>>}, {"P3", E(ref::P3), dof_at<FemFix<FEM_P3>>}, {"CR1", E(ref::CR1), dof_at<FemFix<FEM_CR1>>}, {"B2", E(ref::B2), dof_at<FemFix<FEM_B2>>},
        {"FemVec<3,P2>", Vec(E(ref::P2), 3), dof_at<FemVec<3, FEM_P2>>}, {"FemVecT<2,P3>", Vec(E(ref::P3), 2), dof_at<FemVecT<2, FemFix<FEM_P3>>>},
        {"FemCom<FemVec<3,P2>,P1,P0>", Prod({Vec(E(ref::P2), 3), E(ref::P1), E(ref::P0)}), dof_at<FemCom<FemVec<3, FEM_P2>, FemFix<FEM_P1>, FemFix<FEM_P0>>>},
        {"FemCom<CR1,FemVecT<2,P3>>", Prod({E(ref::CR1), Vec(E(ref::P3), 2)}), dof_at<FemCom<FemFix<FEM_CR1>, FemVecT<2, FemFix<FEM_P3>>>>},
        {"FemUnionT<P1,B2>", Sum({E(ref::P1), E(ref::B2)}), dof_at<U>},
    };
    auto& r = T[s.below(T.size())]; Cell C = tet(s, c); int N = nfa(r.node), i = (int)s.below(N); c.note(fmt("%s dof %d", r.n, i)); c.label(r.n); c.nontrivial();
    double x[3] = {-1e100, -1e100, -1e100}; r.at(i, C.p, x);
    // centroid of the points the i-th functional of the i-th part reads
    const Node* nd = &r.node; int k = i;
    while (nd->kind != ELEM){ if (nd->kind == VEC){ k %= nfa(nd->ch[0]); nd = &nd->ch[0]; } else { size_t p = 0; while (k >= nfa(nd->ch[p])) k -= nfa(nd->ch[p++]); nd = &nd->ch[p]; } }
    auto m = ref::element(nd->el, C.t); ref::V3 g; ld w = 0; for (auto& p: m.fun[k]){ g = g + p.w[0]*C.t.at(p.l); w += p.w[0]; }
    double mx = 0; for (double v: C.p) mx = std::max(mx, std::fabs(v));
    for (int d = 0; d < 3; ++d) c.near(x[d], (double)(g[d]/w), 1e-12*mx, [&]{ return fmt("%s degree of freedom %d coordinate %d", r.n, i, d); });
}

// ------------------------------------------------------------------ F02
PBT_PROP(F02_runtime, 6000, 120000, "every case compares a differential operator of a generated space"){
    Limits L; L.geom_unions = true; L.want_dim = s.pick({2, 3}) ? 3 : 0; Node n = space(s, L); Cell C = tet(s, c); c.note(str(n)); c.label(kind_name(n)); c.nontrivial();
    std::vector<int> ops; for (int o: OPS) if (o != ref::IDEN && op_ok(n, o)) ops.push_back(o);
    int op = s.of(ops); auto l = points(s, s.range(1, 5)); c.note(ref::op_name(op)); c.label(ref::op_name(op));
    auto sp = lib(n, s.flip()); auto m = model(n, C.t); auto o = (OperatorType)op;
    c.ok((int)sp.dimOP(o) == ref::op_dim(op, dim(n)), [&]{ return fmt("dimOP = %u", sp.dimOP(o)); });
    bool own = s.flip(); c.label(own ? "owning operator" : "operator view");
    if (own) compare_op(c, run_op(sp.getOP_own(o), C, l), m, C, op, l, ref::op_name(op)); else compare_op(c, run_op(sp.getOP(o), C, l), m, C, op, l, ref::op_name(op));
}
PBT_PROP(F02_static, 3000, 60000, "every case compares a differential operator of a compile-time space"){ static_op(s, c, false); }
// derivatives against the value operator itself: exact differences of polynomials along a line
static ld line_diff(const std::vector<ld>& f){ int m = (int)f.size() - 1; ld b = 1, t = 0; for (int k = 0; k <= m; ++k){ t += ((m - k) % 2 ? -b : b)*f[k]; b = b*(m - k)/(k + 1); } return t; }
PBT_PROP(F02_order, 2000, 30000, "operators of reported order below four"){
    Limits L; L.geom_unions = true; Node n = space(s, L); Cell C = tet(s, c, 0.05); int op = any_op(s, n); auto sp = lib(n, s.flip()); auto A = sp.getOP((OperatorType)op); int ord = sp.orderOP((OperatorType)op);
    c.note(str(n)); c.note(ref::op_name(op)); c.nontrivial(ord < 4); c.label(fmt("order %d", ord));
    c.ok((int)A.Order() == ord, [&]{ return fmt("operator order %u, orderOP %d", A.Order(), ord); });
    if (ord > 8) c.fail(fmt("reported order %d", ord));
    int m = ord + 1; Bary a = point(s, 3), b = point(s, 4); std::vector<double> l;
    for (int k = 0; k <= m; ++k) for (int d = 0; d < 4; ++d) l.push_back(a.l[d] + (b.l[d] - a.l[d])*k/m);
    auto v = run_op(A, C, l); double mx = 0; for (double x: v.v) mx = std::max(mx, std::fabs(x));
    for (int i = 0; i < v.n; ++i) for (int d = 0; d < v.d; ++d){ std::vector<ld> f; for (int k = 0; k <= m; ++k) f.push_back(v.at(d, k, i)); c.near((double)line_diff(f), 0, 1e-9*mx*(1 << m), [&]{ return fmt("the operator's values exceed its reported order %d (function %d component %d)", ord, i, d); }); }
}
PBT_PROP(F02_order_static, 1500, 20000, "compile-time operators"){
    auto& A = st::all(); auto& S = A[s.below(A.size())]; std::vector<int> ops; for (auto& o: S.ops) ops.push_back(o.first); int op = s.of(ops); auto& O = S.ops[op];
    Cell C = tet(s, c, 0.05); c.note(S.name); c.note(ref::op_name(op)); c.nontrivial(); int ord = O.order; if (ord > 8) c.fail(fmt("reported order %d", ord));
    int m = ord + 1; Bary a = point(s, 3), b = point(s, 4); std::vector<double> l, d(O.nfa), out;
    for (int k = 0; k <= m; ++k) for (int q = 0; q < 4; ++q) l.push_back(a.l[q] + (b.l[q] - a.l[q])*k/m);
    for (double& x: d) x = s.unit();
    O.apply({C.p, C.p+3, C.p+6, C.p+9}, 1, l, d, out); double mx = 0; for (double x: out) mx = std::max(mx, std::fabs(x));
    double md = 0; { auto mm = model(S.node, C.t); for (int k = 0; k <= m; ++k){ ld ll[4]; lld(&l[4*k], ll); for (ld x: ref::eval(mm, C.t, op, ll)) md = std::max(md, (double)fabsl(x)); } }
    for (int q = 0; q < O.dim; ++q){ std::vector<ld> f; for (int k = 0; k <= m; ++k) f.push_back(out[q + (size_t)O.dim*k]); c.near((double)line_diff(f), 0, 1e-9*(mx + md)*(1 << m), [&]{ return fmt("%s %s exceeds its order %d", S.name, ref::op_name(op), ord); }); }
}

// ------------------------------------------------------------------ F03
PBT_PROP(F03_operators, 2500, 50000, "batches of at least two cells"){
    auto& A = st::all(); auto& S = A[s.below(A.size())]; std::vector<int> ops; for (auto& o: S.ops) ops.push_back(o.first); int op = s.of(ops); auto& O = S.ops[op];
    int f = s.range(1, 5), q = s.range(1, 6); std::vector<Cell> cs; std::vector<double> X[4]; for (int r = 0; r < f; ++r){ cs.push_back(tet(s, c)); for (int i = 0; i < 4; ++i) X[i].insert(X[i].end(), cs[r].p + 3*i, cs[r].p + 3*i + 3); }
    auto l = points(s, q); c.note(fmt("%s %s f=%d q=%d", S.name, ref::op_name(op), f, q)); c.label(S.name); c.nontrivial(f > 1);
    std::vector<double> d((size_t)O.nfa*f), out, out2; for (double& x: d) x = s.unit();
    O.apply({X[0].data(), X[1].data(), X[2].data(), X[3].data()}, f, l, d, out);
    auto sp = lib(S.node, s.flip()); auto R = sp.getOP((OperatorType)op); auto T = O.runtime(); bool tmpl = s.flip(); const Ani::ApplyOpBase& B = tmpl ? (const Ani::ApplyOpBase&)*T : (const Ani::ApplyOpBase&)R; c.label(tmpl ? "wrapped template" : "run-time space");
    c.ok((int)B.Dim() == O.dim && (int)B.Nfa() == O.nfa && (int)B.Order() == O.order, [&]{ return fmt("%s %s: run time dim %u nfa %u order %u, compile time %d %d %d", S.name, ref::op_name(op), B.Dim(), B.Nfa(), B.Order(), O.dim, O.nfa, O.order); });
    out2.assign(out.size(), 1e300); DynMem<> wm; Ani::DenseMatrix<> D(d.data(), O.nfa, f), U(out2.data(), (size_t)O.dim*q, f);
    Ani::fem3DapplyL(Ani::make_tetras(X[0].data(), X[1].data(), X[2].data(), X[3].data(), f), ArrayView<>(l.data(), l.size()), D, B, U, wm);
    for (int r = 0; r < f; ++r){
        double mx = 1e-3; for (size_t k = 0; k < (size_t)O.dim*q; ++k) mx = std::max(mx, std::fabs(out[(size_t)O.dim*q*r + k]));
        { auto m = model(S.node, cs[r].t); for (int k = 0; k < q; ++k){ ld ll[4]; lld(&l[4*k], ll); for (ld x: ref::eval(m, cs[r].t, op, ll)) mx = std::max(mx, (double)fabsl(x)); } }
        for (size_t k = 0; k < (size_t)O.dim*q; ++k) c.near(out2[(size_t)O.dim*q*r + k], out[(size_t)O.dim*q*r + k], 2e-9*mx, [&]{ return fmt("%s %s cell %d value %zu: run-time result vs compile-time one", S.name, ref::op_name(op), r, k); });
    }
}
PBT_PROP(F03_dofmap, 400, 4000, "every case compares a whole layout"){
    auto& A = st::all(); auto& S = A[s.below(A.size())]; c.note(S.name); c.nontrivial(); auto sp = lib(S.node, s.flip()); auto a = S.map(); auto& b = sp.dofMap();
    c.ok(a.NumDofOnTet() == b.NumDofOnTet(), "number of degrees of freedom differs");
    for (uint t = 1; t <= 32; t <<= 1) c.ok(a.NumDof(t) == b.NumDof(t) && a.NumDofOnTet(t) == b.NumDofOnTet(t), [&]{ return fmt("%s: counts of type %u differ: %u/%u and %u/%u", S.name, t, a.NumDof(t), a.NumDofOnTet(t), b.NumDof(t), b.NumDofOnTet(t)); });
    for (uint i = 0; i < a.NumDofOnTet(); ++i){ auto x = a.LocalOrderOnTet(Ani::DofT::TetOrder(i)), y = b.LocalOrderOnTet(Ani::DofT::TetOrder(i)); c.ok(x.etype == y.etype && x.nelem == y.nelem && x.leid == y.leid && x.stype == y.stype && x.lsid == y.lsid, [&]{ return fmt("%s: place of dof %u differs: (%d,%d,%d) and (%d,%d,%d)", S.name, i, x.etype, x.nelem, x.leid, y.etype, y.nelem, y.leid); }); }
}
PBT_PROP(F03_interpolation, 1500, 25000, "every case interpolates a polynomial by both interfaces"){
    auto& A = st::all(); auto& S = A[s.below(A.size())]; Cell C = tet(s, c, 0.02); int N = nfa(S.node), D = dim(S.node); c.note(S.name); c.label(S.name); c.nontrivial(); auto sp = lib(S.node, s.flip());
    auto u0 = poly_vec(s, D, s.range(0, 4)), u1 = poly_vec(s, D, s.range(0, 4)); PFun f0{&C, u0}, f1{&C, u1}; double sc = 1 + pscale(u0) + pscale(u1);
    std::vector<double> a(N, -3.5), b(N, -3.5), a1(N, -3.5), b1(N, -3.5); DynMem<> wm; int q = s.range(1, 8); int mode = (int)s.below(4); c.label(fmt("mode %d", mode));
    if (mode == 0){ int i = (int)s.below(N); S.interp(C, st::Fn(f0), a.data(), N, i, nullptr, q); sp.interpolateOnDOF(C.XYZ(), f0, ArrayView<>(b.data(), N), i, wm, nullptr, q); }
    if (mode == 1){ int i = (int)s.below(N); auto f = [&](const std::array<double, 3>& X, double* r, uint d, void* ud){ f0(X, r, d/2, ud); f1(X, r + d/2, d/2, ud); return 0; };
        S.interp2(C, st::Fn(f), a.data(), a1.data(), N, i, nullptr, q); ArrayView<> v[2] = {ArrayView<>(b.data(), N), ArrayView<>(b1.data(), N)}; sp.interpolateOnDOF(C.XYZ(), f, v, i, 2, wm, nullptr, q); }
    if (mode >= 2){ TetGeomSparsity t; for (int i = 0; i < 4; ++i){ if (s.flip()) t.setNode(i); if (s.flip()) t.setFace(i, s.flip()); } for (int i = 0; i < 6; ++i) if (s.flip()) t.setEdge(i); if (s.flip()) t.setCell();
        if (mode == 2){ S.by_dofs(C, st::Fn(f0), a.data(), N, t, nullptr, q); sp.interpolateByDOFs(C.XYZ(), f0, ArrayView<>(b.data(), N), t, wm, nullptr, q); }
        else { double v = s.unit()*5; S.constant(v, a.data(), N, t); sp.interpolateConstant(v, ArrayView<>(b.data(), N), t); } }
    for (int i = 0; i < N; ++i){ c.near(b[i], a[i], 2e-9*sc, [&]{ return fmt("%s dof %d: run-time interpolation vs compile-time", S.name, i); }); c.near(b1[i], a1[i], 2e-9*sc, [&]{ return fmt("%s dof %d: second function", S.name, i); }); }
}
// closed-form expressions of the elementary spaces; powers, products and sums list the expressions of their parts
static void expr_list(const Node& n, std::vector<int>& el, std::vector<int>& id){ if (n.kind == ELEM){ for (int i = 0; i < ref::el_nfa(n.el); ++i){ el.push_back(n.el); id.push_back(i); } return; } int rep = n.kind == VEC ? n.k : 1; for (int r = 0; r < rep; ++r) for (auto& k: n.ch) expr_list(k, el, id); }
PBT_PROP(F03_expressions, 1200, 20000, "every case evaluates all basis expressions of a space"){
    Limits L; L.depth = s.pick({2, 1, 1}); Node n = space(s, L); Cell C = tet(s, c); c.note(str(n)); c.label(kind_name(n)); c.nontrivial(); Bary b = point(s);
    auto sp = lib(n, s.flip()); std::vector<int> el, id; expr_list(n, el, id);
    vp::NumExpr lm(4, 1), gl(4, 3); for (int i = 0; i < 4; ++i){ lm.at(i, 0) = b.l[i]; for (int k = 0; k < 3; ++k) gl.at(i, k) = (double)C.t.gl[i][k]; }
    Ani::Expr le{lm}, ge{gl}; std::vector<Ani::Expr> phi; 
    phi.resize(el.size()); for (auto& x: phi) x = le.zeroes();
    sp.evalBasisFunctions(le, ge, phi.data());
    ld l[4]; lld(b.l, l); std::map<int, std::vector<ld>> val;
    for (size_t i = 0; i < el.size(); ++i){
        if (!val.count(el[i])) val[el[i]] = ref::eval(ref::element(el[i], C.t), C.t, ref::IDEN, l);
        int d = ref::el_dim(el[i]); auto* e = dynamic_cast<const vp::NumExpr*>(phi[i].base().get()); c.ok(e && (int)(e->size1()*e->size2()) == d, [&]{ return fmt("expression %zu has size %zux%zu, expected %d values", i, e ? e->size1() : 0, e ? e->size2() : 0, d); });
        double mx = 1e-3; for (ld x: val[el[i]]) mx = std::max(mx, (double)fabsl(x));
        for (int k = 0; k < d; ++k) c.near(e->v[k], (double)val[el[i]][k + d*id[i]], 1e-9*mx, [&]{ return fmt("%s basis expression %d component %d", ref::EL_NAME[el[i]], id[i], k); });
    }
}

// ------------------------------------------------------------------ F04
PBT_PROP(F04_parts, 3000, 60000, "composed spaces"){
    Limits L; L.geom_unions = true; Node n; do { n = space(s, L); } while (n.kind == ELEM && s.chance(9, 10)); Cell C = tet(s, c); c.note(str(n)); c.label(kind_name(n)); c.nontrivial(n.kind != ELEM);
    bool raw = s.flip(); auto sp = lib(n, raw); int op = any_op(s, n); auto l = points(s, s.range(1, 3)); c.note(ref::op_name(op)); auto o = (OperatorType)op;
    if (n.kind == ELEM) return;
    // block structure built from the operators of the parts (identity and partial derivatives act part by part)
    bool part_ok = op != ref::DIV && op != ref::CURL; auto v = run_op(sp.getOP(o), C, l); double mx = 1e-300; for (double x: v.v) mx = std::max(mx, std::fabs(x));
    int rep = n.kind == VEC ? n.k : 1, rsh = 0, csh = 0; std::array<int, 6> cnt{}; uint ord = 0;
    std::vector<char> seen(v.v.size(), 0);
    for (int r = 0; r < rep; ++r) for (auto& ch: n.ch){
        auto ps = lib(ch, raw); int pd = dim(ch), pn = nfa(ch), mul = op == ref::GRAD ? 3 : 1; ord = std::max(ord, ps.orderOP((part_ok || op_ok(ch, op)) ? o : Ani::GRAD));
        for (int t = 0; t < 6; ++t) cnt[t] += ps.dofMap().NumDof(1u << t);
        if (part_ok || n.kind == UNION){ auto pv = run_op(ps.getOP(o), C, l);
            for (int i = 0; i < pn; ++i) for (int q = 0; q < v.q; ++q) for (int d = 0; d < v.d; ++d){
                int lo = n.kind == UNION ? 0 : rsh*mul, hi = n.kind == UNION ? v.d : (rsh + pd)*mul; double e = d >= lo && d < hi ? pv.at(d - lo, q, i) : 0;
                c.near(v.at(d, q, csh + i), e, 1e-12*mx, [&]{ return fmt("function %d, component %d of the composed space vs its part", csh + i, d); }); } }
        csh += pn; rsh += pd;
    }
    c.ok(csh == v.n, "number of functions"); 
    for (int t = 0; t < 6; ++t) c.ok((int)sp.dofMap().NumDof(1u << t) == cnt[t], [&]{ return fmt("count of degrees of freedom of type %d", t); });
    if (part_ok) c.ok(sp.orderOP(o) == ord, [&]{ return fmt("order of the operator %u, greatest of parts %u", sp.orderOP(o), ord); });
}
// both constructors, operators on spaces and copies give the same functions and degrees of freedom
PBT_PROP(F04_same, 1500, 25000, "composed spaces"){
    Limits L; L.max_nfa = 30; Node n = space(s, L); Cell C = tet(s, c, 0.02); c.note(str(n)); c.label(kind_name(n)); c.nontrivial(n.kind != ELEM); auto a = lib(n, true); Ani::FemSpace b = lib(n, false);
    if (n.kind == PROD && s.flip()){ b = lib(n.ch[0]); for (size_t i = 1; i < n.ch.size(); ++i) b = b * lib(n.ch[i]); }
    else if (n.kind == UNION && s.flip()){ b = lib(n.ch[0]); for (size_t i = 1; i < n.ch.size(); ++i) b = b + lib(n.ch[i]); }
    if (s.flip()){ Ani::FemSpace t(b); b = t; }
    if (s.chance(1, 4)) b = b.base()->copy() ? Ani::FemSpace(b.base()->copy()) : b;
    int op = any_op(s, n); auto l = points(s, 2); auto va = run_op(a.getOP((OperatorType)op), C, l), vb = run_op(b.getOP((OperatorType)op), C, l); double mx = 1e-300; for (double x: va.v) mx = std::max(mx, std::fabs(x));
    c.ok(va.d == vb.d && va.n == vb.n && a.dim() == b.dim() && a.order() == b.order(), "sizes of literal and simplified space differ");
    for (size_t i = 0; i < va.v.size(); ++i) c.near(vb.v[i], va.v[i], 1e-12*mx, [&]{ return fmt("value %zu of literal and simplified space", i); });
    auto u = poly_vec(s, dim(n), s.range(0, 3)); PFun f{&C, u}; DynMem<> wm; std::vector<double> x(va.n, -3.5), y(va.n, -3.5);
    for (int i = 0; i < va.n; ++i){ a.interpolateOnDOF(C.XYZ(), f, ArrayView<>(x.data(), va.n), i, wm); b.interpolateOnDOF(C.XYZ(), f, ArrayView<>(y.data(), va.n), i, wm); }
    for (int i = 0; i < va.n; ++i) c.near(y[i], x[i], 2e-9*(1 + pscale(u)), [&]{ return fmt("degree of freedom %d of literal and simplified space", i); });
}
static Node flat(const Node& n){ Node r = n; r.ch.clear(); for (auto& c: n.ch){ Node f = flat(c); if (n.kind != VEC && f.kind == n.kind) r.ch.insert(r.ch.end(), f.ch.begin(), f.ch.end()); else r.ch.push_back(f); } return r; }
static bool same(const Node& a, const Node& b){ if (a.kind != b.kind) return false; if (a.kind == ELEM) return a.el == b.el; if (a.kind == VEC && a.k != b.k) return false; if (a.ch.size() != b.ch.size()) return false; for (size_t i = 0; i < a.ch.size(); ++i) if (!same(a.ch[i], b.ch[i])) return false; return true; }
static Node mutate(Src& s, Node n){
    if (n.kind == ELEM){ n.el = (int)s.below(ref::NEL); return n; }
    if (n.kind == VEC){ if (s.flip()){ n.k = s.range(1, 4); return n; } n.ch[0] = mutate(s, n.ch[0]); return n; }
    if (n.kind == UNION) return n;
    int w = s.pick({4, 1, 1}); if (w == 0){ size_t i = s.below(n.ch.size()); n.ch[i] = mutate(s, n.ch[i]); } else if (w == 1) n.ch.push_back(E((int)s.below(3))); else std::swap(n.ch.front(), n.ch.back());
    return n;
}
PBT_PROP(F04_equality, 3000, 40000, "pairs of descriptions that differ"){
    Node a = space(s), b = s.chance(1, 3) ? a : s.chance(3, 4) ? mutate(s, a) : space(s); bool raw = s.flip(); c.note(str(a) + " vs " + str(b)); auto x = lib(a, raw), y = lib(b, raw);
    Node fa = raw ? a : flat(a), fb = raw ? b : flat(b); bool eq = same(fa, fb); c.label(eq ? "equal" : "different"); c.nontrivial(!eq);
    c.ok((x == y) == eq && (y == x) == eq, [&]{ return fmt("comparison gives %d/%d for %s and %s", x == y, y == x, str(fa).c_str(), str(fb).c_str()); });
    c.ok(x == x, "a space is not equal to itself");
}
PBT_PROP(F04_subspace, 1500, 20000, "paths of at least one step"){
    Limits L; L.depth = 3; Node n = space(s, L); bool raw = s.chance(3, 4); auto sp = lib(n, raw); Node f = raw ? n : flat(n); c.note(str(f)); std::vector<int> path; const Node* cur = &f; bool valid = true;
    int len = s.range(0, 3); for (int k = 0; k < len && valid; ++k){ int cnt = cur->kind == ELEM ? 0 : cur->kind == VEC ? cur->k : (int)cur->ch.size(); int i = (int)s.below(cnt + 2) - (s.chance(1, 8) ? 1 : 0); path.push_back(i); if (i < 0 || i >= cnt) valid = false; else cur = cur->kind == VEC ? &cur->ch[0] : &cur->ch[i]; }
    c.note("path " + pbt::show(path)); c.nontrivial(!path.empty()); c.label(valid ? "valid path" : "invalid path");
    Ani::FemSpace sub = path.size() == 1 && s.flip() ? sp.subSpace(path[0]) : sp.subSpace(path.data(), (int)path.size());
    c.ok(sub.isValid() == valid, [&]{ return std::string("sub-space ") + (valid ? "missing" : "returned for a path outside the space"); });
    if (!valid) return;
    auto e = lib(*cur, raw); c.ok(sub == e, "sub-space is not the component of the description"); c.ok(sub.dim() == e.dim() && sub.dofMap().NumDofOnTet() == e.dofMap().NumDofOnTet(), "sizes of the sub-space");
}
// an enriched sum of spaces with common functions is refused
PBT_PROP(F04_dependent, 300, 3000, "sums of spaces with a common function"){
    static const std::vector<std::vector<int>> D = {{ref::P1, ref::P1}, {ref::P1, ref::P2}, {ref::P0, ref::P1}, {ref::P0, ref::P0}, {ref::P2, ref::P3}, {ref::B4, ref::B4}, {ref::P1, ref::CR1}, {ref::P0, ref::P2}, {ref::P1, ref::B4, ref::P0}, {ref::B2, ref::P2}, {ref::B2, ref::B4, ref::B2}, {ref::P0, ref::CR1}};
    auto d = s.of(D); if (s.flip()) s.shuffle(d); int k = s.pick({3, 1, 1}) ; std::vector<Ani::FemSpace> v; std::string nm; for (int e: d){ nm += std::string(ref::EL_NAME[e]) + " "; auto x = lib_el(e); v.push_back(k ? x ^ (k + 1) : x); } c.note(nm); c.nontrivial();
    bool thrown = false; try { Ani::FemSpace u = s.flip() ? Ani::make_union_raw(v) : Ani::make_union_with_simplification(v); } catch (const std::runtime_error&){ thrown = true; }
    c.ok(thrown, "a sum with linearly dependent functions was accepted");
}
