// U01, U02, U03: functions on whole meshes - integrals, projections, values at points, the diffusion problem, generated boxes.
#include "fields.h"
#include "anifem++/utils/mesh_utils.h"
#include "anifem++/fem/quadrature_formulas.h"
static const char* RULE = "at least two cells and a function that is not constant";
// ---- U01: integrals ---------------------------------------------------------------------------------------------
struct Piece { std::vector<Pol> a, b; std::map<HandleType, double> w; int deg; ld at(int k, HandleType c, const P3& x) const { return w.at(c)*a[k].at(x)*b[k].at(x); } };
static Piece piece(Src& s, const Grid& g, int n){ Piece p; auto f = frame(g); int d1 = s.range(0, 4), d2 = s.range(0, 4); p.deg = d1 + d2; p.a = fld(s, f, n, d1); p.b = fld(s, f, n, d2); bool one = s.flip(); for (auto& c: g.parts[3]) p.w[c.h] = one ? 1 : s.unit(); return p; }
static ld exact(const Grid& g, const Piece& p, int k, const std::set<HandleType>& skip = {}, ld* scale = nullptr){ static const int all[4] = {0, 1, 2, 3}; ld r = 0, sc = 0; for (auto& c: g.parts[3]) if (!skip.count(c.h)){ auto C = tetra(g, nodes(g, c)); for (auto& q: ref::quad(3, all, p.deg)){ auto X = C.t.at(q.l); P3 x{(double)X[0], (double)X[1], (double)X[2]}; ld v = q.w*C.t.vol()*p.at(k, c.h, x); r += v; sc += fabsl(v); } } if (scale) *scale = sc; return r; }
PBT_PROP(U01_integral_of_function_of_points, 1500, 20000, RULE){
    Grid g = s.flip() ? grid::make(s, c) : grid::box(s, c); auto p = piece(s, g, 3); unsigned order = (unsigned)std::max(1, p.deg + (int)s.range(0, 2)); if (p.deg == 0 && s.flip()) order = 1; c.note(fmt("degree %d order %u", p.deg, order)); c.nontrivial(g.parts[3].size() > 1 && p.deg > 0);
    auto r = integrate_vector_func<3>(g.m.get(), [&](INMOST::Cell e, P3 x){ return P3{(double)p.at(0, e.GetHandle(), x), (double)p.at(1, e.GetHandle(), x), (double)p.at(2, e.GetHandle(), x)}; }, order);
    for (int k = 0; k < 3; ++k){ ld sc; ld e = exact(g, p, k, {}, &sc); c.near(r[k], (double)e, 1e-10*(double)sc + 1e-15, [&]{ return fmt("component %d", k); }); }
    double t = integrate_scalar_func(g.m.get(), [&](INMOST::Cell e, P3 x){ return (double)p.at(1, e.GetHandle(), x); }, order); ld sc; ld e = exact(g, p, 1, {}, &sc); c.near(t, (double)e, 1e-10*(double)sc + 1e-15, "scalar function");
}
PBT_PROP(U01_integral_of_function_of_cells, 1500, 20000, RULE){
    Grid g = s.flip() ? grid::make(s, c) : grid::box(s, c); ids(g); int n = s.range(1, 4); auto p = piece(s, g, n); unsigned order = (unsigned)std::max(1, p.deg + (int)s.range(0, 2)); std::set<HandleType> skip; if (s.chance(1, 3)) for (auto& x: g.parts[3]) if (s.chance(1, 3)){ skip.insert(x.h); g.m->slot(x.h).hidden = true; } if (!skip.empty()) c.label("hidden cells"); c.nontrivial(g.parts[3].size() > 1 && p.deg > 0); c.note(fmt("degree %d order %u dim %d", p.deg, order, n));
    // coordinates as a variable: the points and their barycentric coordinates are to agree
    FemSpace P1 = FemSpace{P1Space{}} ^ 3; Tag xt = createFemVarTag(g.m.get(), *dmap(P1), "xyz"); for (auto& v: g.parts[0]){ auto a = g.el(v).RealArray(xt); for (int k = 0; k < 3; ++k) a[k] = g.x[v.id][k]; } auto op = P1.getOP(IDEN); auto f = frame(g); bool use = s.flip();
    unsigned q = (unsigned)tetrahedron_quadrature_formulas((int)order).GetNumPoints(); std::vector<double> out(n, 777); std::map<HandleType, int> calls;
    integrate_vector_func(out.data(), n, g.m.get(), [&](INMOST::Cell e, DenseMatrix<const double> L, DenseMatrix<const double> X, DenseMatrix<> o, DynMem<>& mem){ ++calls[e.GetHandle()];
        c.ok(L.nRow == 4 && L.nCol == q && X.nRow == 3 && X.nCol == q && o.nRow == (unsigned)n && o.nCol == q, "sizes of the arguments"); std::vector<double> v(3*q); if (use) eval_op_var_by_barycentric_points(DenseMatrix<>(v.data(), 3, q), mem, e, L, op, *dmap(P1), xt);
        for (unsigned i = 0; i < q; ++i){ P3 x{X(0, i), X(1, i), X(2, i)}; if (use) for (int k = 0; k < 3; ++k) c.near(v[3*i + k], x[k], 1e-10*(f.h + std::fabs(f.x0[k])), [&]{ return fmt("coordinate %d of point %u given by its barycentric coordinates and as it is", k, i); }); for (int k = 0; k < n; ++k) o(k, i) = (double)p.at(k, e.GetHandle(), x); }
    }, order, s.flip());
    for (auto& x: g.parts[3]) c.ok(calls[x.h] == (skip.count(x.h) ? 0 : 1), [&]{ return fmt("cell %d is visited %d times", x.id, calls[x.h]); });
    for (int k = 0; k < n; ++k){ ld sc; ld e = exact(g, p, k, skip, &sc); c.near(out[k], (double)e, 1e-10*(double)sc + 1e-15, [&]{ return fmt("component %d", k); }); }
}
// ---- U01: values of a variable ------------------------------------------------------------------------------------
static gen::Node sub(Src& s, const gen::Node& n, std::vector<int>& path, int depth){ if ((n.kind == gen::VEC || n.kind == gen::PROD) && depth && s.flip()){ int k = n.kind == gen::VEC ? n.k : (int)n.ch.size(), i = (int)s.below(k); path.push_back(i); return sub(s, n.kind == gen::VEC ? n.ch[0] : n.ch[i], path, depth - 1); } return n; }
template<class V> static void same(Ctx& c, const V& a, const std::vector<double>& e, double tol, const std::string& what){ for (size_t k = 0; k < e.size(); ++k) c.near(a[k], e[k], tol, [&]{ return what + fmt(": component %d", (int)k); }); }
// without components: both forms with their defaults may be in the way of each other
template<class A> static auto without(int, INMOST::Cell e, P3 x, const ApplyOpBase& op, A& as, Tag t, Ctx&) -> decltype(eval_op_var_at_point<9>(e, x, op, as, t)) { return eval_op_var_at_point<9>(e, x, op, as, t); }
template<class A> static std::array<double, 9> without(long, INMOST::Cell, P3, const ApplyOpBase&, A&, Tag, Ctx& c){ c.fail("the value can not be requested without components"); return {}; }
PBT_PROP(U01_values_of_variable_at_point, 1200, 16000, "a variable with at least four degrees of freedom on the cell and several cells"){
    Grid g = grid::make(s, c); ids(g); int nv = s.pick({2, 2, 1}) + 1; std::vector<gen::Node> vs; std::vector<FemSpace> fs; for (int i = 0; i < nv; ++i){ vs.push_back(mesh_space(s)); fs.push_back(gen::lib(vs[i], true)); c.note(gen::str(vs[i])); }
    Assembler as(g.m.get()); describe(as, fs); unsigned most[4] = {}; for (auto& f: fs){ auto nd = DofTNumDofsToInmostNumDofs(dmap(f)->NumDofs()); for (int d = 0; d < 4; ++d) most[d] += nd[d]; } unsigned mask = 0, sz = 0; for (int d = 0; d < 4; ++d) if (most[d]){ mask |= 1u << d; sz = std::max(sz, most[d]); }
    Tag t = g.m->CreateTag("var", INMOST::DATA_REAL, mask, INMOST::NONE, sz); scatter(s, g, t);
    for (auto& cell: g.parts[3]){ std::vector<int> path; int i = nv > 1 || s.flip() ? (int)s.below(nv) : -1; if (i >= 0) path.push_back(i); else i = 0; auto n = path.empty() ? vs[0] : sub(s, vs[i], path, 2); auto fem = gen::lib(n, true); int op = gen::any_op(s, n); c.label(ref::op_name(op)); if (path.size() > 1) c.label("component"); c.nontrivial(gen::nfa(n) >= 4 && g.parts[3].size() > 1);
        INMOST::Cell e(g.m.get(), cell.h); auto N = nodes(g, cell); auto C = tetra(g, N); if (C.quality() < 1e-3) continue; auto b = gen::point(s); P3 x = point(C, b.l); std::vector<double> dofs(gen::nfa(n)); as.GatherDataOnElement(t, e, dofs.data(), path.data(), (unsigned)path.size());
        auto ex = model_value(n, C, dofs, op, b.l); auto A = fem.getOP((OperatorType)op); double tol = tol_of(C, op, (int)dofs.size()); std::string what = gen::str(n) + " " + ref::op_name(op); 
        std::vector<double> o(A.Dim() + 1, 0x1p300); eval_op_var_at_point(o.data(), e, x, A, as, t, path.data(), (unsigned)path.size()); same(c, o, ex, tol, what + " at a point"); c.ok(o[A.Dim()] == 0x1p300, "written after the result");
        if (A.Dim() <= 9){ auto r = eval_op_var_at_point<9>(e, x, A, as, t, path.data(), (unsigned)path.size()); same(c, r, ex, tol, what + " as an array"); for (unsigned k = A.Dim(); k < 9; ++k) c.ok(r[k] == 0, "rest of the array");
            std::array<double, 9> q; if (path.empty()) q = without(0, e, x, A, as, t, c); else if (path.size() == 1) q = eval_op_var_at_point<9>(e, x, A, as, t, {path[0]}); else if (path.size() == 2) q = eval_op_var_at_point<9>(e, x, A, as, t, {path[0], path[1]}); else q = eval_op_var_at_point<9>(e, x, A, as, t, {path[0], path[1], path[2]}); same(c, q, ex, tol, what + " with a list of components"); } }
}
PBT_PROP(U01_values_of_variable_at_barycentric_points, 1200, 16000, "a space with at least four degrees of freedom on the cell and several cells"){
    Grid g = grid::make(s, c); ids(g); auto v = mesh_space(s); auto f = gen::lib(v, true); c.note(gen::str(v)); Assembler as(g.m.get()); describe(as, {f}); Tag t = createFemVarTag(g.m.get(), *dmap(f), "var", s.flip()); scatter(s, g, t); DynMem<> mem;
    for (auto& cell: g.parts[3]){ std::vector<int> path{0}; auto n = sub(s, v, path, 2); auto fem = gen::lib(n, true); int op = gen::any_op(s, n); c.label(ref::op_name(op)); if (path.size() > 1) c.label("component"); c.nontrivial(gen::nfa(n) >= 4 && g.parts[3].size() > 1);
        INMOST::Cell e(g.m.get(), cell.h); auto C = tetra(g, nodes(g, cell)); if (C.quality() < 1e-3) continue; int q = s.range(1, 5); auto l = gen::points(s, q); std::vector<double> dofs(gen::nfa(n)); as.GatherDataOnElement(t, e, dofs.data(), path.data(), (unsigned)path.size());
        auto A = fem.getOP((OperatorType)op); std::vector<double> o((size_t)A.Dim()*q + 1, 0x1p300); const std::vector<double> l0(l); eval_op_var_by_barycentric_points(DenseMatrix<>(o.data(), A.Dim(), q), mem, e, DenseMatrix<const double>(l.data(), 4, q), A, *dmap(f), t, path.data() + 1, (unsigned)path.size() - 1);
        c.ok(l == l0, "the points are changed"); c.ok(o.back() == 0x1p300, "written after the result"); for (int k = 0; k < q; ++k) same(c, &o[(size_t)A.Dim()*k], model_value(n, C, dofs, op, &l[4*k]), tol_of(C, op, (int)dofs.size()), gen::str(n) + " " + ref::op_name(op) + fmt(" at point %d", k)); }
}
// ---- U01: projections -----------------------------------------------------------------------------------------------
struct Var { gen::Node n; FemSpace f; Tag t; };
static std::vector<double> value(const Grid& g, Assembler& as, const Var& v, const Part& cell, const double* l, int op = ref::IDEN){ auto C = tetra(g, nodes(g, cell)); std::vector<double> d(gen::nfa(v.n)); as.GatherDataOnElement(v.t, INMOST::Cell(g.m.get(), cell.h), d.data()); return model_value(v.n, C, d, op, l); }
static void check_field(Src& s, Ctx& c, const Grid& g, const Var& v, const Fld& u, double rel, const std::string& what){
    Assembler as(g.m.get()); describe(as, {v.f}); double sc = big(u); for (auto& cell: g.parts[3]){ auto C = tetra(g, nodes(g, cell)); for (int k = 0; k < 2; ++k){ auto b = gen::point(s, k ? 3 : 0); auto x = point(C, b.l); auto r = value(g, as, v, cell, b.l); for (size_t i = 0; i < u.size(); ++i) c.near(r[i], (double)u[i].at(x), rel*sc, [&]{ return what + fmt(": component %d in cell %d", (int)i, cell.id); }); } }
}
static double worst(const Grid& g){ double q = 1; for (auto& c: g.parts[3]) q = std::min(q, tetra(g, nodes(g, c)).quality()); return q; }
typedef std::function<void(INMOST::Cell, DenseMatrix<const double>, DenseMatrix<const double>, DenseMatrix<>, DynMem<>&)> Fused; typedef std::function<void(INMOST::Cell, P3, double*)> Pointwise;
static Fused fused(Ctx& c, const Grid& g, const Fld& u){ return [&](INMOST::Cell e, DenseMatrix<const double> L, DenseMatrix<const double> X, DenseMatrix<> o, DynMem<>&){ auto C = tetra(g, nodes(g, g.by_handle(e.GetHandle()))); c.ok(L.nRow == 4 && X.nRow == 3 && L.nCol == X.nCol && o.nCol == X.nCol && o.nRow == u.size(), "sizes of the arguments of the function");
    for (unsigned i = 0; i < X.nCol; ++i){ P3 x{X(0, i), X(1, i), X(2, i)}; double l[4]; for (int k = 0; k < 4; ++k) l[k] = L(k, i); auto y = point(C, l); for (int k = 0; k < 3; ++k) c.near(y[k], x[k], 1e-9*(C.h + std::fabs(x[k])), "point and its barycentric coordinates"); for (size_t k = 0; k < u.size(); ++k) o(k, i) = (double)u[k].at(x); } }; }
static Pointwise pointwise(Ctx& c, const Grid& g, const Fld& u){ return [&](INMOST::Cell e, P3 x, double* r){ auto C = tetra(g, nodes(g, g.by_handle(e.GetHandle()))); ld l[4]; C.t.bary({{x[0], x[1], x[2]}}, l); for (ld t: l) c.ok(t > -1e-6 && t < 1 + 1e-6, "the point is outside of the cell"); for (size_t k = 0; k < u.size(); ++k) r[k] = (double)u[k].at(x); }; }
static int need(const gen::Node& n){ return 2*gen::order(n); }
static bool project(Src& s, Ctx& c, const Grid& g, Var& v, const Fld& u, int order){ v.t = createFemVarTag(g.m.get(), *dmap(v.f), "res", s.chance(3, 4)); Mute mu; if (s.flip()){ c.label("function of cells"); make_l2_project(fused(c, g, u), g.m.get(), v.t, v.f, order); } else { c.label("function of points"); make_l2_project(pointwise(c, g, u), g.m.get(), v.t, v.f, order); } return true; }
PBT_PROP(U01_projection_keeps_functions_of_the_space, 500, 6000, RULE){
    Grid g = grid::box(s, c); if (s.flip()) ids(g); Var v; v.n = mesh_space(s); v.f = gen::lib(v.n, true); auto u = member(s, frame(g), v.n); c.note(gen::str(v.n)); c.label(gen::kind_name(v.n)); c.nontrivial(g.parts[3].size() > 1 && varies(u)); project(s, c, g, v, u, std::max(1, need(v.n)) + (int)s.range(0, 1)); check_field(s, c, g, v, u, 1e-7/worst(g), gen::str(v.n));
}
PBT_PROP(U01_projection_error_is_orthogonal, 400, 5000, RULE){
    Grid g = grid::box(s, c, 5); Var v, w; v.n = mesh_space(s, 1, 30); v.f = gen::lib(v.n, true); w = v; int deg = s.range(0, 4); auto u = fld(s, frame(g), gen::dim(v.n), deg); c.note(gen::str(v.n) + fmt(" degree %d", deg)); c.nontrivial(g.parts[3].size() > 1 && varies(u)); int order = std::max({1, need(v.n), deg + gen::order(v.n)}); project(s, c, g, v, u, order);
    w.t = createFemVarTag(g.m.get(), *dmap(v.f), "test"); scatter(s, g, w.t); Assembler as(g.m.get()); describe(as, {v.f}); ld sum = 0, sc = 0; static const int all[4] = {0, 1, 2, 3};
    for (auto& cell: g.parts[3]){ auto C = tetra(g, nodes(g, cell)); auto M = gen::model(v.n, C.t); std::vector<double> d(M.nfa()), e(M.nfa()); INMOST::Cell ce(g.m.get(), cell.h); as.GatherDataOnElement(v.t, ce, d.data()); as.GatherDataOnElement(w.t, ce, e.data()); int D = M.dim;
        for (auto& q: ref::quad(3, all, order)){ auto X = C.t.at(q.l); P3 x{(double)X[0], (double)X[1], (double)X[2]}; auto phi = ref::eval(M, C.t, ref::IDEN, q.l); for (int k = 0; k < D; ++k){ ld a = u[k].at(x), b = 0; ld f = a; for (int i = 0; i < M.nfa(); ++i) a -= phi[k + (size_t)D*i]*d[i], b += phi[k + (size_t)D*i]*e[i]; sum += q.w*C.t.vol()*a*b; sc += q.w*C.t.vol()*(fabsl(f) + fabsl(f - a))*fabsl(b); } } }
    c.near((double)sum, 0, 1e-8*(double)sc/worst(g) + 1e-14, [&]{ return gen::str(v.n) + ": the error of the projection against a function of the space"; });
}
template<class F> static void by_type(Src& s, Ctx& c, const gen::Node& n){
    Grid g = grid::box(s, c, 6); Var v; v.n = n; v.f = gen::lib(n, true); c.note(gen::str(n)); auto u = member(s, frame(g), n); c.nontrivial(g.parts[3].size() > 1 && varies(u)); v.t = createFemVarTag(g.m.get(), *dmap(v.f), "res", s.chance(3, 4)); { Mute mu; make_l2_project<F>(pointwise(c, g, u), g.m.get(), v.t, std::max(1, need(n)) + (int)s.range(0, 1)); } check_field(s, c, g, v, u, 1e-7/worst(g), gen::str(n));
}
PBT_PROP(U01_projection_on_space_given_by_type, 300, 4000, RULE){
    using namespace gen; switch (s.below(8)){ case 0: return by_type<FemFix<FEM_P1>>(s, c, E(ref::P1)); case 1: return by_type<FemFix<FEM_P2>>(s, c, E(ref::P2)); case 2: return by_type<FemFix<FEM_P3>>(s, c, E(ref::P3)); case 3: return by_type<FemFix<FEM_RT0>>(s, c, E(ref::RT0)); case 4: return by_type<FemFix<FEM_ND0>>(s, c, E(ref::ND0)); case 5: return by_type<FemFix<FEM_CR1>>(s, c, E(ref::CR1)); case 6: return by_type<FemVec<3, FEM_P1>>(s, c, Vec(E(ref::P1), 3)); default: return by_type<FemVec<2, FEM_P2>>(s, c, Vec(E(ref::P2), 2)); }
}
// ---- U01: spaces, tags, state of the solver -----------------------------------------------------------------------------
static const std::vector<std::pair<std::string, gen::Node>>& names(){ using namespace gen; static std::vector<std::pair<std::string, gen::Node>> r = {{"P0", E(ref::P0)}, {"P1", E(ref::P1)}, {"P2", E(ref::P2)}, {"P3", E(ref::P3)}, {"MINI", Sum({E(ref::P1), E(ref::B4)})}, {"MINI1", Sum({E(ref::P1), E(ref::B4)})}, {"MINI2", Sum({E(ref::P2), E(ref::B4)})}, {"MINI3", Sum({E(ref::P3), E(ref::B4)})}, {"CR1", E(ref::CR1)}, {"MINI_CR", Sum({E(ref::CR1), E(ref::B4)})}, {"MINI_CR1", Sum({E(ref::CR1), E(ref::B4)})}}; return r; }
PBT_PROP(U01_space_by_name, 400, 3000, "a known name"){
    if (s.chance(1, 5)){ std::string n = s.of(names()).first; int k = (int)s.below(n.size()); int w = s.range(0, 3); if (w == 0) n.erase(k, 1); else if (w == 1) n += n[k]; else if (w == 2) n[k] = (char)tolower(n[k]); else n.insert(k, " "); for (auto& p: names()) if (p.first == n) return; c.note(n); c.label("unknown"); bool thrown = false; try { choose_space_from_name(n); } catch (std::runtime_error&){ thrown = true; } c.ok(thrown, "no error for the name " + n); return; }
    auto& p = s.of(names()); c.note(p.first); c.nontrivial(true); auto f = choose_space_from_name(p.first); auto C = gen::tet(s, c); auto M = gen::model(p.second, C.t); c.ok((int)f.dim() == 1, "dimension"); int op = gen::OPS[s.below(2)]; auto l = gen::points(s, 3); gen::compare_op(c, gen::run_op(f.getOP((OperatorType)op), C, l), M, C, op, l, p.first);
    auto nd = f.dofMap().NumDofs(), nm = gen::lib(p.second).dofMap().NumDofs(); c.ok(nd == nm, "numbers of degrees of freedom");
}
PBT_PROP(U01_tag_holds_all_values_of_variable, 1500, 12000, "a map with two kinds of elements"){
    Grid g = grid::make(s, c, 3); Map m; bool ok = false; for (int k = 0; k < 8 && !ok; ++k){ m = any_map(s, s.pick({1, 3, 1})); ok = !has_empty(m) && !m.f.d.empty(); } s.assume(ok); c.note(m.txt); unsigned n[4]; for (int d = 0; d < 4; ++d) n[d] = on(m.f, d); int kinds = 0; for (unsigned x: n) kinds += x > 0; c.nontrivial(kinds > 1); bool equal = true; for (unsigned x: n) equal = equal && (x == 0 || x == most(m.f));
    bool fixed = s.flip(); std::string name = s.flip() ? "var" : "other"; INMOST::Mesh* M = g.m.get(); Tag t; std::string what; int how = s.range(0, 2);
    if (how == 0){ t = createFemVarTag(M, *m.p, name, fixed); what = fixed ? "tag of fixed size" : "tag"; } else if (how == 1){ fixed = true; auto r = create_or_load_problem_tag(M, *m.p, name, s.flip()); c.ok(!r.second, "a new tag is said to be loaded"); t = r.first; what = "new tag"; } else { fixed = true; Tag o = createFemVarTag(M, *m.p, name, true); scatter(s, g, o); size_t live = M->live_tags(); bool load = s.chance(2, 3); if (!load){ bool thrown = false; try { create_or_load_problem_tag(M, *m.p, name, false); } catch (std::runtime_error&){ thrown = true; } c.ok(thrown, "no error for a tag which exists"); } auto r = create_or_load_problem_tag(M, *m.p, name); c.ok(r.second && r.first == o, "the tag which exists is not loaded"); c.ok(M->live_tags() == live, "number of tags"); t = r.first; what = "loaded tag"; }
    c.ok(t.isValid() && t.GetTagName() == name, "name of the tag"); for (int d = 0; d < 4; ++d) c.ok(t.isDefined(1u << d) == (n[d] > 0), [&]{ return what + fmt(": elements of dimension %d", d); });
    if (fixed || equal) c.ok(t.GetSize() == most(m.f), what + ": size"); else c.ok(t.GetSize() == ENUMUNDEF, what + ": size"); 
    for (int d = 0; d < 4; ++d) if (n[d]) for (auto& p: g.parts[d]){ auto a = g.el(p).RealArray(t); c.ok(a.size() == (fixed || equal ? most(m.f) : n[d]), what + ": size on an element"); if (how != 2) for (double x: a) c.ok(x == 0, what + ": values of a new tag"); }
}
PBT_PROP(U01_state_of_linear_solver_is_printed, 800, 6000, "four digits of iterations"){
    INMOST::Solver S; S.shown = true; static const std::vector<int> I = {0, 1, 9, 10, 99, 100, 999, 1000, 2500, 9999, 10000, 123456}; S.show.its = s.flip() ? s.of(I) : s.range(0, 20000); S.show.solved = s.flip(); S.show.res = s.real(0, 1); S.show.prec = s.real(0, 9); S.show.iter = s.real(0, 9); S.show.why = "reason" + std::to_string(s.below(1000)); std::string name = s.flip() ? "problem" : "heat"; c.nontrivial(S.show.its > 999); c.note(fmt("%d iterations, solved %d", S.show.its, (int)S.show.solved));
    std::string out; { Mute m; print_linear_solver_status(S, name, S.show.solved && s.flip()); out = m.b.str(); } c.ok(out.find(name) == 0, "name of the problem"); std::ostringstream r, p, i; r << S.show.res; p << S.show.prec; i << S.show.iter; for (auto& x: {std::to_string(S.show.its), r.str(), p.str(), i.str()}) c.ok(out.find(x) != std::string::npos, [&]{ return "not printed: " + x + " in " + out; }); if (!S.show.solved) c.ok(out.find(S.show.why) != std::string::npos, "the reason is not printed"); c.ok((out.find("fail") == std::string::npos) == S.show.solved, "success"); for (char x: out) c.ok(x != 0, "a zero byte is printed");
}

// ---- U02: the stationary diffusion problem ------------------------------------------------------------------------------
static P3 outward(const Grid& g, const Part& f, double* area = nullptr){ for (auto& c: g.parts[3]) if (std::includes(c.v.begin(), c.v.end(), f.v.begin(), f.v.end())){ int o = -1; for (int v: c.v) if (!std::count(f.v.begin(), f.v.end(), v)) o = v; auto& a = g.x[f.v[0]]; auto& b = g.x[f.v[1]]; auto& d = g.x[f.v[2]]; P3 n; for (int k = 0; k < 3; ++k){ int i = (k+1)%3, j = (k+2)%3; n[k] = (b[i]-a[i])*(d[j]-a[j]) - (b[j]-a[j])*(d[i]-a[i]); } double l = std::sqrt(n[0]*n[0] + n[1]*n[1] + n[2]*n[2]), w = 0; for (int k = 0; k < 3; ++k) w += n[k]*(g.x[o][k] - a[k]); if (area) *area = l/2; for (double& t: n) t *= (w > 0 ? -1 : 1)/l; return n; } return {}; }
static std::map<int, int> faces_of_cells(const Grid& g){ std::map<int, int> n; for (auto& c: g.parts[3]) for (int k = 0; k < 4; ++k){ auto f = c.v; f.erase(f.begin() + k); ++n[g.of[2].at(f)]; } return n; }
struct Boundary { std::set<HandleType> dir, face; };
// at least one face of the boundary for every part of the mesh connected through faces, closed
static Boundary boundary(Src& s, const Grid& g, bool all){
    Boundary b; auto n = faces_of_cells(g); std::vector<int> comp(g.parts[3].size()); for (size_t i = 0; i < comp.size(); ++i) comp[i] = (int)i; std::map<int, int> first; for (auto& c: g.parts[3]) for (int k = 0; k < 4; ++k){ auto f = c.v; f.erase(f.begin() + k); int id = g.of[2].at(f); auto it = first.find(id); if (it == first.end()) first[id] = c.id; else { int a = comp[it->second], d = comp[c.id]; for (int& x: comp) if (x == d) x = a; } }
    std::map<int, std::vector<int>> of; for (auto& f: n) if (f.second == 1){ of[comp[first[f.first]]].push_back(f.first); b.face.insert(g.parts[2][f.first].h); } for (auto& c: of){ s.shuffle(c.second); int k = all ? (int)c.second.size() : s.range(1, (int)c.second.size()); for (int i = 0; i < k; ++i){ auto v = g.parts[2][c.second[i]].v; for (int m = 1; m < 8; ++m){ std::vector<int> w; for (int j = 0; j < 3; ++j) if (m >> j & 1) w.push_back(v[j]); b.dir.insert(g.part((int)w.size() - 1, w).h); } } } return b; }
static gen::Node scalars(Src& s, bool cr){ using namespace gen; int w = s.pick({5, 2, 1}); if (w == 0) return cont(s, cr); if (w == 1) return Vec(cont(s, cr), s.range(2, 3)); return Prod({cont(s, cr), cont(s, cr)}); }
static bool has_cr(const gen::Node& n){ return gen::has_el(n, ref::CR1); }
static bool has_bubble(const gen::Node& n){ return gen::has_el(n, ref::B4); }
// is the point on the element (its distance from the affine hull and the coordinates in it)
static bool lies(const Grid& g, const Part& p, const P3& x){ int n = (int)p.v.size() - 1; double h = 0; std::vector<P3> e; P3 r; auto& o = g.x[p.v[0]]; for (int k = 0; k < 3; ++k) r[k] = x[k] - o[k]; for (int i = 1; i <= n; ++i){ P3 d; for (int k = 0; k < 3; ++k){ d[k] = g.x[p.v[i]][k] - o[k]; h = std::max(h, std::fabs(d[k])); } e.push_back(d); } if (n == 0){ for (double t: r) if (std::fabs(t) > 1e-9*(1 + std::fabs(o[0]) + std::fabs(o[1]) + std::fabs(o[2]))) return false; return true; }
    std::vector<std::vector<ld>> A(n, std::vector<ld>(n + 1, 0)); for (int i = 0; i < n; ++i){ for (int j = 0; j < n; ++j) for (int k = 0; k < 3; ++k) A[i][j] += (ld)e[i][k]*e[j][k]; for (int k = 0; k < 3; ++k) A[i][n] += (ld)e[i][k]*r[k]; } for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) if (i != k){ ld f = A[i][k]/A[k][k]; for (int j = 0; j <= n; ++j) A[i][j] -= f*A[k][j]; } ld sum = 0; for (int i = 0; i < n; ++i){ ld t = A[i][n]/A[i][i]; if (t < -1e-7) return false; sum += t; for (int k = 0; k < 3; ++k) r[k] -= (double)(t*e[i][k]); } if (sum > 1 + 1e-7) return false; for (double t: r) if (std::fabs(t) > 1e-7*h) return false; return true; }
struct Tensor { Ani::TensorType type; int n; std::vector<Pol> k; ld at(int i, int j, const P3& x) const { if (type == TENSOR_NULL) return i == j; if (type == TENSOR_SCALAR) return i == j ? k[0].at(x) : 0; return k[i*n + j].at(x); } Pol get(int i, int j) const { if (type == TENSOR_NULL || type == TENSOR_SCALAR){ Pol p; if (i == j){ if (type == TENSOR_NULL) p.c[0] = 1; else p = k[0]; } return p; } return k[i*n + j]; } };
static Tensor tensor(Src& s, const Frame& f, int n, bool linear){ static const Ani::TensorType T[4] = {TENSOR_NULL, TENSOR_SCALAR, TENSOR_SYMMETRIC, TENSOR_GENERAL}; Tensor t; t.type = T[s.below(4)]; t.n = n; auto one = [&](double c0, double amp){ Pol p; p.x0 = f.x0; p.h = f.h; p.c[0] = c0; if (linear) for (int k = 1; k < 4; ++k) p.c[k] = 0.2*amp*s.unit(); return p; }; double sc = s.of(std::vector<double>{1, 1, 1e-3, 40});
    if (t.type == TENSOR_SCALAR) t.k.push_back(one(sc*s.real(0.5, 2), sc)); if (t.type == TENSOR_SYMMETRIC || t.type == TENSOR_GENERAL){ t.k.resize(n*n); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j){ t.k[i*n + j] = one(sc*(i == j ? s.real(1, 2) : 0.5*s.unit()/n), sc/n); if (i != j){ t.k[j*n + i] = t.k[i*n + j]; if (t.type == TENSOR_GENERAL){ double w = sc*s.unit(); t.k[j*n + i].c[0] += w; t.k[i*n + j].c[0] -= w; } } } } return t; }
static int need_diffusion(const gen::Node& n, int deg, int kdeg){ int p = gen::order(n); return std::max({1, 2*(p - 1) + kdeg, deg + kdeg + p}); }
PBT_PROP(U02_polynomial_solution_is_found, 500, 7000, "at least two cells, a solution that is not constant and a face with the condition of Neumann"){
    Grid g = grid::box(s, c, 7); if (s.flip()) ids(g); Var v; v.n = scalars(s, true); s.assume(gen::nfa(v.n) <= 45); v.f = gen::lib(v.n, true); auto f = frame(g); bool cr = has_cr(v.n); auto u = member(s, f, v.n); if (cr) for (auto& p: u) for (int i = ref::nmono(1); i < ref::NM; ++i) p.c[i] = 0; /* a flux that is not constant jumps on average over faces */ int deg = 0; for (auto& p: u) for (int i = 1; i < ref::NM; ++i) if (p.c[i] != 0) for (int d = 1; d <= 4; ++d) if (i < ref::nmono(d)){ deg = std::max(deg, d); break; }
    int dim = (int)u.size(), n = 3*dim; bool lin = !cr && s.flip(); auto K = tensor(s, f, n, lin); c.note(gen::str(v.n) + fmt(" tensor %d linear %d degree %d", (int)K.type, (int)lin, deg)); c.label(cr ? "faces" : gen::kind_name(v.n)); c.label(fmt("tensor %d", (int)K.type));
    auto B = boundary(s, g, s.chance(1, 4)); size_t neumann = 0; for (auto h: B.face) neumann += !B.dir.count(h); c.nontrivial(g.parts[3].size() > 1 && varies(u) && neumann > 0); if (neumann) c.label("Neumann"); if (s.chance(1, 3)){ c.label("values inside"); for (int d = 0; d < 4; ++d) if (d < 3 || !has_bubble(v.n)) for (auto& p: g.parts[d]) if (!B.face.count(p.h) && s.chance(1, 6)) B.dir.insert(p.h); }
    { std::string w; for (int d = 0; d < 4; ++d){ w += "|"; for (auto& p: g.parts[d]) if (B.dir.count(p.h)){ w += " "; for (int x: p.v) w += fmt("%d", x); } } c.note("values on" + w); }
    std::vector<std::vector<Pol>> du(dim), Kp(n); for (int q = 0; q < dim; ++q) for (int k = 0; k < 3; ++k) du[q].push_back(u[q].d(k)); auto flux = [&](int q, int k, const P3& x){ ld r = 0; for (int a = 0; a < dim; ++a) for (int j = 0; j < 3; ++j) r += K.at(3*q + k, 3*a + j, x)*du[a][j].at(x); return r; };
    std::vector<std::array<Pol, 3>> dK((size_t)n*n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (lin){ auto p = K.get(i, j); for (int k = 0; k < 3; ++k) dK[(size_t)i*n + j][k] = p.d(k); } std::vector<Pol> ddu((size_t)dim*9); for (int q = 0; q < dim; ++q) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ddu[q*9 + 3*i + j] = du[q][i].d(j);
    auto rhs = [&](int q, const P3& x){ ld r = 0; for (int k = 0; k < 3; ++k) for (int a = 0; a < dim; ++a) for (int j = 0; j < 3; ++j){ if (lin) r -= dK[(size_t)(3*q + k)*n + 3*a + j][k].at(x)*du[a][j].at(x); r -= K.at(3*q + k, 3*a + j, x)*ddu[a*9 + 3*j + k].at(x); } return r; };
    int order = need_diffusion(v.n, deg, lin) + (int)s.range(0, 1); v.t = createFemVarTag(g.m.get(), *dmap(v.f), "res", s.chance(3, 4)); scatter(s, g, v.t); unsigned marks = 0; if (s.flip()) marks = g.m->CreateMarker(); std::set<int> asked;
    auto is_dir = [&](INMOST::Element e){ c.ok(e.isValid(), "asked about an element which does not exist"); return B.dir.count(e.GetHandle()) > 0; };
    auto dir = [&](INMOST::Element e, P3 x, ArrayView<> o){ auto& p = g.by_handle(e.GetHandle()); c.ok(B.dir.count(p.h), "asked about the value on an element without the condition"); c.ok((int)o.size == dim, "size of the value"); c.ok(lies(g, p, x), [&]{ return fmt("the point is outside of the element of dimension %d", p.dim); }); for (int q = 0; q < dim; ++q) o[q] = (double)u[q].at(x); };
    auto neu = [&](INMOST::Face e, P3 x, ArrayView<> o){ auto& p = g.by_handle(e.GetHandle()); c.ok(p.dim == 2 && B.face.count(p.h), "asked about the flux through a face inside"); c.ok(lies(g, p, x), "the point is outside of the face"); c.ok((int)o.size == dim, "size of the flux"); auto nn = outward(g, p); for (int q = 0; q < dim; ++q){ ld r = 0; for (int k = 0; k < 3; ++k) r += nn[k]*flux(q, k, x); o[q] = (double)r; } };
    auto ten = [&](INMOST::Cell e, P3 x, DenseMatrix<> D){ auto& p = g.by_handle(e.GetHandle()); c.ok(p.dim == 3 && lies(g, p, x), "the point is outside of the cell"); c.ok((int)D.nRow == n && (int)D.nCol == n, "sizes of the tensor"); if (K.type == TENSOR_SCALAR) D(0, 0) = (double)K.at(0, 0, x); else if (K.type != TENSOR_NULL) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) D(i, j) = (double)K.at(i, j, x); return K.type; };
    auto src = [&](INMOST::Cell e, P3 x, ArrayView<> o){ auto& p = g.by_handle(e.GetHandle()); c.ok(p.dim == 3 && lies(g, p, x), "the point is outside of the cell"); c.ok((int)o.size == dim, "size of the right hand side"); for (int q = 0; q < dim; ++q) o[q] = (double)rhs(q, x); };
    { Mute mu; solve_stationary_diffusion(g.m.get(), v.f, v.t, is_dir, dir, neu, ten, src, order); } check_field(s, c, g, v, u, 1e-6/worst(g), gen::str(v.n)); c.ok(g.m->markers == marks, "markers which are not released");
}
static Fld harmonic(Src& s, const Frame& f, int dim, int deg){ Fld r; auto& M = ref::mono(); for (int q = 0; q < dim; ++q){ Pol p; p.x0 = f.x0; p.h = f.h; for (int i = 0; i < ref::nmono(std::min(deg, 1)); ++i) p.c[i] = s.unit(); int a = (int)s.below(3), b = (a + 1 + (int)s.below(2))%3, d = 3 - a - b; auto add = [&](int ea, int eb, int ed, double w){ int e[3]; e[a] = ea; e[b] = eb; e[d] = ed; p.c[M.id[e[0]][e[1]][e[2]]] += w; };
        if (deg >= 2){ add(1, 1, 0, s.unit()); double w = s.unit(); add(2, 0, 0, w); add(0, 2, 0, -w); w = s.unit(); add(0, 2, 0, w); add(0, 0, 2, -w); } if (deg >= 3){ add(1, 1, 1, s.unit()); double w = s.unit(); add(3, 0, 0, w); add(1, 2, 0, -3*w); w = s.unit(); add(2, 0, 1, w); add(0, 2, 1, -w); } r.push_back(p); } return r; }
PBT_PROP(U02_harmonic_polynomial_is_found, 300, 4000, "at least two cells and a solution that is not constant"){
    Grid g = grid::box(s, c, 10); if (s.flip()) ids(g); Var v; v.n = scalars(s, true); s.assume(gen::nfa(v.n) <= 45); v.f = gen::lib(v.n, true); int deg = 3;  auto probe = member(s, frame(g), v.n); int dim = (int)probe.size(); deg = gen::has_el(v.n, ref::P1) || gen::has_el(v.n, ref::CR1) ? 1 : gen::has_el(v.n, ref::P2) ? 2 : 3; auto u = harmonic(s, frame(g), dim, deg); c.note(gen::str(v.n)); c.nontrivial(g.parts[3].size() > 1 && varies(u));
    bool flat = s.chance(1, 4); if (flat) for (auto& p: u) for (int i = 1; i < ref::NM; ++i) p.c[i] = 0; auto B = boundary(s, g, !flat); if (flat) c.label("constant, no flux"); int order = std::max(1, 2*gen::order(v.n) - 2) + (int)s.range(0, 2); v.t = createFemVarTag(g.m.get(), *dmap(v.f), "res", s.chance(3, 4)); scatter(s, g, v.t);
    { Mute mu; make_laplace(g.m.get(), v.f, v.t, [&](INMOST::Element e){ return B.dir.count(e.GetHandle()) > 0; }, [&](INMOST::Element e, P3 x, ArrayView<> o){ c.ok(lies(g, g.by_handle(e.GetHandle()), x), "the point is outside of the element"); for (int q = 0; q < dim; ++q) o[q] = (double)u[q].at(x); }, order); } check_field(s, c, g, v, u, 1e-6/worst(g), gen::str(v.n)); c.ok(g.m->markers == 0, "markers which are not released");
}
// ---- U03: generated boxes -------------------------------------------------------------------------------------------------
static Grid read(std::unique_ptr<INMOST::Mesh> m, Ctx& c){ Grid g; std::map<HandleType, int> id; for (auto it = m->BeginNode(); it != m->EndNode(); ++it){ auto x = it->Coords(); id[it->GetHandle()] = (int)g.x.size(); g.of[0][{(int)g.x.size()}] = (int)g.x.size(); g.parts[0].push_back({0, (int)g.x.size(), {(int)g.x.size()}, it->GetHandle()}); g.x.push_back({x[0], x[1], x[2]}); }
    for (int d = 1; d < 4; ++d) for (auto it = m->BeginElement(1u << d); it != m->EndElement(); ++it){ auto ns = it->getNodes(); std::vector<int> v; for (size_t k = 0; k < ns.size(); ++k) v.push_back(id.at(ns[k].GetHandle())); if (d == 3) g.order.push_back(v); std::sort(v.begin(), v.end()); c.ok((int)v.size() == d + 1 && std::set<int>(v.begin(), v.end()).size() == v.size(), "nodes of an element"); int k = (int)g.parts[d].size(); c.ok(!g.of[d].count(v), "an element is created twice"); g.of[d][v] = k; g.parts[d].push_back({d, k, v, it->GetHandle()}); } g.m = std::move(m); return g; }
struct Box { int n[3]; P3 O, A; std::unique_ptr<INMOST::Mesh> m; };
static Box generated(Src& s, Ctx& c, int most){ Box b; for (int k = 0; k < 3; ++k) b.n[k] = s.range(1, most); bool cube = s.chance(1, 3); double sz = s.of(std::vector<double>{1, 0.1, 3, 25}); for (int k = 0; k < 3; ++k){ b.O[k] = cube ? 0 : s.real(-3, 3); b.A[k] = cube ? sz : b.O[k] + sz*s.real(0.3, 2)*(s.chance(1, 8) ? -1 : 1); } c.note(fmt("%d x %d x %d", b.n[0], b.n[1], b.n[2]) + (cube ? " cube" : "")); c.label(cube ? "cube" : "parallelepiped");
    if (cube){ if (sz == 1 && s.flip()) b.m = GenerateCube(INMOST_MPI_COMM_WORLD, b.n[0], b.n[1], b.n[2]); else b.m = GenerateCube(INMOST_MPI_COMM_WORLD, b.n[0], b.n[1], b.n[2], sz); } else b.m = GenerateParallelepiped(INMOST_MPI_COMM_WORLD, {(unsigned)b.n[0], (unsigned)b.n[1], (unsigned)b.n[2]}, b.A, b.O); return b; }
PBT_PROP(U03_cells_fill_the_box, 1500, 15000, "different numbers of steps"){
    Box b = generated(s, c, 4); c.nontrivial(b.n[0] != b.n[1] || b.n[1] != b.n[2]); int nx = b.n[0], ny = b.n[1], nz = b.n[2]; c.ok(b.m->NumberOfNodes() == (nx+1)*(ny+1)*(nz+1), "number of nodes"); c.ok(b.m->NumberOfCells() == 6*nx*ny*nz, "number of cells"); int Nn = b.m->NumberOfNodes(), Ne = b.m->NumberOfEdges(), Nf = b.m->NumberOfFaces(), Nc = b.m->NumberOfCells(); c.ok(Nn - Ne + Nf - Nc == 1, "Euler's formula");
    if (s.chance(1, 4)){ Mute mu; RepartMesh(b.m.get(), s.flip()); } { Mute mu; print_mesh_sizes(b.m.get()); for (auto& p: {std::make_pair("#N ", Nn), std::make_pair("#E ", Ne), std::make_pair("#F ", Nf), std::make_pair("#T ", Nc)}) c.ok((mu.b.str() + " ").find(p.first + std::to_string(p.second)) != std::string::npos, "printed sizes"); }
    Grid g = read(std::move(b.m), c); double H[3]; for (int k = 0; k < 3; ++k) H[k] = (b.A[k] - b.O[k])/b.n[k]; std::set<std::array<int, 3>> lattice; std::vector<std::array<int, 3>> ix; for (auto& x: g.x){ std::array<int, 3> i; for (int k = 0; k < 3; ++k){ double t = (x[k] - b.O[k])/H[k]; i[k] = (int)std::lround(t); c.near(t, i[k], 1e-9, "a node is off the lattice"); c.ok(i[k] >= 0 && i[k] <= b.n[k], "a node is outside of the box"); } c.ok(lattice.insert(i).second, "a point of the lattice is taken twice"); ix.push_back(i); }
    double V = 0; std::map<int, std::vector<int>> up; double v1 = std::fabs(H[0]*H[1]*H[2]); for (auto& cell: g.parts[3]){ std::array<int, 3> lo = ix[cell.v[0]], hi = lo; for (int v: cell.v) for (int k = 0; k < 3; ++k){ lo[k] = std::min(lo[k], ix[v][k]); hi[k] = std::max(hi[k], ix[v][k]); } for (int k = 0; k < 3; ++k) c.ok(hi[k] - lo[k] <= 1, "a cell is in several blocks"); double vol = std::fabs(det(g.x[cell.v[0]], g.x[cell.v[1]], g.x[cell.v[2]], g.x[cell.v[3]]))/6; c.ok(vol > 0.01*v1, "a flat cell"); V += vol; for (int k = 0; k < 4; ++k){ auto f = cell.v; f.erase(f.begin() + k); up[g.of[2].at(f)].push_back(cell.v[k]); } }
    c.near(V, v1*nx*ny*nz, 1e-9*v1*nx*ny*nz, "volumes of the cells"); c.ok((int)up.size() == Nf, "faces without cells"); double S = 0;
    for (auto& u: up){ auto& f = g.parts[2][u.first]; c.ok(u.second.size() <= 2, "a face of more than two cells"); if (u.second.size() == 2){ auto& x = f.v; c.ok(det(g.x[x[0]], g.x[x[1]], g.x[x[2]], g.x[u.second[0]])*det(g.x[x[0]], g.x[x[1]], g.x[x[2]], g.x[u.second[1]]) < 0, "two cells of a face are on the same side"); } else { bool on = false; for (int k = 0; k < 3; ++k) for (int e: {0, b.n[k]}) on = on || (ix[f.v[0]][k] == e && ix[f.v[1]][k] == e && ix[f.v[2]][k] == e); c.ok(on, "a face inside has one cell"); double a; outward(g, f, &a); S += a; } }
    double S0 = 2*std::fabs(H[0]*H[1]*nx*ny) + 2*std::fabs(H[1]*H[2]*ny*nz) + 2*std::fabs(H[0]*H[2]*nx*nz); c.near(S, S0, 1e-9*S0, "area of the boundary");
}
PBT_PROP(U03_polynomials_on_the_box, 120, 1500, "a polynomial that is not constant"){
    Box b = generated(s, c, 2); Grid g = read(std::move(b.m), c); auto f = frame(g); int deg = s.range(0, 4); auto u = fld(s, f, 1, deg); unsigned order = (unsigned)std::max(1, deg); double I = integrate_scalar_func(g.m.get(), [&](INMOST::Cell, P3 x){ return (double)u[0].at(x); }, order); ld e = 0, V = 1; for (int k = 0; k < 3; ++k) V *= std::fabs(b.A[k] - b.O[k]); { static const ld X[3] = {-0.774596669241483377035853079956479922L, 0, 0.774596669241483377035853079956479922L}, W[3] = {5/18.0L, 8/18.0L, 5/18.0L}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k){ ld t[3] = {X[i], X[j], X[k]}; P3 x; for (int d = 0; d < 3; ++d) x[d] = (double)((b.O[d] + b.A[d])/2.0L + t[d]*(b.A[d] - b.O[d])/2.0L); e += W[i]*W[j]*W[k]*V*u[0].at(x); } } c.near(I, (double)e, 1e-10*big(u)*(double)V, "integral over the box");
    Var v; v.n = mesh_space(s, 0); v.f = gen::lib(v.n, true); auto w = member(s, f, v.n); c.note(gen::str(v.n)); c.nontrivial(varies(w)); int dofs = 0; auto nd = v.f.dofMap().NumDofs(); for (int t = 0; t < 6; ++t) dofs += nd[t]*(int)g.parts[parts::TDIM[t]].size(); s.assume(dofs <= 260); project(s, c, g, v, w, std::max(1, need(v.n))); check_field(s, c, g, v, w, 1e-7/worst(g), gen::str(v.n));
}
