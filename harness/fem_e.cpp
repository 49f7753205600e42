// E01-E07: elemental computations against exact sums of exact values.
#include "statics.h"
#include "elem.h"
using namespace gen; using namespace el;
using Ani::ArrayView; using Ani::DynMem; using Ani::DenseMatrix; using Ani::TensorType; using Ani::TensorDims;

// ---- a coefficient: one matrix of polynomials per cell, and the ways it may be described
enum { GENC, SYMC, SCALC, IDC };
struct Coef { int rows, cols, deg = 0; std::vector<int> cls; std::vector<std::vector<ref::Poly>> m; bool ones = false;  // ones: class 2, 3 with rows != cols
    ld scale(int r) const { ld s = 0; for (auto& p: m[r]) for (ld x: p.c) s = std::max(s, fabsl(x)); return s; }
    std::vector<ld> at(int r, const ld* l) const { std::vector<ld> v(m[r].size(), 0); auto mv = ref::monos(l); for (size_t i = 0; i < v.size(); ++i) if (!m[r][i].zero()) for (int k = 0; k < ref::NM; ++k) v[i] += m[r][i].c[k]*mv.v[k]; return v; }   // row-major rows x cols
};
static Coef coef(Src& s, int rows, int cols, int nfa, int f, int deg, int mincls, bool same, bool cst){
    Coef c; c.rows = rows; c.cols = cols; c.deg = deg; bool sq = rows == cols, ones = !sq && nfa == 1 && cols == 1; c.ones = ones;
    c.cls.resize(f); c.m.resize(f);
    for (int r = 0; r < f; ++r){
        if (r > 0 && cst){ c.cls[r] = c.cls[0]; c.m[r] = c.m[0]; continue; }
        int k = sq ? s.pick({3, 2, 2, 2}) : ones ? (s.flip() ? 0 : s.range(2, 3)) : 0; if (r > 0 && same) k = c.cls[0];
        k = std::max(k, mincls); c.cls[r] = k; auto& M = c.m[r]; M.assign((size_t)rows*cols, ref::Poly());
        if (k == GENC) M = poly_vec(s, rows*cols, deg);
        if (k == SYMC) for (int i = 0; i < rows; ++i) for (int j = 0; j <= i; ++j) M[i*cols+j] = M[j*cols+i] = poly_vec(s, 1, deg)[0];
        if (k >= SCALC){ ref::Poly p = k == IDC ? ref::constant(1) : poly_vec(s, 1, deg)[0]; for (int i = 0; i < rows; ++i) M[i*cols + (sq ? i : 0)] = p; }
    }
    return c;
}
static bool can_id(int rows, int cols, int nfa){ return rows == cols || (nfa == 1 && cols == 1); }
// ---- one elemental computation with its oracle
struct Job {
    int fam, num, f, dA, dB, na, nb, q = 0, order = 0, trait; Coef D; std::vector<Cell> cs; std::vector<double> X[4]; std::vector<double> L, W, Xp;
    Node a, b; int opa, opb; int deg; uint64_t salt; bool okcb = true; std::string cberr; int calls = 0; int ud = 0;
    std::vector<double> ref, tol;                   // f blocks nb x na, column major
    int rows() const { return fam == FACEN ? 3*dB : dB; }
};
static void cb_fail(Job& J, const std::string& m){ if (J.okcb){ J.okcb = false; J.cberr = m; } }
static TensorType rep(const Job& J, int cls, int trait, uint64_t h){
    bool sq = J.D.rows == J.D.cols;
    std::vector<TensorType> r; int hi = cls;
    switch (trait){ case GEN: case SYM: case CGEN: case CSYM: hi = std::min(cls, (int)SYMC); break; case SCAL: case CSCAL: return Ani::TENSOR_SCALAR; case NUL: case CNUL: return Ani::TENSOR_NULL; }
    if (trait == SYM || trait == CSYM) return sq && cls >= SYMC ? Ani::TENSOR_SYMMETRIC : Ani::TENSOR_GENERAL;
    if (trait == GEN || trait == CGEN) return Ani::TENSOR_GENERAL;
    r.push_back(Ani::TENSOR_GENERAL); if (hi >= SYMC && sq) r.push_back(Ani::TENSOR_SYMMETRIC); if (hi >= SCALC) r.push_back(Ani::TENSOR_SCALAR); if (hi >= IDC) r.push_back(Ani::TENSOR_NULL);
    return r[h % r.size()];
}
static void check_point(Job& J, const double* X, int r, ld* l){
    J.cs[r].t.bary({{X[0], X[1], X[2]}}, l); const double e = 1e-8/J.cs[r].quality();
    auto z = [&](int i){ if (fabsl(l[i]) > e) cb_fail(J, fmt("coefficient asked at a point off the face/edge/node: barycentric coordinate %d is %.3g", i, (double)l[i])); };
    switch (J.fam){
        case TET: for (int i = 0; i < 4; ++i) if (l[i] < -e) cb_fail(J, fmt("coefficient asked outside cell %d", r)); break;
        case FACE: case FACEN: z((J.num + 3) % 4); for (int i = 0; i < 4; ++i) if (l[i] < -e) cb_fail(J, "coefficient asked outside the face"); break;
        case EDGE: for (int i = 0; i < 4; ++i) if (i != ref::EDGE[J.num][0] && i != ref::EDGE[J.num][1]) z(i); else if (l[i] < -e) cb_fail(J, "coefficient asked outside the edge"); break;
        case NODE: for (int i = 0; i < 4; ++i) if (i != J.num) z(i); break;
        default: { bool any = false; for (int k = 0; k < J.q && !any; ++k){ bool eq = true; for (int i = 0; i < 4; ++i) if (std::fabs((double)l[i] - J.L[4*k+i]) > 1e-7/J.cs[r].quality()) eq = false; any = eq; } if (!any) cb_fail(J, "coefficient asked at a point which is not in the given set"); }
    }
}
static void set_call(Job& J, Call& k, Ctx& c){
    k.fam = J.fam; k.num = J.num; k.order = J.order; k.trait = J.trait; k.f = J.f; for (int i = 0; i < 4; ++i) k.xy[i] = J.X[i].data();
    k.L = J.L; k.X = J.Xp; k.W = J.W; k.user = &J.ud; Job* j = &J;
    k.one.f = [j](const std::array<double, 3>& X, double* D, TensorDims d, void* u, int r) -> TensorType {
        Job& J = *j; ++J.calls;
        if ((int)d.first != J.D.rows || (int)d.second != J.D.cols) cb_fail(J, fmt("coefficient asked with dimensions %zux%zu, expected %dx%d", d.first, d.second, J.D.rows, J.D.cols));
        if (u != &J.ud) cb_fail(J, "coefficient called without the user data"); if (r < 0 || r >= J.f){ cb_fail(J, fmt("coefficient called with cell index %d of %d", r, J.f)); r = 0; }
        ld l[4] = {0.25L, 0.25L, 0.25L, 0.25L}; if (!is_const(J.trait)) check_point(J, X.data(), r, l);
        uint64_t h = 0; if (J.trait == PP){ double v[3] = {X[0], X[1], X[2]}; memcpy(&h, v, 8); h = pbt::mix(h ^ J.salt); } else if (J.trait == PT) h = pbt::mix(r + J.salt); else h = J.salt;
        TensorType t = rep(J, J.D.cls[r], J.trait, h); auto v = J.D.at(r, l);
        if (t == Ani::TENSOR_SCALAR) D[0] = (double)v[0]; else if (t != Ani::TENSOR_NULL) for (int a = 0; a < J.D.rows; ++a) for (int b = 0; b < J.D.cols; ++b) D[a + J.D.rows*b] = (double)v[a*J.D.cols + b];
        return t; };
    k.fus.f = [j](Ani::ArrayView<> X, Ani::ArrayView<> D, TensorDims d, void* u, const Ani::AniMemory<double, int>& m) -> TensorType {
        Job& J = *j; ++J.calls; int n1 = J.D.rows, n2 = J.D.cols, q = (int)m.q, f = (int)m.f;
        if ((int)d.first != n1 || (int)d.second != n2) cb_fail(J, fmt("coefficient asked with dimensions %zux%zu, expected %dx%d", d.first, d.second, n1, n2));
        if (u != &J.ud) cb_fail(J, "coefficient called without the user data"); if (f != J.f) { cb_fail(J, fmt("batch coefficient called for %d cells of %d", f, J.f)); return Ani::TENSOR_NULL; }
        if ((int)X.size < 3*q*f || (int)D.size < n1*n2*q*f){ cb_fail(J, fmt("batch coefficient called with %zu coordinates and %zu values for %d points", (size_t)X.size, (size_t)D.size, q*f)); return Ani::TENSOR_NULL; }
        TensorType t = rep(J, J.D.cls[0], J.trait, J.salt);
        for (int r = 0; r < f; ++r) for (int n = 0; n < q; ++n){ ld l[4]; check_point(J, X.data + 3*(n + q*r), r, l); auto v = J.D.at(r, l); double* o = D.data + (size_t)n1*n2*(n + q*r);
            if (t == Ani::TENSOR_SCALAR) o[0] = (double)v[0]; else if (t != Ani::TENSOR_NULL) for (int a = 0; a < n1; ++a) for (int b = 0; b < n2; ++b) o[a + n1*b] = (double)v[a*n2 + b]; }
        return t; };
}
static int op_order(const Node& n, int op){ return std::max(0, order(n) - (op == ref::IDEN ? 0 : 1)); }
static std::string rep_name(const Job& J){ static const char* n[] = {"general", "symmetric", "scalar", "identity"}; std::string r; for (int k: J.D.cls) r += std::string(r.empty() ? "" : ",") + n[k]; return r; }
// fills geometry, coefficient, points and the expected result
static void setup(Src& s, Ctx& c, Job& J, int f, int trait, double minq = 0.01){
    J.f = f; J.trait = trait; J.salt = s.below(1000); J.dA = ref::op_dim(J.opa, dim(J.a)); J.dB = ref::op_dim(J.opb, dim(J.b)); J.na = nfa(J.a); J.nb = nfa(J.b);
    if (J.fam == PNTX) J.f = f = 1;
    for (int r = 0; r < f; ++r) J.cs.push_back(tet(s, c, minq, r < 3));
    for (int i = 0; i < 4; ++i){ J.X[i].clear(); for (auto& C: J.cs) J.X[i].insert(J.X[i].end(), C.p + 3*i, C.p + 3*i + 3); }
    J.num = J.fam == FACE || J.fam == FACEN || J.fam == NODE ? s.range(0, 3) : J.fam == EDGE ? s.range(0, 5) : 0;
    int mincls = trait == SCAL || trait == CSCAL ? SCALC : trait == NUL || trait == CNUL ? IDC : 0;
    bool same = trait == PS || trait == CPS || trait == FUS || trait == CPP;
    int dd = is_const(trait) ? 0 : s.pick({3, 3, 2}); J.D = coef(s, J.rows(), J.dA, J.na, f, dd, mincls, same, is_const(trait));
    J.deg = op_order(J.a, J.opa) + op_order(J.b, J.opb) + dd; J.order = std::min(20, std::max(1, J.deg) + s.pick({4, 1, 1}));
    c.note(fmt("%s %s / %s %s, %s num=%d f=%d, coefficient %s deg %d %dx%d as %s, order %d", ref::op_name(J.opa), str(J.a).c_str(), ref::op_name(J.opb), str(J.b).c_str(), FAM_NAME[J.fam], J.num, f, rep_name(J).c_str(), dd, J.D.rows, J.D.cols, TRAIT_NAME[trait], J.order));
    c.label(FAM_NAME[J.fam]); c.label(std::string("coefficient ") + TRAIT_NAME[trait]); for (int k: J.D.cls) { static const char* n[] = {"D general", "D symmetric", "D scalar", "D identity"}; c.label(n[k]); }
    std::vector<ref::QP> Q;
    if (J.fam >= PNTL){ J.q = s.range(1, 7); J.L = points(s, J.q); J.W.resize(J.q); for (double& w: J.W) w = s.unit(); 
        if (J.fam == PNTX){ J.Xp.resize(3*J.q); for (int k = 0; k < J.q; ++k){ ld l[4]; lld(&J.L[4*k], l); auto x = J.cs[0].t.at(l); for (int i = 0; i < 3; ++i) J.Xp[3*k+i] = (double)x[i]; J.cs[0].t.bary({{J.Xp[3*k], J.Xp[3*k+1], J.Xp[3*k+2]}}, l); for (int i = 0; i < 4; ++i) J.L[4*k+i] = (double)l[i]; } }
        for (int k = 0; k < J.q; ++k){ ref::QP p; lld(&J.L[4*k], p.l); p.w = J.W[k]; Q.push_back(p); } }
    else { static const int all[4] = {0, 1, 2, 3}; int nd[4]; std::copy(all, all + 4, nd); int d = 3;
        if (J.fam == FACE || J.fam == FACEN){ d = 2; std::copy(ref::FACE[J.num], ref::FACE[J.num] + 3, nd); } if (J.fam == EDGE){ d = 1; std::copy(ref::EDGE[J.num], ref::EDGE[J.num] + 2, nd); } if (J.fam == NODE){ d = 0; nd[0] = J.num; }
        Q = ref::quad(d, nd, J.deg + 1); }
    J.ref.assign((size_t)J.na*J.nb*f, 0); J.tol.assign(f, 0);
    for (int r = 0; r < f; ++r){
        auto& C = J.cs[r]; auto ma = model(J.a, C.t), mb = model(J.b, C.t); ld mes = 1, nrm[3] = {0, 0, 0};
        if (J.fam == TET) mes = C.t.vol(); if (J.fam == FACE || J.fam == FACEN) mes = ref::face_area(C.t, J.num); if (J.fam == EDGE) mes = ref::norm(C.t.x[ref::EDGE[J.num][1]] - C.t.x[ref::EDGE[J.num][0]]);
        if (J.fam == FACEN){ auto n = ref::out_normal(C.t, J.num); for (int k = 0; k < 3; ++k) nrm[k] = n[k]; }
        std::vector<ld> R((size_t)J.na*J.nb, 0); ld SU = J.opa == ref::IDEN ? 1e-3L : 1e-3L/C.h, SV = J.opb == ref::IDEN ? 1e-3L : 1e-3L/C.h, SD = 1e-3L, SW = 0;
        for (auto& p: Q){
            auto u = ref::eval(ma, C.t, J.opa, p.l), v = ref::eval(mb, C.t, J.opb, p.l); auto D = J.D.at(r, p.l);
            for (ld x: u) SU = std::max(SU, fabsl(x)); for (ld x: v) SV = std::max(SV, fabsl(x)); for (int a = 0; a < J.D.rows; ++a){ ld t = 0; for (int b = 0; b < J.dA; ++b) t += fabsl(D[a*J.dA+b]); SD = std::max(SD, t); } SW += fabsl(p.w);
            for (int j = 0; j < J.na; ++j){
                std::vector<ld> du(J.dB, 0);
                for (int a = 0; a < J.D.rows; ++a){ ld t = 0; for (int b = 0; b < J.dA; ++b) t += D[a*J.dA + b]*u[b + (size_t)J.dA*j]; if (J.fam == FACEN) du[a/3] += t*nrm[a%3]; else du[a] += t; }
                for (int i = 0; i < J.nb; ++i){ ld t = 0; for (int a = 0; a < J.dB; ++a) t += du[a]*v[a + (size_t)J.dB*i]; R[i + (size_t)J.nb*j] += p.w*mes*t; }
            }
        }
        for (size_t i = 0; i < R.size(); ++i) J.ref[R.size()*r + i] = (double)R[i];
        ld mult = J.fam >= PNTL ? 1/(ld)C.quality() : 1;       // Cartesian points: rounding of the coordinates
        if (J.fam >= PNTL) mult *= 1 + 0.01L*0;
        J.tol[r] = (double)(3e-9L*SW*mes*SU*SV*SD*J.dB)*(J.fam >= PNTL ? std::max(1.0, 1e-2*(double)mult) : 1.0);
    }
}
static std::vector<double> do_run(Ctx& c, Job& J, const std::function<void(Call&)>& run, int mem, uint64_t fill, DynMem<>* wm, bool tetra, const Ani::ApplyOpBase* U, const Ani::ApplyOpBase* V, const std::string& what){
    Call k; set_call(J, k, c); k.mem = mem; k.fill = fill; k.wm = wm; k.tetra = tetra; k.U = U; k.V = V;
    size_t n = (size_t)J.na*J.nb*J.f; std::vector<double> buf(n + 8, -4.25e200); k.A = buf.data(); k.asz = n; J.calls = 0; J.okcb = true;
    run(k);
    c.ok(k.mem_error.empty(), [&]{ return what + ": " + k.mem_error; });
    c.ok(J.okcb, [&]{ return what + ": " + J.cberr; });
    c.ok((int)k.nRow == J.nb && (int)k.nCol == J.na*J.f, [&]{ return what + fmt(": result is %zux%zu, expected %dx%d", k.nRow, k.nCol, J.nb, J.na*J.f); });
    for (size_t i = n; i < buf.size(); ++i) c.ok(buf[i] == -4.25e200, what + ": wrote beyond the result");
    for (int i = 0; i < 4; ++i) for (int r = 0; r < J.f; ++r) for (int q = 0; q < 3; ++q) c.ok(J.X[i][3*r+q] == J.cs[r].p[3*i+q], what + ": changed the coordinates");
    for (size_t i = 0; i < J.W.size(); ++i) c.ok(k.W[i] == J.W[i], what + ": changed the weights");
    buf.resize(n); return buf;
}
static void compare(Ctx& c, Job& J, const std::vector<double>& A, const std::string& what){
    size_t bs = (size_t)J.na*J.nb;
    for (int r = 0; r < J.f; ++r) for (size_t i = 0; i < bs; ++i) c.near(A[bs*r + i], J.ref[bs*r + i], J.tol[r], [&]{ return what + fmt(": cell %d row %zu column %zu", r, i % J.nb, i/J.nb); });
}
struct RtOps { Ani::FemSpace a, b; std::unique_ptr<Ani::ApplyOpFromSpace> u, v; };
static Node sp_for(Src& s, int maxn = 30){ Limits L; L.max_nfa = maxn; L.max_dim = 6; L.depth = s.pick({2, 3, 1}); return space(s, L); }
static void rt_spaces(Src& s, Job& J, int maxn = 30){ J.a = sp_for(s, maxn); J.b = s.chance(1, 3) ? J.a : sp_for(s, maxn); J.opa = any_op(s, J.a); J.opb = s.chance(1, 3) && op_ok(J.b, J.opa) ? J.opa : any_op(s, J.b); if (s.chance(1, 8)){ J.a = E(ref::P0); J.opa = ref::IDEN; } }
static int any_fam(Src& s){ return (int)s.below(NFAM); }
static int any_trait(Src& s, const Job& J){ // traits admissible for the pair
    int dA = ref::op_dim(J.opa, dim(J.a)), rows = ref::op_dim(J.opb, dim(J.b))*(J.fam == FACEN ? 3 : 1); bool id = can_id(rows, dA, nfa(J.a));
    for (;;){ int t = (int)s.below(NTRAIT); if (!id && (t == SCAL || t == CSCAL || t == NUL || t == CNUL)) { if (s.flip()) continue; return PP; }
        if (rows != dA && (t == SYM || t == CSYM)) return GEN; return t; }
}
static int rt_mem(Src& s){ return s.pick({3, 1, 4}); }
struct Case { Job J; std::function<void(Call&)> run; bool rt = true; Ani::FemSpace a, b; std::shared_ptr<Ani::ApplyOpBase> U, V; bool eig_ok = false; };
static int nfam_of(int fam){ return fam; }
// choose operators (run-time or compile-time) and prepare
static void make_case(Src& s, Ctx& c, Case& K, bool rt, int fam, int f, int trait /* -1: any */, bool spec = false){
    K.rt = rt; Job& J = K.J; J.fam = fam;
    if (rt){ rt_spaces(s, J, f > 3 ? 16 : 30); K.a = lib(J.a, s.flip()); K.b = lib(J.b, s.flip()); K.U.reset(new Ani::ApplyOpFromSpace(K.a.getOP_own((Ani::OperatorType)J.opa))); K.V.reset(new Ani::ApplyOpFromSpace(K.b.getOP_own((Ani::OperatorType)J.opb))); K.run = run_rt; }
    else { auto& P = pairs(); std::vector<int> ok; for (int i = 0; i < (int)P.size(); ++i) if (!spec || P[i].all_traits) ok.push_back(i); auto& p = P[s.of(ok)]; J.a = p.a; J.b = p.b; J.opa = p.opa; J.opb = p.opb; K.run = p.run; c.label(p.name); }
    if (trait < 0) trait = any_trait(s, J);
    setup(s, c, J, f, trait);
}
static bool stack_ok(const Job& J){ if (J.f > 3) return false; int o = J.order; return J.fam == TET ? o <= 6 : J.fam == EDGE ? o <= 20 : J.fam == FACE || J.fam == FACEN ? o <= 9 : true; }
static std::vector<double> run_case(Ctx& c, Case& K, int mem, uint64_t fill, DynMem<>* wm, bool tetra, const std::string& what){ return do_run(c, K.J, K.run, mem, fill, wm, tetra, K.U.get(), K.V.get(), what); }
static int pick_mem(Src& s, const Case& K){
    std::vector<int> m{DYN, EXACT, RAW}; if (!K.rt){ if (stack_ok(K.J)) m.push_back(STACK);
#ifdef WITH_EIGEN
        if (K.J.fam == TET && K.J.f == 1 && K.J.trait == PP && K.J.na <= 30 && K.J.nb <= 30 && K.J.order <= 6) m.push_back(EIGEN);
#endif
    } return s.of(m);
}
static void exact_case(Src& s, Ctx& c, bool rt, int fam, int trait, int maxf = 3){
    Case K; int f = s.pick({4, 1, 1}) + 1; f = std::min(f, maxf); make_case(s, c, K, rt, fam, f, trait, false);
    int mem = pick_mem(s, K); DynMem<> wm; c.note(MEM_NAME[mem]); c.label(std::string("memory ") + MEM_NAME[mem]);
    auto A = run_case(c, K, mem, s.below(32), &wm, rt && f == 1 && trait == PP && s.flip(), "result"); compare(c, K.J, A, "element matrix vs exact value");
    c.nontrivial(K.J.na*K.J.nb > 1 || K.J.f > 1);
}
PBT_PROP(E01_rt, 900, 15000, "element matrices of more than one entry"){ exact_case(s, c, true, TET, s.chance(1, 4) ? PT : PP); }
PBT_PROP(E01_static, 700, 12000, "element matrices of more than one entry"){ exact_case(s, c, false, TET, PP); }
PBT_PROP(E03_rt, 900, 15000, "element matrices of more than one entry"){ exact_case(s, c, true, s.range(FACE, EDGE), PP); }
PBT_PROP(E03_static, 700, 12000, "element matrices of more than one entry"){ exact_case(s, c, false, s.range(FACE, EDGE), PP); }
PBT_PROP(E04_rt, 900, 15000, "element matrices of more than one entry"){ exact_case(s, c, true, s.range(NODE, PNTX), PP); }
PBT_PROP(E04_static, 700, 12000, "element matrices of more than one entry"){ exact_case(s, c, false, s.range(NODE, PNTX), PP); }
// barycentric and Cartesian coordinates of the same points
PBT_PROP(E04_forms, 500, 8000, "point sets of at least two points"){
    bool rt = s.chance(2, 3); Case K; make_case(s, c, K, rt, PNTX, 1, PP); c.nontrivial(K.J.q > 1); DynMem<> wm; 
    auto A = run_case(c, K, DYN, 0, &wm, false, "Cartesian"); K.J.fam = PNTL; auto B = run_case(c, K, DYN, 0, &wm, false, "barycentric");
    for (size_t i = 0; i < A.size(); ++i) c.near(A[i], B[i], 2*K.J.tol[0], [&]{ return fmt("entry %zu: Cartesian vs barycentric form", i); });
}
PBT_PROP(E02_rt, 900, 15000, "coefficient descriptions other than per point"){ int f = s.pick({3, 2, 1}) + 1; Case K; make_case(s, c, K, true, s.chance(1, 2) ? TET : any_fam(s), f, -1); c.nontrivial(K.J.trait != PP); DynMem<> wm; compare(c, K.J, run_case(c, K, pick_mem(s, K), s.below(32), &wm, false, "result"), "element matrix vs exact value"); }
PBT_PROP(E02_static, 700, 12000, "coefficient descriptions other than per point"){ int f = s.pick({3, 2, 1}) + 1; Case K; make_case(s, c, K, false, TET, f, -1, true); c.nontrivial(K.J.trait != PP); DynMem<> wm; compare(c, K.J, run_case(c, K, pick_mem(s, K), s.below(32), &wm, false, "result"), "element matrix vs exact value"); }
// the same coefficient through every admissible description
PBT_PROP(E02_same, 350, 5000, "at least three descriptions compared"){
    bool rt = s.flip(); int f = s.pick({2, 2, 1}) + 1; Case K; make_case(s, c, K, rt, rt && s.flip() ? any_fam(s) : TET, f, s.flip() ? (int)CGEN : (int)GEN, true); Job& J = K.J; DynMem<> wm; bool cst = J.trait == CGEN; int cls = IDC; for (int k: J.D.cls) cls = std::min(cls, k); bool one = true; for (int k: J.D.cls) if (k != J.D.cls[0]) one = false; bool sq = J.D.rows == J.D.cols;
    std::vector<int> T{PP, PT, GEN}; if (one){ T.push_back(PS); T.push_back(FUS); } if (sq && cls >= SYMC) T.push_back(SYM); if (cls >= SCALC) T.push_back(SCAL); if (cls >= IDC) T.push_back(NUL);
    if (cst){ T.insert(T.end(), {CPP, CPS, CGEN}); if (sq && cls >= SYMC) T.push_back(CSYM); if (cls >= SCALC) T.push_back(CSCAL); if (cls >= IDC) T.push_back(CNUL); }
    c.nontrivial(T.size() >= 3); c.label(fmt("%zu descriptions", T.size()));
    for (int t: T){ J.trait = t; compare(c, J, run_case(c, K, s.flip() ? DYN : EXACT, s.below(32), &wm, false, TRAIT_NAME[t]), std::string("described as ") + TRAIT_NAME[t]); }
}
// ---- batches
static Job sub(const Job& J, const std::vector<int>& id){
    Job r = J; r.f = (int)id.size(); r.cs.clear(); r.ref.clear(); r.tol.clear(); r.D.cls.clear(); r.D.m.clear(); for (auto& x: r.X) x.clear(); size_t bs = (size_t)J.na*J.nb;
    for (int i: id){ r.cs.push_back(J.cs[i]); r.D.cls.push_back(J.D.cls[i]); r.D.m.push_back(J.D.m[i]); r.tol.push_back(J.tol[i]); r.ref.insert(r.ref.end(), J.ref.begin() + bs*i, J.ref.begin() + bs*(i+1)); for (int k = 0; k < 4; ++k) r.X[k].insert(r.X[k].end(), J.X[k].begin() + 3*i, J.X[k].begin() + 3*i + 3); }
    return r;
}
PBT_PROP(E05_forms, 600, 9000, "batches of at least two cells"){
    bool rt = s.chance(2, 3); int f = s.range(2, 7); Case K; int fam = s.chance(1, 3) ? TET : s.range(FACE, PNTL); bool spec = !rt && fam == TET && s.flip(); make_case(s, c, K, rt, fam, f, rt || spec ? -1 : PP, spec); Job& J = K.J; c.nontrivial(f > 1); size_t bs = (size_t)J.na*J.nb; DynMem<> wm;
    auto A = run_case(c, K, pick_mem(s, K), s.below(32), &wm, false, "batch"); compare(c, J, A, "batch vs exact value"); Job full = J;
    if (s.flip()){ std::vector<int> p; int m = s.range(1, f); for (int i = 0; i < m; ++i) p.push_back((int)s.below(f)); J = sub(full, p); auto B = run_case(c, K, s.flip() ? DYN : EXACT, s.below(32), &wm, false, "reordered batch");
        for (size_t k = 0; k < p.size(); ++k) for (size_t i = 0; i < bs; ++i) c.near(B[bs*k + i], A[bs*p[k] + i], 1e-2*full.tol[p[k]], [&]{ return fmt("entry %zu of cell %d depends on its place in the batch", i, p[k]); }); }
    else for (int k = 0; k < f; ++k){ J = sub(full, {k}); auto B = run_case(c, K, DYN, 0, &wm, rt && J.trait == PP, "single"); for (size_t i = 0; i < bs; ++i) c.near(B[i], A[bs*k + i], 1e-2*full.tol[k], [&]{ return fmt("entry %zu of cell %d: batch vs single", i, k); }); }
}
// ---- memory
PBT_PROP(E06_forms, 600, 9000, "at least three ways of supplying memory compared"){
    bool rt = s.flip(); int f = s.pick({3, 1, 1}) + 1; Case K; int fam = any_fam(s); bool spec = !rt && s.flip(); make_case(s, c, K, rt, spec ? (int)TET : fam, f, rt || spec ? -1 : PP, spec); Job& J = K.J; std::vector<int> m{EXACT, RAW, DYN, EXACT, DYN};
    if (!rt && stack_ok(J)) m.push_back(STACK);
#ifdef WITH_EIGEN
    if (!rt && J.fam == TET && J.f == 1 && J.trait == PP && J.na <= 30 && J.nb <= 30 && J.order <= 6) m.push_back(EIGEN);
#endif
    c.nontrivial(); c.label(fmt("%d ways", (int)m.size())); DynMem<> shared; std::vector<double> A0;
    if (s.flip()){ Ani::DynMem<> t; auto ch = shared.alloc(s.range(1, 3000), s.range(0, 500), s.range(0, 20)); for (size_t i = 0; i < ch.m_mem.dSize; ++i) ch.m_mem.ddata[i] = NAN; }
    for (size_t k = 0; k < m.size(); ++k){ std::string w = std::string("memory ") + MEM_NAME[m[k]]; auto A = run_case(c, K, m[k], s.below(32), &shared, false, w); if (!k){ A0 = A; compare(c, J, A, w); } else for (size_t i = 0; i < A.size(); ++i) c.near(A[i], A0[i], 1e-2*J.tol[i/((size_t)J.na*J.nb)], [&]{ return w + fmt(": entry %zu differs from the one computed in exactly the wanted memory", i); }); }
}

// ---- values of a discrete function
#ifndef NO_APPLY
struct App { Job J; std::function<void(Call&)> run; std::shared_ptr<Ani::ApplyOpBase> U; Ani::FemSpace sp; bool rt = true; std::vector<double> dofs; int dim = 0; };
static int n_points(Src& s){ switch (s.pick({5, 2, 2, 2})){ case 0: return s.range(1, 5); case 1: return s.range(6, 24); case 2: return s.flip() ? 24 : 25; default: return s.range(26, 100); } }
static void make_app(Src& s, Ctx& c, App& K, bool rt, int fam, int f, int trait){
    Job& J = K.J; J.fam = fam; K.rt = rt; if (fam == APPX) f = 1; J.f = f; J.trait = trait; J.salt = s.below(1000);
    if (rt){ J.a = sp_for(s, 36); J.opa = any_op(s, J.a); K.sp = lib(J.a, s.flip()); K.U = std::make_shared<Ani::ApplyOpFromSpace>(K.sp.getOP_own((Ani::OperatorType)J.opa)); K.run = run_rt; }
    else { auto& S = s.of(st::all()); J.a = S.node; auto it = S.ops.begin(); std::advance(it, s.below(S.ops.size())); J.opa = it->first; K.run = it->second.app; }
    J.dA = ref::op_dim(J.opa, dim(J.a)); J.na = nfa(J.a); J.q = n_points(s);
    for (int r = 0; r < f; ++r) J.cs.push_back(tet(s, c, 0.01, r < 3));
    for (int i = 0; i < 4; ++i) for (auto& C: J.cs) J.X[i].insert(J.X[i].end(), C.p + 3*i, C.p + 3*i + 3);
    int rows = J.dA, dd = 0;
    if (trait != NOD){
        if (trait == PP || trait == PT || trait == GEN || trait == CGEN || trait == CPP || trait == FUS || trait == PS || trait == CPS) if (s.flip()) rows = s.range(1, 9);
        bool same = trait == PS || trait == CPS || trait == FUS || trait == CPP; int mincls = trait == SCAL || trait == CSCAL ? SCALC : trait == NUL || trait == CNUL ? IDC : 0; dd = is_const(trait) ? 0 : s.pick({3, 3, 2});
        J.D = coef(s, rows, J.dA, 0, f, dd, mincls, same, is_const(trait));
    }
    K.dim = rows; J.L = points(s, J.q);
    if (fam == APPX){ J.Xp.resize(3*J.q); for (int k = 0; k < J.q; ++k){ ld l[4]; lld(&J.L[4*k], l); auto x = J.cs[0].t.at(l); for (int i = 0; i < 3; ++i) J.Xp[3*k+i] = (double)x[i]; J.cs[0].t.bary({{J.Xp[3*k], J.Xp[3*k+1], J.Xp[3*k+2]}}, l); for (int i = 0; i < 4; ++i) J.L[4*k+i] = (double)l[i]; } }
    K.dofs.resize((size_t)J.na*f); bool single = s.chance(1, 4); int one = (int)s.below(J.na); for (int r = 0; r < f; ++r) for (int i = 0; i < J.na; ++i) K.dofs[i + (size_t)J.na*r] = single ? i == one : s.unit();
    J.ref.assign((size_t)rows*J.q*f, 0); J.tol.assign(f, 0);
    for (int r = 0; r < f; ++r){
        auto& C = J.cs[r]; auto m = model(J.a, C.t); ld SV = J.opa == ref::IDEN ? 1e-3L : 1e-3L/C.h, SD = 1; 
        for (int k = 0; k < J.q; ++k){
            ld l[4]; lld(&J.L[4*k], l); auto e = ref::eval(m, C.t, J.opa, l); std::vector<ld> v(J.dA, 0);
            for (int i = 0; i < J.na; ++i) for (int d = 0; d < J.dA; ++d){ v[d] += (ld)K.dofs[i + (size_t)J.na*r]*e[d + (size_t)J.dA*i]; SV = std::max(SV, fabsl(e[d + (size_t)J.dA*i])); }
            if (trait == NOD) for (int d = 0; d < rows; ++d) J.ref[d + (size_t)rows*(k + (size_t)J.q*r)] = (double)v[d];
            else { auto D = J.D.at(r, l); for (int a = 0; a < rows; ++a){ ld t = 0, n = 0; for (int b = 0; b < J.dA; ++b){ t += D[a*J.dA+b]*v[b]; n += fabsl(D[a*J.dA+b]); } SD = std::max(SD, n); J.ref[a + (size_t)rows*(k + (size_t)J.q*r)] = (double)t; } }
        }
        J.tol[r] = (double)(3e-9L*SV*SD)*J.na*(fam == APPX ? std::max(1.0, 1e-2/C.quality()) : 1.0);
    }
    c.note(fmt("%s %s at %d points of %d cells, %s, coefficient %s %dx%d deg %d", ref::op_name(J.opa), str(J.a).c_str(), J.q, f, FAM_NAME[fam], TRAIT_NAME[trait], rows, J.dA, dd));
    c.label(FAM_NAME[fam]); c.label(J.q > 24 ? "more points than a block" : "points within a block"); c.label(std::string("coefficient ") + TRAIT_NAME[trait]); c.label(kind_name(J.a));
}
// returns rows*q x f values
static std::vector<double> run_app(Ctx& c, App& K, int mem, uint64_t fill, DynMem<>* wm, bool tetra, const std::string& what){
    Job& J = K.J; Call k; set_call(J, k, c); k.mem = mem; k.fill = fill; k.wm = wm; k.tetra = tetra; k.U = K.U.get(); k.dofs = K.dofs; k.dd1 = K.dim; size_t n = (size_t)K.dim*J.q*J.f;
    std::vector<double> buf(n + 8, -4.25e200); k.A = buf.data(); k.asz = n; J.okcb = true; auto L0 = k.L; K.run(k);
    c.ok(k.mem_error.empty(), [&]{ return what + ": " + k.mem_error; }); c.ok(J.okcb, [&]{ return what + ": " + J.cberr; });
    c.ok((int)k.nRow == K.dim*J.q && (int)k.nCol == J.f, [&]{ return what + fmt(": result is %zux%zu, expected %dx%d", k.nRow, k.nCol, K.dim*J.q, J.f); });
    for (size_t i = n; i < buf.size(); ++i) c.ok(buf[i] == -4.25e200, what + ": wrote beyond the result");
    c.ok(k.dofs == K.dofs, what + ": changed the degrees of freedom"); c.ok(k.L == L0 && k.X == J.Xp, what + ": changed the points");
    buf.resize(n); return buf;
}
static void compare_app(Ctx& c, App& K, const std::vector<double>& A, const std::string& what){
    size_t bs = (size_t)K.dim*K.J.q; for (int r = 0; r < K.J.f; ++r) for (size_t i = 0; i < bs; ++i) c.near(A[bs*r + i], K.J.ref[bs*r + i], K.J.tol[r], [&]{ return what + fmt(": cell %d point %zu component %zu", r, i/K.dim, i % K.dim); });
}
static int app_trait(Src& s){ return s.flip() ? (int)NOD : (int)s.below(NTRAIT); }
static bool app_stack(const App& K, bool tetra){ return !K.rt && K.J.f <= 3 && K.J.na <= 30 && K.J.q <= (K.J.fam == APPX && tetra ? 12 : 24); }
static void app_case(Src& s, Ctx& c, bool rt){
    App K; int f = s.pick({4, 1, 1}) + 1; make_app(s, c, K, rt, s.flip() ? APPL : APPX, f, rt ? app_trait(s) : (int)NOD); bool tetra = K.J.f == 1 && (K.J.trait == NOD || K.J.trait == PP) && s.flip(); std::vector<int> m{DYN, EXACT, RAW}; if (app_stack(K, tetra)) m.push_back(STACK);
    int mem = s.of(m); DynMem<> wm; c.note(MEM_NAME[mem]); c.label(std::string("memory ") + MEM_NAME[mem]); compare_app(c, K, run_app(c, K, mem, s.below(32), &wm, tetra, "values"), "values of a discrete function"); c.nontrivial(K.J.na > 1);
}
PBT_PROP(E07_rt, 1200, 20000, "functions of more than one degree of freedom"){ app_case(s, c, true); }
PBT_PROP(E07_static, 1000, 15000, "functions of more than one degree of freedom"){ app_case(s, c, false); }
// barycentric and Cartesian coordinates; coefficient and no coefficient
PBT_PROP(E07_forms, 500, 8000, "at least two points"){
    App K; bool rt = s.chance(2, 3); make_app(s, c, K, rt, APPX, 1, rt && s.flip() ? (int)NUL : (int)NOD); DynMem<> wm; c.nontrivial(K.J.q > 1); auto A = run_app(c, K, DYN, 0, &wm, false, "Cartesian"); K.J.fam = APPL; auto B = run_app(c, K, DYN, 0, &wm, false, "barycentric"); K.J.trait = NOD; auto C = run_app(c, K, DYN, 0, &wm, false, "without coefficient");
    for (size_t i = 0; i < A.size(); ++i){ c.near(A[i], B[i], 2*K.J.tol[0], [&]{ return fmt("value %zu: Cartesian vs barycentric", i); }); c.near(C[i], B[i], 2*K.J.tol[0], [&]{ return fmt("value %zu: unit coefficient vs none", i); }); }
}
// the versions without memory refuse more points or cells than they have room for
PBT_PROP(E07_limits, 300, 3000, "more points than the version without memory has room for"){
    App K; make_app(s, c, K, false, s.flip() ? APPL : APPX, 1, NOD); Job& J = K.J; s.assume(J.na <= 30); bool tetra = J.fam == APPX && s.flip(); int lim = tetra ? 12 : 24; s.assume(J.q > lim); c.nontrivial(); DynMem<> wm; bool thrown = false; std::vector<double> A;
    try { A = run_app(c, K, STACK, 0, &wm, tetra, "values"); } catch (const std::runtime_error&) { thrown = true; }
    if (!thrown) compare_app(c, K, A, fmt("%d points accepted", J.q));
}
PBT_PROP(E05_apply, 500, 8000, "batches of at least two cells"){
    App K; bool rt = s.flip(); int f = s.range(2, 7); make_app(s, c, K, rt, APPL, f, rt ? app_trait(s) : (int)NOD); c.nontrivial(); DynMem<> wm; auto A = run_app(c, K, s.flip() ? DYN : EXACT, s.below(32), &wm, false, "batch"); compare_app(c, K, A, "batch"); size_t bs = (size_t)K.dim*K.J.q; auto J0 = K.J; auto d0 = K.dofs;
    std::vector<int> p; int m = s.range(1, f); for (int i = 0; i < m; ++i) p.push_back((int)s.below(f)); if (s.flip()) p.resize(1);
    Job& J = K.J; J.f = (int)p.size(); J.cs.clear(); for (auto& x: J.X) x.clear(); K.dofs.clear(); if (J.trait != NOD){ J.D.cls.clear(); J.D.m.clear(); }
    for (int i: p){ J.cs.push_back(J0.cs[i]); if (J.trait != NOD){ J.D.cls.push_back(J0.D.cls[i]); J.D.m.push_back(J0.D.m[i]); } for (int k = 0; k < 4; ++k) J.X[k].insert(J.X[k].end(), J0.X[k].begin() + 3*i, J0.X[k].begin() + 3*i + 3); K.dofs.insert(K.dofs.end(), d0.begin() + (size_t)J.na*i, d0.begin() + (size_t)J.na*(i+1)); }
    auto B = run_app(c, K, s.flip() ? DYN : EXACT, s.below(32), &wm, J.f == 1 && (J.trait == NOD || J.trait == PP), "part of the batch");
    for (size_t k = 0; k < p.size(); ++k) for (size_t i = 0; i < bs; ++i) c.near(B[bs*k + i], A[bs*p[k] + i], 1e-2*J0.tol[p[k]], [&]{ return fmt("value %zu of cell %d depends on its place in the batch", i, p[k]); });
}
PBT_PROP(E06_apply, 500, 8000, "at least three ways of supplying memory compared"){
    App K; bool rt = s.flip(); int f = s.pick({3, 1, 1}) + 1; make_app(s, c, K, rt, s.flip() ? APPL : APPX, f, rt ? app_trait(s) : (int)NOD); std::vector<int> m{EXACT, RAW, DYN, EXACT, DYN}; if (app_stack(K, false)) m.push_back(STACK); c.nontrivial(); DynMem<> shared; std::vector<double> A0;
    for (size_t k = 0; k < m.size(); ++k){ std::string w = std::string("memory ") + MEM_NAME[m[k]]; auto A = run_app(c, K, m[k], s.below(32), &shared, false, w); if (!k){ A0 = A; compare_app(c, K, A, w); } else for (size_t i = 0; i < A.size(); ++i) c.near(A[i], A0[i], 1e-2*K.J.tol[i/((size_t)K.dim*K.J.q)], [&]{ return w + fmt(": value %zu differs from the one computed in exactly the wanted memory", i); }); }
}
#endif
