// U04: metrics for adaptation of a mesh - built from a variable and compared with a model made of the definitions.
#include "fields.h"
#include "anifem++/utils/adapt_mesh.h"
typedef std::array<std::array<ld, 3>, 3> M3;
struct Spec { ld l[3]; M3 q; };             // values in ascending order, vectors in columns
static Spec spectrum(M3 a){ Spec s; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) s.q[i][j] = i == j; for (int it = 0; it < 60; ++it){ ld off = 0, sc = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j){ sc = std::max(sc, fabsl(a[i][j])); if (i != j) off = std::max(off, fabsl(a[i][j])); } if (off <= 1e-30L*sc) break;
        for (int p = 0; p < 2; ++p) for (int q = p + 1; q < 3; ++q) if (a[p][q] != 0){ ld th = (a[q][q] - a[p][p])/(2*a[p][q]), t = (th >= 0 ? 1 : -1)/(fabsl(th) + sqrtl(1 + th*th)), c = 1/sqrtl(1 + t*t), n = t*c; for (int k = 0; k < 3; ++k){ ld x = a[k][p], y = a[k][q]; a[k][p] = c*x - n*y; a[k][q] = n*x + c*y; } for (int k = 0; k < 3; ++k){ ld x = a[p][k], y = a[q][k]; a[p][k] = c*x - n*y; a[q][k] = n*x + c*y; } for (int k = 0; k < 3; ++k){ ld x = s.q[k][p], y = s.q[k][q]; s.q[k][p] = c*x - n*y; s.q[k][q] = n*x + c*y; } } }
    for (int i = 0; i < 3; ++i) s.l[i] = a[i][i]; for (int i = 0; i < 3; ++i) for (int j = i + 1; j < 3; ++j) if (s.l[j] < s.l[i]){ std::swap(s.l[i], s.l[j]); for (int k = 0; k < 3; ++k) std::swap(s.q[k][i], s.q[k][j]); } return s; }
static M3 build(const Spec& s){ M3 a; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j){ a[i][j] = 0; for (int k = 0; k < 3; ++k) a[i][j] += s.q[i][k]*s.l[k]*s.q[j][k]; } return a; }
static M3 eye(ld x){ M3 a; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a[i][j] = i == j ? x : 0; return a; }
static void order(Spec& s){ for (int i = 0; i < 3; ++i) for (int j = i + 1; j < 3; ++j) if (s.l[j] < s.l[i]){ std::swap(s.l[i], s.l[j]); for (int k = 0; k < 3; ++k) std::swap(s.q[k][i], s.q[k][j]); } }
static bool clamp(Spec& s, const MetricsConstructTraits& t){ bool ch = false; for (ld& x: s.l){ ld y = std::min<ld>(t.M_lambda_max, std::max<ld>(t.M_lambda_min, x)); ch = ch || y != x; x = y; } order(s); ld R = std::max(t.M_lambda_max_rel, 1.0); if (s.l[2] > R*(1 + 1e-9L*R)*s.l[0]){ ch = true; ld g = cbrtl(s.l[0]*s.l[1]*s.l[2]); for (ld& x: s.l){ x = g*std::min(sqrtl(R), std::max(1/sqrtl(R), x/g)); x = std::min<ld>(t.M_lambda_max, std::max<ld>(t.M_lambda_min, x)); } order(s); } return ch; }
static M3 metric(const M3& H, const MetricsConstructTraits& t){ Spec s = spectrum(H); clamp(s, t); ld d = powl(s.l[0]*s.l[1]*s.l[2], -0.2L); for (ld& x: s.l) x *= d; return build(s); }
// |H| of a cell, its spectrum, how exact they are
struct CellH { M3 a; ld s[3]; bool degenerate = true, zero = false, unsure = false; ld vol, noise = 0, rel = 0; };
static CellH cell_H(const gen::Node& n, const gen::Cell& C, std::vector<double> d, const MetricsConstructTraits& tr){
    CellH r; r.vol = C.t.vol(); r.a = eye(0); for (ld& x: r.s) x = 0; ld sum = 0; for (double x: d) sum += std::fabs(x); if (sum == 0){ r.zero = true; return r; } auto M = gen::model(n, C.t); int N = M.nfa(); static const int all[4] = {0, 1, 2, 3}; int p = gen::order(n);
    std::vector<ld> B; if (tr.distrib_heuristics){ B.assign((size_t)N*N, 0); for (auto& q: ref::quad(3, all, std::max(1, 2*p - 2))){ auto e = ref::eval(M, C.t, ref::GRAD, q.l); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int k = 0; k < 3; ++k) B[i + (size_t)N*j] += q.w*e[k + 3*i]*e[k + 3*j]; } }
    std::vector<ld> G(12*(size_t)N, 0); ref::V3 nn[4]; for (int f = 0; f < 4; ++f){ const int* F = ref::FACE[f]; auto cr = ref::cross(C.t.x[F[1]] - C.t.x[F[0]], C.t.x[F[2]] - C.t.x[F[0]]); int o = 6 - F[0] - F[1] - F[2]; ld area = sqrtl(ref::dot(cr, cr))/2; ld sg = ref::dot(cr, C.t.x[o] - C.t.x[F[0]]) > 0 ? -1 : 1; nn[f] = (sg/(2*area))*cr; for (auto& q: ref::quad(2, F, std::max(1, p - 1))){ auto e = ref::eval(M, C.t, ref::GRAD, q.l); for (int i = 0; i < N; ++i) for (int k = 0; k < 3; ++k) G[(f*(size_t)N + i)*3 + k] += q.w*area*e[k + 3*i]; } }
    auto calc = [&](M3& A, ld* sv, ld& noise, ld& rel){ std::vector<ld> al(N); ld sa = 0, bd = 0, bs = 0; for (double x: d) sa += std::fabs(x); rel = 1e-13L; if (!tr.distrib_heuristics) for (int i = 0; i < N; ++i) al[i] = d[i]; else { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j){ ld t = B[i + (size_t)N*j]*d[i]*d[j]; bd += t; bs += fabsl(t); } for (int i = 0; i < N; ++i) al[i] = std::fabs(d[i])*fabsl(bd)/sa; rel += bd != 0 ? 1e-13L*bs/fabsl(bd) : 1; }
        M3 H = eye(0); noise = 0; for (int f = 0; f < 4; ++f){ ld x[3] = {nn[f][0], nn[f][1], nn[f][2]}; for (int j = 0; j < 3; ++j){ ld I = 0, as = 0; for (int k = 0; k < N; ++k){ ld t = -0.5L*al[k]*G[(f*(size_t)N + k)*3 + j]; I += t; as += fabsl(t); } for (int i = 0; i < 3; ++i) H[i][j] += x[i]*I/r.vol; noise += 1e-13L*as/r.vol; } } for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) H[i][j] = H[j][i] = (H[i][j] + H[j][i])/2; Spec s = spectrum(H); for (ld& x: s.l) x = fabsl(x); order(s); A = build(s); for (int k = 0; k < 3; ++k) sv[k] = s.l[k]; };
    auto judge = [&](const ld* s, ld noise, bool& unsure){ if (s[2] <= 1e3L*noise){ unsure = true; return true; } ld lo = std::max<ld>(0, s[0] - noise), hi = s[0] + noise; ld R = tr.H_lambda_max_rel; bool a = !(lo > 0) || (s[2] + noise)/lo > R*(1 + 1e-9L), b = (s[2] - noise)/hi > R*(1 - 1e-9L); if (a != b) unsure = true; return b; };
    calc(r.a, r.s, r.noise, r.rel); r.degenerate = judge(r.s, r.noise, r.unsure); if (r.degenerate && !r.unsure){ int im = 0; for (int i = 1; i < N; ++i) if (std::fabs(d[i]) > std::fabs(d[im])) im = i; d[im] *= tr.alpha_boost; M3 A; ld s[3], no, re; calc(A, s, no, re); bool dg = judge(s, no, r.unsure); if (!dg){ r.degenerate = false; r.a = A; for (int k = 0; k < 3; ++k) r.s[k] = s[k]; r.noise = no; r.rel = re; } } return r; }
struct Answer { M3 m; ld tol; };
// the clamping is not continuous where the ratio reaches its bound
static bool edge(const CellH& h, const MetricsConstructTraits& t){ ld R = std::max(t.M_lambda_max_rel, 1.0), b = std::max<ld>(t.M_lambda_min, h.s[0]), e = std::min<ld>(t.M_lambda_max, h.s[2]); return b > 0 && fabsl(e/b/R - 1) < 2e-9L*R + 1e-6L + 4*h.noise/b; }
static MetricsConstructTraits traits(Src& s, int p){ MetricsConstructTraits t; t.distrib_heuristics = s.flip(); t.vertex_projection_strategy = s.range(0, 1); t.max_quad_order = std::max(1, t.distrib_heuristics ? 2*p - 2 : p - 1) + (s.chance(1, 4) ? 1 : 0); if (t.max_quad_order <= 1 && s.flip()) t.max_quad_order = s.range(-1, 1); static const std::vector<double> rel{1e2, 1e2, 3, 1, 0.5, 1e4}, hrel{1e7, 1e7, 30, 4}, boost{1.01, 1, 1.5}, iso{1, 1, 0.02, 300}; if (s.chance(1, 3)) t.M_lambda_min = s.of(std::vector<double>{1e-3, 0.3, 1e-8}); if (s.chance(1, 3)) t.M_lambda_max = s.of(std::vector<double>{1e3, 2, 1e7}); t.M_lambda_max_rel = s.of(rel); t.H_lambda_max_rel = s.of(hrel); t.alpha_boost = s.of(boost); t.isotropic_fallback = s.of(iso); t.verbosity = s.chance(1, 4); return t; }
// an inner function: acceptable metrics of a node; nothing if they can not be told exactly
static bool answers(const std::vector<const CellH*>& patch, bool any, const MetricsConstructTraits& tr, std::vector<Answer>& r){
    auto rel = [&](const CellH& h){ return 1e-10L + 50*(h.noise/std::max<ld>(h.s[2], 1e-290L) + h.rel)*std::min<ld>(1e9L, h.s[2]/std::max<ld>(h.s[0], tr.M_lambda_min)); }; if (patch.empty()){ r.push_back({eye(tr.isotropic_fallback), 1e-12L}); return true; } int ok = 0; for (auto* h: patch){ if (h->unsure || edge(*h, tr)) return false; ok += !h->degenerate; }
    if (ok && tr.vertex_projection_strategy == 0){ ld best = -1; for (auto* h: patch) if (!h->degenerate) best = std::max(best, h->s[0]*h->s[1]*h->s[2]); for (auto* h: patch) if (!h->degenerate && h->s[0]*h->s[1]*h->s[2] >= best*(1 - 3*(rel(*h) + 1e-9L))) r.push_back({metric(h->a, tr), rel(*h)}); return true; }
    if (ok){ M3 L = eye(0); ld tol = 0; for (auto* h: patch) if (!h->degenerate){ Spec s = spectrum(metric(h->a, tr)); for (ld& x: s.l) x = logl(x); auto l = build(s); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) L[i][j] += l[i][j]/ok; tol = std::max(tol, 30*rel(*h)); } Spec s = spectrum(L); for (ld& x: s.l) x = expl(x); r.push_back({build(s), tol*std::min<ld>(1e9L, s.l[2]/s.l[0])}); return true; }
    ld thr = tr.M_lambda_min; int nz = -1; ld pr = -1; for (auto* h: patch){ int n = 0; ld p = 1; for (ld x: h->s){ if (fabsl(x - thr) <= 1e-6L*thr + 2*h->noise) return false; if (x > thr){ ++n; p *= x; } } if (!n) p = 0; if (n > nz || (n == nz && p > pr)){ nz = n; pr = p; } }
    if (nz > 0){ for (auto* h: patch){ int n = 0; ld p = 1, lo = 1e300L; for (ld x: h->s) if (x > thr){ ++n; p *= x; lo = std::min(lo, x); } if (n != nz || p < pr*(1 - 1e-8L)) continue; Spec s = spectrum(h->a); for (ld& x: s.l) if (!(x > thr)) x = lo; order(s); r.push_back({metric(build(s), tr), 1e-10L + 50*(h->noise/lo + h->rel)*std::min<ld>(1e9L, h->s[2]/lo)}); } return true; }
    if (!any){ r.push_back({eye(tr.isotropic_fallback), 1e-12L}); return true; } ld w = 0, x = 0, tol = 1e-10L; for (auto* h: patch) if (h->s[2] > 0){ x += h->vol*h->s[2]; w += h->vol; tol += h->rel + 10*h->noise/h->s[2]; } r.push_back({eye(w > 0 ? x/w : tr.isotropic_fallback), tol}); return true; }
static std::string about(const std::vector<const CellH*>& p){ std::string r; for (auto* h: p) r += fmt(" |H| %g %g %g%s%s", (double)h->s[0], (double)h->s[1], (double)h->s[2], h->degenerate ? " degenerate" : "", h->unsure ? " unsure" : ""); return r; }
static gen::Node scalar(Src& s){ using namespace gen; static const std::vector<int> U = {ref::P1, ref::P2, ref::P2, ref::P2, ref::P3, ref::P3, ref::CR1}; int e = s.of(U); return s.chance(1, 4) ? Sum({E(e), E(ref::B4)}) : E(e); }
PBT_PROP(U04_metric_is_made_of_hessians_of_cells, 1500, 20000, "at least two cells, a variable with Hessians that are not zero and a node where the metric is known exactly"){
    Grid g = s.flip() ? grid::make(s, c) : grid::box(s, c, 10); auto* m = g.m.get(); if (s.flip()) ids(g); auto n = scalar(s); auto f = gen::lib(n, true); auto tr = traits(s, gen::order(n)); c.note(gen::str(n) + fmt(" heuristics %d strategy %d ratio %g bounds %g %g degenerate %g boost %g", (int)tr.distrib_heuristics, tr.vertex_projection_strategy, tr.M_lambda_max_rel, tr.M_lambda_min, tr.M_lambda_max, tr.H_lambda_max_rel, tr.alpha_boost)); c.label(gen::str(n));
    Tag v = createFemVarTag(m, *dmap(f), "var", s.chance(3, 4)); scatter(s, g, v); double amp = s.of(std::vector<double>{1, 1, 1e-4, 1e5, 1e-7}); int zeros = s.pick({4, 2, 1}); if (zeros) c.label("cells without data"); uint64_t seed = s.below(1 << 20); for (int d = 0; d < 4; ++d) if (v.isDefined(1u << d)) for (auto& p: g.parts[d]){ auto a = g.el(p).RealArray(v); bool z = zeros == 2; seed = pbt::mix(seed); if (zeros == 1) for (int x: p.v) z = z || x % 3 != 0 || seed % 7 == 0; for (unsigned i = 0; i < a.size(); ++i) a[i] *= z ? 0 : amp; }
    if (s.chance(1, 4)){ c.label("polynomial"); Fld u{pol(s, frame(g), 3)}; Mute mu; auto mem = f.interpolateByDOFs_mem_req(); (void)mem; for (auto& p: g.parts[0]) if (v.isDefined(1)){ auto a = g.el(p).RealArray(v); if (a.size()) a[0] = amp*(double)u[0].at(g.x[p.id]); } }
    std::set<HandleType> hid; if (s.chance(1, 5)){ c.label("hidden cells"); for (auto& p: g.parts[3]) if (s.chance(1, 3)){ hid.insert(p.h); m->slot(p.h).hidden = true; } }
    int kind = s.range(0, 3); Tag t = kind == 0 ? m->CreateTag("metrics", INMOST::DATA_REAL, INMOST::NODE, INMOST::NONE, 6) : kind == 1 ? m->CreateTag("metrics", INMOST::DATA_REAL, INMOST::NODE|INMOST::CELL, INMOST::NONE, 8) : kind == 2 ? m->CreateTag("metrics", INMOST::DATA_REAL, INMOST::NODE, INMOST::NONE, ENUMUNDEF) : m->CreateTag("metrics", INMOST::DATA_REAL, INMOST::CELL, INMOST::NONE, 6); if (kind < 2) for (auto& p: g.parts[0]) for (double& x: g.el(p).RealArray(t)) x = KEEP; if (kind == 2) for (auto& p: g.parts[0]){ int k = (int)s.below(9); g.el(p).RealArray(t).resize(k); for (double& x: g.el(p).RealArray(t)) x = KEEP; }
    std::map<HandleType, std::vector<double>> before; for (int d = 0; d < 4; ++d) if (v.isDefined(1u << d)) for (auto& p: g.parts[d]){ auto a = g.el(p).RealArray(v); before[p.h].assign(a.begin(), a.end()); } size_t live = m->live_tags(); Tag out = t; std::string said; { Mute mu; construct_metrics(f, v, out, tr); said = mu.b.str(); }
    c.ok(out == t && out.isDefined(INMOST::NODE), "the tag of the metric"); c.ok(m->live_tags() == live, "a temporary tag is left"); for (auto& b: before){ auto a = INMOST::Element(m, b.first).RealArray(v); c.ok(std::vector<double>(a.begin(), a.end()) == b.second, "the variable is changed"); }
    ids(g); Assembler as(m); describe(as, {f}); std::map<HandleType, CellH> H; bool any = false, sure = true; int nzero = 0, ndeg = 0, cells = 0; for (auto& p: g.parts[3]) if (!hid.count(p.h)){ auto C = tetra(g, nodes(g, p)); std::vector<double> d(gen::nfa(n)); as.GatherDataOnElement(v, INMOST::Cell(m, p.h), d.data()); auto h = cell_H(n, C, d, tr); ++cells; nzero += h.zero; ndeg += h.degenerate; sure = sure && !h.unsure; any = any || h.s[2] > 0; H[p.h] = h; }
    int known = 0; for (auto& p: g.parts[0]){ auto a = g.el(p).RealArray(t); c.ok(a.size() >= 6, "size of the metric"); for (unsigned k = 6; k < a.size(); ++k) c.ok(a[k] == KEEP, "numbers after the metric are changed"); M3 A; A[0] = {a[0], a[3], a[5]}; A[1] = {a[3], a[1], a[4]}; A[2] = {a[5], a[4], a[2]}; for (int k = 0; k < 6; ++k) c.ok(std::isfinite(a[k]), "a metric is not finite");
        Spec s = spectrum(A); ld e = 1e-11L*s.l[2]; c.ok(s.l[0] >= tr.M_lambda_min*(1 - 1e-9L) - e && s.l[2] <= tr.M_lambda_max*(1 + 1e-9L), [&]{ return fmt("spectrum of the metric %g ... %g is out of its bounds %g ... %g", (double)s.l[0], (double)s.l[2], tr.M_lambda_min, tr.M_lambda_max); }); c.ok(s.l[2] <= std::max(1.0, tr.M_lambda_max_rel)*(s.l[0] + e)*(1 + 1e-9L), "ratio of the spectrum");
        std::vector<const CellH*> patch; for (auto& q: g.parts[3]) if (std::count(q.v.begin(), q.v.end(), p.id) && !hid.count(q.h)) patch.push_back(&H[q.h]); std::vector<Answer> r; if ((!sure && patch.size() && std::all_of(patch.begin(), patch.end(), [](const CellH* h){ return h->degenerate; })) || !answers(patch, any, tr, r)) continue; ld worst = 1e300L, ex = 0, gt = 0; bool good = false, blur = false; for (auto& x: r){ if (x.tol > 1e-3L) blur = true; Spec q = spectrum(x.m); clamp(q, tr); auto B = build(q); ld dif = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) dif = std::max(dif, fabsl(A[i][j] - B[i][j])); good = good || dif <= x.tol*q.l[2]; if (dif < worst){ worst = dif; ex = q.l[2]; gt = x.tol; } } if (blur) continue; if (any && patch.size()) ++known; c.ok(good, [&]{ return fmt("metric at node %d: differs by %g of %g (tolerance %g), %d cells:", p.id, (double)worst, (double)ex, (double)(gt*ex), (int)patch.size()) + about(patch); }); }
    c.nontrivial(g.parts[3].size() > 1 && any && known > 0); if (tr.verbosity && sure){ c.ok(said.find(fmt("cells=%d nodes=%d zero_dof_cells=%d", cells, (int)g.parts[0].size(), nzero)) != std::string::npos, "printed numbers"); c.ok(said.find(fmt("degenerate_|H|=%d ", ndeg)) != std::string::npos, "printed number of degenerate cells"); } if (!tr.verbosity) c.ok(said.empty(), "printed without a request");
}
PBT_PROP(U04_wrong_arguments_are_refused, 300, 2000, "an argument which can not be used"){
    Grid g = grid::make(s, c, 2); auto* m = g.m.get(); ids(g); auto n = gen::E(ref::P2); auto f = gen::lib(n, true); Tag v = createFemVarTag(m, *dmap(f), "var"), t = m->CreateTag("metrics", INMOST::DATA_REAL, INMOST::NODE, INMOST::NONE, 6); scatter(s, g, v); for (auto& p: g.parts[0]) for (double& x: g.el(p).RealArray(t)) x = KEEP; MetricsConstructTraits tr; int w = s.range(0, 4); c.note(fmt("case %d", w)); c.nontrivial(true); size_t live = m->live_tags(); bool thrown = false; Tag none; Mute mu;
    try { if (w == 0) construct_metrics(f, v, none, tr); else if (w == 1) construct_metrics(f, none, t, tr); else if (w == 2) construct_metrics(f^s.range(2, 3), v, t, tr); else if (w == 3){ tr.vertex_projection_strategy = s.flip() ? 2 : -1; construct_metrics(f, v, t, tr); } else construct_metrics(FemSpace{RT0Space{}}, v, t, tr); } catch (std::runtime_error&){ thrown = true; } c.ok(thrown, "no error"); c.ok(m->live_tags() == live, "a temporary tag is left"); for (auto& p: g.parts[0]) for (double x: g.el(p).RealArray(t)) c.ok(x == KEEP, "the metric is changed");
}
