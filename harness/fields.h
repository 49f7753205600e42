// Functions on generated meshes: polynomials, those that belong to a space, values of variables, cells as the library orders them.
#pragma once
#include "anifem++/utils/utils.h"
#include "kept.h"
#include "femgen.h"
#include <sstream>
typedef ref::ld ld; typedef std::array<double, 3> P3; typedef std::array<HandleType, 4> N4;
struct Mute { std::streambuf *o, *e; std::ostringstream b; Mute(): o(std::cout.rdbuf()), e(std::cerr.rdbuf()) { std::cout.rdbuf(b.rdbuf()); std::cerr.rdbuf(b.rdbuf()); } ~Mute(){ std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
// ---- polynomials of the coordinates ------------------------------------------------------------------------------
struct Pol { std::vector<ld> c; P3 x0{}; double h = 1; Pol(): c(ref::NM, 0) {}
    void y(const P3& x, ld* l) const { l[0] = 0; for (int k = 0; k < 3; ++k) l[k+1] = ((ld)x[k] - x0[k])/h; }
    ld at(const P3& x) const { ld l[4], r = 0; y(x, l); auto m = ref::monos(l); for (int i = 0; i < ref::NM; ++i) r += c[i]*m.v[i]; return r; }
    std::array<ld, 3> grad(const P3& x) const { ld l[4]; std::array<ld, 3> r{}; y(x, l); auto m = ref::monos(l); for (int k = 0; k < 3; ++k){ for (int i = 0; i < ref::NM; ++i) r[k] += c[i]*m.d[k][i]; r[k] /= h; } return r; }
    Pol d(int k) const { Pol r; r.x0 = x0; r.h = h; auto& m = ref::mono(); for (int i = 0; i < ref::NM; ++i) if (c[i] != 0 && m.e[i][k]){ int e[3] = {m.e[i][0], m.e[i][1], m.e[i][2]}; ld t = c[i]*e[k]/h; --e[k]; r.c[m.id[e[0]][e[1]][e[2]]] += t; } return r; } };
typedef std::vector<Pol> Fld;
struct Frame { P3 x0{}; double h = 1; }; 
static Frame frame(const Grid& g){ Frame f; for (auto& x: g.x) for (int k = 0; k < 3; ++k) f.x0[k] += x[k]/g.x.size(); f.h = 0; for (auto& x: g.x) for (int k = 0; k < 3; ++k) f.h = std::max(f.h, std::fabs(x[k] - f.x0[k])); return f; }
static Pol pol(Src& s, const Frame& f, int deg){ Pol p; p.x0 = f.x0; p.h = f.h; for (int i = 0; i < ref::nmono(deg); ++i) if (s.chance(3, 4)) p.c[i] = s.unit(); return p; }
static Fld fld(Src& s, const Frame& f, int dim, int deg){ Fld r; for (int i = 0; i < dim; ++i) r.push_back(pol(s, f, deg)); return r; }
static double big(const Fld& u){ ld r = 1e-6; for (auto& p: u){ ld a = 0; for (ld c: p.c) a += fabsl(c); r = std::max(r, a); } return (double)r; }
static bool varies(const Fld& u){ for (auto& p: u) for (int i = 1; i < ref::NM; ++i) if (p.c[i] != 0) return true; return false; }
// polynomials that belong to a space on the whole mesh
static Fld member(Src& s, const Frame& f, const gen::Node& n){
    if (n.kind == gen::VEC || n.kind == gen::PROD){ Fld r; int k = n.kind == gen::VEC ? n.k : (int)n.ch.size(); for (int i = 0; i < k; ++i){ auto q = member(s, f, n.kind == gen::VEC ? n.ch[0] : n.ch[i]); r.insert(r.end(), q.begin(), q.end()); } return r; }
    if (n.kind == gen::UNION){ for (auto& c: n.ch) if (!gen::has_el(c, ref::B4) && !gen::has_el(c, ref::B2)) return member(s, f, c); }
    switch (n.el){ case ref::P0: return fld(s, f, 1, 0); case ref::P1: case ref::CR1: return fld(s, f, 1, 1); case ref::P2: return fld(s, f, 1, 2); case ref::P3: return fld(s, f, 1, 3);
        case ref::RT0: { Fld r = fld(s, f, 3, 0); double b = s.unit(); for (int k = 0; k < 3; ++k) r[k].c[k+1] = b; return r; }
        case ref::ND0: { Fld r = fld(s, f, 3, 0); for (int k = 0; k < 3; ++k){ double w = s.unit(); int a = (k+1)%3, b = (k+2)%3; r[b].c[a+1] += w; r[a].c[b+1] -= w; } return r; } }
    return fld(s, f, gen::dim(n), 0);
}
static gen::Node cont(Src& s, bool cr = true){ using namespace gen; static const std::vector<int> U = {ref::P1, ref::P2, ref::P3, ref::CR1}; int e = s.of(U); if (e == ref::CR1 && !cr) e = ref::P2; return s.chance(1, 4) ? Sum({E(e), E(ref::B4)}) : E(e); }
static gen::Node mesh_space(Src& s, int depth = 2, int nfa = 40){ using namespace gen;
    for (int k = 0; k < 20; ++k){ gen::Node n; int w = depth ? s.pick({4, 2, 2}) : 0; if (w == 0){ static const std::vector<int> el = {ref::P0, ref::P1, ref::P2, ref::P3, ref::CR1, ref::RT0, ref::ND0}; n = s.chance(1, 5) ? cont(s) : E(s.of(el)); } else if (w == 1) n = Vec(mesh_space(s, depth - 1, nfa), s.range(2, 3)); else n = Prod({mesh_space(s, depth - 1, nfa), mesh_space(s, depth - 1, nfa)}); if (gen::nfa(n) <= nfa) return n; }
    return E(ref::P1); }
static P3 xyz(const Grid& g, HandleType h){ return g.x[g.vertex(h)]; }
static N4 nodes(const Grid& g, const Part& cell){ N4 n; INMOST::HandleType e[6], f[4]; INMOST::Cell c(g.m.get(), cell.h); collectConnectivityInfo(c, n.data(), e, f, true, false); return n; }
static gen::Cell tetra(const Grid& g, const N4& n){ gen::Cell c; for (int i = 0; i < 4; ++i){ auto x = xyz(g, n[i]); std::copy(x.begin(), x.end(), c.p + 3*i); } c.set(); return c; }
static P3 point(const gen::Cell& C, const double* l){ P3 x{}; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) x[k] += l[i]*C.p[3*i+k]; return x; }
static const BaseDofMap* dmap(const FemSpace& f){ return f.dofMap().target<>(); }
static void ids(const Grid& g){ g.m->AssignGlobalID(INMOST::NODE|INMOST::EDGE|INMOST::FACE|INMOST::CELL); }
static void scatter(Src& s, const Grid& g, Tag t){ uint64_t k = s.below(1 << 20); for (int d = 0; d < 4; ++d) if (t.isDefined(1u << d)) for (auto& p: g.parts[d]){ auto a = g.el(p).RealArray(t); for (unsigned i = 0; i < a.size(); ++i){ k = pbt::mix(k); a[i] = (double)(k % 2001)/1000 - 1; } } }
static void describe(Assembler& as, const std::vector<FemSpace>& v){ FemExprDescr fed; int i = 0; for (auto& f: v){ auto h = GenerateHelper(*f.base()); fed.PushTrialFunc(h, "u" + std::to_string(i)); fed.PushTestFunc(h, "v" + std::to_string(i)); ++i; } as.SetProbDescr(std::move(fed)); unsigned n = 0; for (auto& f: v) n += f.dofMap().NumDofOnTet(); as.SetMatFunc(GenerateElemMat(std::function<void(const double**, double*)>([](const double**, double*){}), n, n)); as.SetDataGatherer([](ElementalAssembler&){}); as.PrepareProblem(); }
static std::vector<double> model_value(const gen::Node& n, const gen::Cell& C, const std::vector<double>& dofs, int op, const double* l){ auto M = gen::model(n, C.t); ld ll[4]; gen::lld(l, ll); auto e = ref::eval(M, C.t, op, ll); int D = ref::op_dim(op, M.dim); std::vector<double> r(D); for (int d = 0; d < D; ++d){ ld t = 0; for (int i = 0; i < M.nfa(); ++i) t += e[d + (size_t)D*i]*dofs[i]; r[d] = (double)t; } return r; }
static double tol_of(const gen::Cell& C, int op, int n){ return 3e-9*n*(op == ref::IDEN ? 1 : 1/C.h)/std::min(1.0, 10*C.quality()); }

