// Generated tetrahedral grids on the stand-in mesh (inmost_stub/inmost.h), generated variables, and the model of where
// a degree of freedom is stored on an element.
#pragma once
#include "dofgen.h"
#include "inmost.h"
#include "anifem++/inmost_interface/global_enumerator.h"
namespace grid {
using INMOST::HandleType;
struct Part { int dim, id; std::vector<int> v; HandleType h = 0; int gid = -1; };       // v: sorted vertices
struct Grid { std::vector<std::array<double, 3>> x; std::vector<Part> parts[4]; std::map<std::vector<int>, int> of[4]; std::vector<std::vector<int>> order; std::unique_ptr<INMOST::Mesh> m; std::string txt;
    const Part& part(int d, std::vector<int> v) const { std::sort(v.begin(), v.end()); return parts[d][of[d].at(v)]; }
    const Part& by_handle(HandleType h) const { for (auto& p: parts[INMOST::GetHandleElementNum(h)]) if (p.h == h) return p; throw std::runtime_error("unknown element"); }
    const Part& by_gid(int d, int g) const { for (auto& p: parts[d]) if (p.gid == g) return p; throw std::runtime_error("unknown global number"); }
    INMOST::Element el(const Part& p) const { return INMOST::Element(m.get(), p.h); } int vertex(HandleType h) const { return by_handle(h).id; } long vgid(int v) const { return parts[0][v].gid; } };
inline double det(const std::array<double, 3>& a, const std::array<double, 3>& b, const std::array<double, 3>& c, const std::array<double, 3>& d){ double m[3][3]; for (int k = 0; k < 3; ++k){ m[0][k] = b[k] - a[k]; m[1][k] = c[k] - a[k]; m[2][k] = d[k] - a[k]; }
    return m[0][0]*(m[1][1]*m[2][2] - m[1][2]*m[2][1]) - m[0][1]*(m[1][0]*m[2][2] - m[1][2]*m[2][0]) + m[0][2]*(m[1][0]*m[2][1] - m[1][1]*m[2][0]); }
inline void finish(Src& s, Ctx& c, Grid& g){ int nv = (int)g.x.size();
    for (int i = 0; i < nv; ++i){ g.of[0][{i}] = i; g.parts[0].push_back({0, i, {i}}); }
    for (auto& t: g.parts[3]) for (int m = 1; m < 15; ++m){ int d = __builtin_popcount(m) - 1; if (d < 1) continue; std::vector<int> v; for (int k = 0; k < 4; ++k) if (m >> k & 1) v.push_back(t.v[k]); if (!g.of[d].count(v)){ int id = (int)g.parts[d].size(); g.of[d][v] = id; g.parts[d].push_back({d, id, v}); } }
    g.m.reset(new INMOST::Mesh());
    for (int d = 0; d < 4; ++d){ std::vector<int> ord, gid; for (int i = 0; i < (int)g.parts[d].size(); ++i){ ord.push_back(i); gid.push_back(i); } s.shuffle(ord); s.shuffle(gid);
        for (int i: ord){ while (s.chance(1, 5)){ INMOST::Mesh::Slot hole; hole.valid = false; g.m->add(d, hole); }
            auto& p = g.parts[d][i]; p.gid = gid[i]; INMOST::Mesh::Slot sl; sl.gid = p.gid; std::vector<int> nv = d == 3 ? g.order[i] : p.v; if (d < 3) s.shuffle(nv); for (int v: nv) sl.nodes.push_back(d ? g.parts[0][v].h : 0);
            if (d == 0){ sl.nodes.clear(); sl.x.assign(g.x[i].begin(), g.x[i].end()); } else { std::vector<HandleType> low; for (size_t k = 0; k < p.v.size(); ++k){ auto f = p.v; f.erase(f.begin() + k); low.push_back(g.parts[d-1][g.of[d-1].at(f)].h); } s.shuffle(low); sl.low = low; if (d == 3) sl.high = sl.nodes; }
            p.h = g.m->add(d, sl); }
        if (s.chance(1, 5)){ INMOST::Mesh::Slot hole; hole.valid = false; g.m->add(d, hole); } }
    g.txt = fmt("%d nodes, cells", nv); for (auto& o: g.order){ g.txt += " "; for (int v: o) g.txt += fmt("%d", v); } c.note(g.txt); c.label(g.parts[3].size() == 1 ? "one cell" : g.parts[3].size() == 2 ? "two cells" : "several cells"); }
inline Grid make(Src& s, Ctx& c, int max_cells = 5){
    Grid g; int nv = s.range(4, 8); for (int i = 0; i < nv; ++i) g.x.push_back({s.unit(), s.unit(), s.unit()});
    std::map<std::vector<int>, int> used; int want = s.range(1, max_cells);
    for (int tries = 0; tries < 24 && (int)g.parts[3].size() < want; ++tries){ std::vector<int> p; for (int i = 0; i < nv; ++i) p.push_back(i); s.shuffle(p); p.resize(4); std::vector<int> q(p); std::sort(q.begin(), q.end());
        if (g.of[3].count(q) || std::fabs(det(g.x[p[0]], g.x[p[1]], g.x[p[2]], g.x[p[3]])) < 0.02) continue; bool ok = true;
        for (int k = 0; k < 4; ++k){ auto f = q; f.erase(f.begin() + k); ok = ok && used[f] < 2; } if (!ok) continue; for (int k = 0; k < 4; ++k){ auto f = q; f.erase(f.begin() + k); ++used[f]; }
        g.of[3][q] = (int)g.parts[3].size(); g.parts[3].push_back({3, (int)g.parts[3].size(), q}); g.order.push_back(p); }
    s.assume(!g.parts[3].empty()); finish(s, c, g); return g;
}
// cells of a box cut into tetrahedra, some of them dropped, in some affine frame, nodes moved a little: cells do not overlap
inline Grid box(Src& s, Ctx& c, int max_cells = 8, bool move = true){
    Grid g; int n[3] = {1, 1, 1}; if (s.chance(1, 2)) n[s.below(3)] = 2; std::array<std::array<double, 3>, 3> A; for (int k = 0; k < 8; ++k){ for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) A[i][j] = (i == j) + 0.4*s.unit(); std::array<double, 3> o{0, 0, 0}; if (det(o, A[0], A[1], A[2]) > 0.3) break; if (k == 7) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) A[i][j] = i == j; }
    double h = s.of(std::vector<double>{1, 1, 1, 0.1, 7}); auto id = [&](int i, int j, int k){ return (i*(n[1] + 1) + j)*(n[2] + 1) + k; };
    for (int i = 0; i <= n[0]; ++i) for (int j = 0; j <= n[1]; ++j) for (int k = 0; k <= n[2]; ++k){ double y[3] = {(double)i, (double)j, (double)k}; if (move) for (double& v: y) v += 0.1*s.unit(); std::array<double, 3> x{}; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) x[b] += h*y[a]*A[a][b]; g.x.push_back(x); }
    std::vector<std::vector<int>> all; static const int P[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int k = 0; k < n[2]; ++k) for (auto& p: P){ int q[3] = {i, j, k}; std::vector<int> t{id(i, j, k)}; for (int d: p){ ++q[d]; t.push_back(id(q[0], q[1], q[2])); } all.push_back(t); }
    s.shuffle(all); all.resize(std::min<int>((int)all.size(), s.chance(1, 3) ? s.range(1, 2) : s.range(3, max_cells))); std::map<int, int> used; for (auto& t: all) for (int v: t) used[v] = 0; std::vector<std::array<double, 3>> x; for (auto& u: used){ u.second = (int)x.size(); x.push_back(g.x[u.first]); } g.x = x;
    for (auto t: all){ for (int& v: t) v = used[v]; s.shuffle(t); auto q = t; std::sort(q.begin(), q.end()); g.of[3][q] = (int)g.parts[3].size(); g.parts[3].push_back({3, (int)g.parts[3].size(), q}); g.order.push_back(t); }
    finish(s, c, g); return g;
}
inline bool has_empty(const Map& m){ if (m.kind == 1 && m.ch.empty()) return true; for (auto& x: m.ch) if (has_empty(x)) return true; return false; }
inline bool all_symm(const Map& m){ if (m.kind == 0) return m.symm; for (auto& x: m.ch) if (!all_symm(x)) return false; return true; }
struct Vars { std::vector<Map> v; Ani::FemVarContainer c; std::array<unsigned, 6> nd{}; std::string txt;
    int ndim(int i) const { return v[i].kind == 1 ? (int)v[i].ch.size() : 1; }
    unsigned per(int i, int t) const { return v[i].f.nd[t] / ndim(i); }
    bool second(int t) const { return t == 2 || t == 4; }
    unsigned pos(int i, int t, int d, int k) const { unsigned r = second(t) ? nd[t-1] : 0; for (int u = 0; u < i; ++u) r += v[u].f.nd[t]; return r + d*per(i, t) + k; }   // place on an element holding all the variables
    unsigned vpos(int i, int t, int d, int k) const { return (second(t) ? v[i].f.nd[t-1] : 0) + d*per(i, t) + k; }                                                            // place on an element holding one variable
    unsigned on(int dim) const { unsigned r = 0; for (int t = 0; t < 6; ++t) if (parts::TDIM[t] == dim) r += nd[t]; return r; } unsigned von(int i, int dim) const { unsigned r = 0; for (int t = 0; t < 6; ++t) if (parts::TDIM[t] == dim) r += v[i].f.nd[t]; return r; }
    size_t tet() const { size_t r = 0; for (auto& m: v) r += m.f.d.size(); return r; } };
inline Vars variables(Src& s, Ctx& c, bool symm, size_t limit = 90){
    Vars r; int n = s.pick({3, 3, 1}) + 1; for (int i = 0; i < n; ++i){ Map m; bool ok = false; for (int k = 0; k < 8 && !ok; ++k){ m = any_map(s, s.pick({1, 3, 1})); ok = !has_empty(m) && (!symm || all_symm(m)) && !m.f.d.empty() && r.tet() + m.f.d.size() <= limit; } if (!ok) continue;
        r.v.push_back(m); for (int t = 0; t < 6; ++t) r.nd[t] += m.f.nd[t]; r.c.PushVar(DofMap(m.p), fmt("v%d", i)); r.txt += m.txt + "; "; }
    s.assume(!r.v.empty()); c.note(r.txt); c.label(fmt("%d variables", (int)r.v.size())); return r;
}
}
