// A cell of a generated grid in some order of its nodes, and the model of where a value of a degree of freedom is kept: its
// place on the element and its sign are set by the numbers of the nodes.
#pragma once
#include "grid.h"
#include "patterns.h"
using namespace Ani; using namespace grid; using INMOST::Tag; using INMOST::ElementArray;
static const double KEEP = 0x1.9e4p+77;
// ---- a cell in some order of its nodes -------------------------------------------------------------------------
struct Loc { const Part* cell; std::array<int, 4> n; HandleType nodes[4], edges[6], faces[4]; const Part *ed[6], *fc[4];
    const Part& place(const Grid& g, int d, int el) const { return d == 0 ? g.parts[0][n[el]] : d == 1 ? *ed[el] : d == 2 ? *fc[el] : *cell; } };
static Loc loc(const Grid& g, const Part& cell, std::array<int, 4> n){ Loc r; r.cell = &cell; r.n = n; for (int k = 0; k < 4; ++k) r.nodes[k] = g.parts[0][n[k]].h;
    for (int k = 0; k < 6; ++k){ r.ed[k] = &g.part(1, {n[parts::EDGE[k][0]], n[parts::EDGE[k][1]]}); r.edges[k] = r.ed[k]->h; } for (int k = 0; k < 4; ++k){ r.fc[k] = &g.part(2, {n[parts::FACE[k][0]], n[parts::FACE[k][1]], n[parts::FACE[k][2]]}); r.faces[k] = r.fc[k]->h; } return r; }
static Loc any_loc(Src& s, const Grid& g, const Part& cell){ std::vector<int> p(cell.v); s.shuffle(p); return loc(g, cell, {p[0], p[1], p[2], p[3]}); }
struct Lists { ElementArray<INMOST::Node> n; ElementArray<INMOST::Edge> e; ElementArray<INMOST::Face> f; INMOST::Cell c; Lists(const Grid& g, const Loc& l): n(g.m.get()), e(g.m.get()), f(g.m.get()), c(g.m.get(), l.cell->h) { for (auto h: l.nodes) n.push_back(h); for (auto h: l.edges) e.push_back(h); for (auto h: l.faces) f.push_back(h); } };
static std::array<unsigned char, 4> ranks(const std::array<long, 4>& x){ std::array<unsigned char, 4> r; for (int i = 0; i < 4; ++i){ int k = 0; for (int j = 0; j < 4; ++j) k += x[j] < x[i]; r[i] = (unsigned char)k; } return r; }
// where the value of an item of a map is kept and its sign: by the numbers of the nodes
struct Kept { const Part* p; unsigned at; int sign; };
static Kept kept(const Grid& g, const Flat& f, const Item& i, const Loc& l, const std::function<long(int)>& num){
    Kept r; r.p = &l.place(g, parts::TDIM[i.t], i.el); r.sign = 1; auto v = verts(i.t, i.el); std::string w = pattern(i.t, i.st, i.ls); int n = (int)w.size(); std::vector<int> o; for (int k = 0; k < n; ++k) o.push_back(k);
    std::sort(o.begin(), o.end(), [&](int a, int b){ return num(l.n[v[a]]) < num(l.n[v[b]]); }); std::string q; for (int k: o) q += w[k]; int ls = 0; while (pattern(i.t, i.st, ls) != q) ++ls;
    if (i.t == 2) r.sign = num(l.n[parts::EDGE[i.el][0]]) < num(l.n[parts::EDGE[i.el][1]]) ? 1 : -1;
    if (i.t == 4){ long a[3]; for (int k = 0; k < 3; ++k) a[k] = num(l.n[parts::FACE[i.el][k]]); bool cyc = (a[0] < a[1]) + (a[1] < a[2]) + (a[2] < a[0]) == 2; r.sign = cyc == (i.el % 2 == 0) ? 1 : -1; }
    r.at = (i.t == 2 || i.t == 4 ? f.nd[i.t-1] : 0) + i.leid - i.ls + ls; return r;
}
static Tag make_tag(Src& s, const Grid& g, const std::string& nm, unsigned mask, unsigned size, unsigned sparse = 0){ return g.m->CreateTag(nm, INMOST::DATA_REAL, mask, sparse, s.flip() ? size : ENUMUNDEF); }
static double val(const Part& p, unsigned k){ return 1e6*p.dim + 1e4*(p.id + 1) + k + 0.25; }
static unsigned on(const Flat& f, int d){ unsigned r = 0; for (int t = 0; t < 6; ++t) if (parts::TDIM[t] == d) r += f.nd[t]; return r; }
static unsigned most(const Flat& f){ unsigned r = 0; for (int d = 0; d < 4; ++d) r = std::max(r, on(f, d)); return r; }
static unsigned dims(const Flat& f){ unsigned r = 0; for (int d = 0; d < 4; ++d) if (on(f, d)) r |= 1u << d; return r; }
static void fill(const Grid& g, Tag t, const Flat& f, unsigned extra = 0){ for (int d = 0; d < 4; ++d) if (on(f, d)) for (auto& p: g.parts[d]){ auto a = g.el(p).RealArray(t); if (a.size() < on(f, d) + extra) a.resize(on(f, d) + extra); for (unsigned k = 0; k < a.size(); ++k) a[k] = val(p, k); } }
static Map whole(const Vars& V){ return product(nullptr, V.v, "all"); }
