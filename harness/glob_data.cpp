// G02: values of degrees of freedom kept on the elements of a mesh mean the same in every cell and under every numbering.
#include "kept.h"
#include "anifem++/fem/fem_space.h"
#include "anifem++/fem/spaces/spaces.h"
#include "anifem++/fem/operations/operations.h"
#include "anifem++/inmost_interface/elemental_assembler.h"
static bool rich(const Grid& g, const Vars& V){ return g.parts[3].size() > 1 && V.tet() > 4; }
static const char* RULE = "at least two cells and five degrees of freedom on a cell";


PBT_PROP(G02_connectivity, 2500, 40000, "at least two cells and nodes put in order"){
    Grid g = make(s, c); bool ro = s.pick({1, 3}), ef = s.pick({1, 3}); int how = (int)s.below(3); static const char* nm[] = {"arrays of elements", "elements", "handles"}; c.note(fmt("%s, %s%s", nm[how], ro ? "reordered" : "as stored", ef ? ", edges and faces" : "")); c.label(nm[how]); c.nontrivial(g.parts[3].size() > 1 && ro);
    for (auto& p: g.parts[3]){ HandleType n[4], e[6] = {}, f[4] = {}; INMOST::Cell cell(g.m.get(), p.h);
        if (how == 0){ ElementArray<INMOST::Node> N(g.m.get(), 4); ElementArray<INMOST::Edge> E(g.m.get(), ef ? 6 : 0); ElementArray<INMOST::Face> F(g.m.get(), ef ? 4 : 0); collectConnectivityInfo(cell, N, E, F, ro, ef); for (int k = 0; k < 4; ++k) n[k] = N.data()[k]; if (ef){ for (int k = 0; k < 6; ++k) e[k] = E.data()[k]; for (int k = 0; k < 4; ++k) f[k] = F.data()[k]; } }
        else if (how == 1){ INMOST::Node N[4]; INMOST::Edge E[6]; INMOST::Face F[4]; collectConnectivityInfo(cell, N, E, F, ro, ef); for (int k = 0; k < 4; ++k) n[k] = N[k].GetHandle(); if (ef){ for (int k = 0; k < 6; ++k) e[k] = E[k].GetHandle(); for (int k = 0; k < 4; ++k) f[k] = F[k].GetHandle(); } }
        else collectConnectivityInfo(cell, n, ef ? e : nullptr, ef ? f : nullptr, ro, ef);
        std::array<int, 4> v; for (int k = 0; k < 4; ++k){ bool own = false; for (int q: p.v) own |= g.parts[0][q].h == n[k]; c.ok(own, fmt("node %d is not of the cell", k)); v[k] = g.vertex(n[k]); } std::set<int> sv(v.begin(), v.end()); c.ok(sv.size() == 4, "a node is repeated");
        const auto& o = g.order[p.id]; if (!ro) for (int k = 0; k < 4; ++k) c.ok(v[k] == o[k], fmt("node %d is not the stored one", k)); else c.ok(det(g.x[v[0]], g.x[v[1]], g.x[v[2]], g.x[v[3]]) < 0, "nodes are not in positive order");
        if (ef){ Loc l = loc(g, p, v); for (int k = 0; k < 6; ++k) c.ok(e[k] == l.edges[k], fmt("edge %d does not join the nodes %d %d", k, parts::EDGE[k][0], parts::EDGE[k][1])); for (int k = 0; k < 4; ++k) c.ok(f[k] == l.faces[k], fmt("face %d is not of the nodes %d %d %d", k, parts::FACE[k][0], parts::FACE[k][1], parts::FACE[k][2])); }
    }
}
PBT_PROP(G02_permutation, 3000, 40000, "the numbers are not in increasing order"){
    std::array<long, 4> x; int n = s.pick({3, 1, 1, 1}); n = n == 0 ? 4 : n; bool pad = n < 4; std::set<long> used; for (int k = 0; k < n; ++k){ long q; do q = s.chance(1, 8) ? (s.flip() ? 0 : 2147483646L - s.range(0, 9)) : s.range(0, 12); while (!used.insert(q).second); x[k] = q; } for (int k = n; k < 4; ++k) x[k] = std::numeric_limits<long>::max();
    c.note(fmt("%ld %ld %ld %ld", x[0], x[1], x[2], x[3])); c.label(pad ? "padded" : "four numbers"); std::array<unsigned char, 4> r; auto want = ranks(x);
    if (!pad && s.flip()){ int y[4]; for (int k = 0; k < 4; ++k) y[k] = (int)x[k]; r = createOrderPermutation(y); } else r = createOrderPermutation(x.data());
    for (int k = 0; k < n; ++k) c.ok(r[k] == want[k], fmt("number %d has the place %d, expected %d", k, r[k], want[k])); std::set<int> all(r.begin(), r.end()); c.ok(all.size() == 4 && *all.rbegin() == 3, "not a permutation"); bool inc = true; for (int k = 1; k < n; ++k) inc = inc && x[k-1] < x[k]; c.nontrivial(!inc);
}
static const Map* walk(Src& s, const Map& m, std::vector<int>& path, size_t& b, size_t& e, bool must){ const Map* cur = &m; b = 0; e = m.f.d.size(); int len = must ? s.range(1, 3) : s.range(0, 3); for (int k = 0; k < len && cur->kind; ++k){ int i = (int)s.below(cur->ch.size()); path.push_back(i); for (int j = 0; j < i; ++j) b += cur->ch[j].f.d.size(); cur = &cur->ch[i]; e = b + cur->f.d.size(); } return cur; }
PBT_PROP(G02_gather, 3000, 40000, RULE){
    Grid g = make(s, c, 3); Vars V = variables(s, c, true, 70); Map all = whole(V); bool multi = s.flip(), cond = s.chance(1, 3), hnd = s.flip(), wrapped = s.chance(1, 4), half = cond && s.flip(); std::string what;
    std::vector<Tag> tags; std::vector<Flat> fl; if (multi) for (auto& v: V.v) fl.push_back(v.f); else fl.push_back(all.f);
    std::map<std::pair<int, HandleType>, size_t> len;   // how many values are kept there
    for (size_t q = 0; q < fl.size(); ++q){ Tag t = half ? g.m->CreateTag(fmt("t%d", (int)q), INMOST::DATA_REAL, dims(fl[q]), dims(fl[q]), ENUMUNDEF) : make_tag(s, g, fmt("t%d", (int)q), dims(fl[q]), most(fl[q])); tags.push_back(t);
        for (int d = 0; d < 4; ++d) if (on(fl[q], d)) for (auto& p: g.parts[d]){ size_t n = on(fl[q], d); if (half){ int h = s.pick({2, 1, 1}); if (h == 1) continue; if (h == 2) n = s.below(n); } auto a = g.el(p).RealArray(t); if (a.size() < n) a.resize(n); for (unsigned k = 0; k < a.size(); ++k) a[k] = val(p, k) + 1e8*q; len[{(int)q, p.h}] = a.size(); } }
    for (auto& cell: g.parts[3]){ Loc l = any_loc(s, g, cell); Lists L(g, l); std::array<long, 4> num; for (int k = 0; k < 4; ++k) num[k] = g.vgid(l.n[k]); auto cn = ranks(num); std::vector<int> path; size_t b, e; walk(s, all, path, b, e, false); if (multi && wrapped && path.empty()) {}
        std::vector<double> want(e - b + 2, KEEP), got(want); size_t at = 0; int q = 0; size_t first = 0;
        for (size_t i = b; i < e; ++i){ if (multi) while (i - first >= V.v[q].f.d.size()){ first += V.v[q].f.d.size(); ++q; } const Flat& f = multi ? V.v[q].f : all.f; const Item& it = f.d[multi ? i - first : i]; Kept k = kept(g, f, it, l, [&](int v){ return g.vgid(v); }); auto ln = len.find({q, k.p->h}); if (ln != len.end() && k.at < ln->second) want[at] = k.sign*(val(*k.p, k.at) + 1e8*q); ++at; }
        what = fmt("cell %d with nodes %d%d%d%d, component ", cell.id, l.n[0], l.n[1], l.n[2], l.n[3]) + pbt::show(path) + (multi ? ", a tag for each variable" : ", one tag") + (half ? ", some data are missing" : "");
        const int* cp = path.empty() ? nullptr : path.data(); unsigned nc = (unsigned)path.size(); double* o = got.data();
        if (wrapped){ // through the data of the assembling of a cell
            FemExprDescr ds; ds.trial_funcs = V.c; ElementalAssembler::VarsHelper vh; vh.descr = &ds; ElementalAssembler p; p.vars = &vh; p.cell = &L.c; p.faces = &L.f; p.edges = &L.e; p.nodes = &L.n; p.node_permutation = cn.data(); p.m = g.m.get(); using EA = ElementalAssembler; c.label("in the assembling");
            if (multi){ int h = (int)s.below(4); std::vector<Tag>& tv = tags;
                if (h == 1 && path.size() == 1){ if (cond) EA::GatherDataOnElement<true>(tv, p, o, (unsigned)path[0]); else EA::GatherDataOnElement(tv, p, o, (unsigned)path[0]); }
                else if (h == 2 && path.size() == 2){ if (cond) EA::GatherDataOnElement<true>(tv, p, o, {path[0], path[1]}); else EA::GatherDataOnElement(tv, p, o, {path[0], path[1]}); }
                else if (h == 3 && tv.size() == 2){ std::initializer_list<Tag> il{tv[0], tv[1]}; if (path.size() == 1){ if (cond) EA::GatherDataOnElement<true>(il, p, o, (unsigned)path[0]); else EA::GatherDataOnElement(il, p, o, {path[0]}); } else if (cond) EA::GatherDataOnElement<true>(il, p, o, cp, nc); else EA::GatherDataOnElement(il, p, o, cp, nc); }
                else if (h == 0){ if (cond) EA::GatherDataOnElement<true>(tv.data(), tv.size(), p, o, cp, nc); else EA::GatherDataOnElement(tv.data(), tv.size(), p, o, cp, nc); }
                else { const std::vector<Tag>& cv = tv; if (cond) EA::GatherDataOnElement<true>(cv, p, o, cp, nc); else EA::GatherDataOnElement(cv, p, o, cp, nc); } }
            else if (path.size() == 1 && s.flip()){ if (cond) EA::GatherDataOnElement<true>(tags[0], p, o, (unsigned)path[0]); else EA::GatherDataOnElement(tags[0], p, o, (unsigned)path[0]); }
            else if (path.size() == 2 && s.flip()){ if (cond) EA::GatherDataOnElement<true>(tags[0], p, o, {path[0], path[1]}); else EA::GatherDataOnElement(tags[0], p, o, {path[0], path[1]}); }
            else if (cond) EA::GatherDataOnElement<true>(tags[0], p, o, cp, nc); else EA::GatherDataOnElement(tags[0], p, o, cp, nc);
        } else if (multi){
            if (hnd){ if (cond) GatherDataOnElement<true>(tags.data(), tags.size(), V.c, g.m.get(), cell.h, l.faces, l.edges, l.nodes, cn.data(), o, cp, nc); else GatherDataOnElement(tags.data(), tags.size(), V.c, g.m.get(), cell.h, l.faces, l.edges, l.nodes, cn.data(), o, cp, nc); }
            else { if (cond) GatherDataOnElement<true>(tags.data(), tags.size(), V.c, L.c, L.f, L.e, L.n, cn.data(), o, cp, nc); else GatherDataOnElement(tags.data(), tags.size(), V.c, L.c, L.f, L.e, L.n, cn.data(), o, cp, nc); }
        } else {
            if (hnd){ if (cond) GatherDataOnElement<true>(tags[0], V.c, g.m.get(), cell.h, l.faces, l.edges, l.nodes, cn.data(), o, cp, nc); else GatherDataOnElement(tags[0], V.c, g.m.get(), cell.h, l.faces, l.edges, l.nodes, cn.data(), o, cp, nc); }
            else { if (cond) GatherDataOnElement<true>(tags[0], V.c, L.c, L.f, L.e, L.n, cn.data(), o, cp, nc); else GatherDataOnElement(tags[0], V.c, L.c, L.f, L.e, L.n, cn.data(), o, cp, nc); }
        }
        for (size_t i = 0; i < want.size(); ++i) c.ok(got[i] == want[i], [&]{ return what + fmt(": value %d is %.12g, expected %.12g%s", (int)i, got[i], want[i], i >= e - b ? " (past the end)" : ""); });
        c.label(path.empty() ? "all variables" : fmt("component of depth %d", (int)path.size()));
        // one value
        if (!multi && e > b) for (int k = 0; k < 3; ++k){ size_t i = b + s.below(e - b); auto lo = static_cast<const BaseDofMap&>(V.c).LocalOrderOnTet(TetOrder((uint)i)); double w = want[i - b];
            auto pr = hnd ? takeElementDOFifAvailable(tags[0], V.c, lo, g.m.get(), cell.h, l.faces, l.edges, l.nodes, cn.data()) : takeElementDOFifAvailable(tags[0], V.c, lo, L.c, L.f, L.e, L.n, cn.data()); c.ok(pr.second == (w != KEEP) && (w == KEEP || pr.first == w), "one value, if it is kept");
            if (w != KEEP) c.ok((hnd ? takeElementDOF(tags[0], V.c, lo, g.m.get(), cell.h, l.faces, l.edges, l.nodes, cn.data()) : takeElementDOF(tags[0], V.c, lo, L.c, L.f, L.e, L.n, cn.data())) == w, "one value");
            Kept kp = kept(g, all.f, all.f.d[i], l, [&](int v){ return g.vgid(v); }); auto lc = hnd ? getDOFLocus(V.c, lo, g.m.get(), cell.h, l.faces, l.edges, l.nodes, cn.data()) : getDOFLocus(V.c, lo, L.c, L.f, L.e, L.n, cn.data()); c.ok(lc.elem.GetHandle() == kp.p->h && lc.elem_data_index == kp.at && (int)lc.sign == kp.sign, [&]{ return what + fmt(": place of degree of freedom %d is element %d number %u sign %d, expected %d %u %d", (int)i, (int)lc.elem.GetHandle(), lc.elem_data_index, lc.sign, (int)kp.p->h, kp.at, kp.sign); });
            // the same value of the element on its own, its nodes in a stored order
            const Item& it = all.f.d[i]; int d = parts::TDIM[it.t]; std::array<long, 4> en; en.fill(std::numeric_limits<long>::max()); auto vv = verts(it.t, it.el); (void)vv; (void)en; (void)d; }
    }
    if (multi && V.v.size() > 1){ auto& cell = g.parts[3][0]; Loc l = any_loc(s, g, cell); std::array<unsigned char, 4> cn{0, 1, 2, 3}; std::vector<double> o(V.tet() + 1); bool thr = false; try { GatherDataOnElement(tags.data(), tags.size() - 1, V.c, g.m.get(), cell.h, l.faces, l.edges, l.nodes, cn.data(), o.data(), nullptr, 0); } catch (const std::runtime_error&){ thr = true; } c.ok(thr, "too few tags are accepted"); }
    if (rich(g, V)) c.nontrivial();
}
// ---- functions of conforming spaces ----------------------------------------------------------------------------
enum Kind { FULL, NORMAL, TANGENT };
struct Sp { FemSpace sp; Kind k; int dim; const char* nm; };
static Sp base(Src& s){ switch (s.pick({3, 3, 1, 2, 3})){ case 0: return {FemSpace{RT0Space()}, NORMAL, 3, "RT0"}; case 1: return {FemSpace{ND0Space()}, TANGENT, 3, "ND0"}; case 2: return {FemSpace{P1Space()}, FULL, 1, "P1"}; case 3: return {FemSpace{P2Space()}, FULL, 1, "P2"}; default: return {FemSpace{P3Space()}, FULL, 1, "P3"}; } }
PBT_PROP(G02_conforming, 2500, 40000, "two cells have a common face and the space has more than one value on a face"){
    Grid g = make(s, c, 4); FemVarContainer V; std::vector<Sp> sp; std::vector<std::vector<int>> path; std::vector<Flat> none; int n = s.range(1, 3);
    for (int i = 0; i < n; ++i){ Sp b = base(s); int k = s.pick({2, 1, 1}); if (k == 0){ V.PushVar(b.sp.dofMap(), fmt("v%d", i)); path.push_back({i}); sp.push_back(b); } else { int m = s.range(1, 3); FemSpace w = b.sp^m; V.PushVar(w.dofMap(), fmt("v%d", i)); for (int q = 0; q < m; ++q){ path.push_back({i, q}); sp.push_back(b); } } c.note(b.nm); }
    unsigned mx = 0, mask = 0; auto nd = V.NumDofs(); auto in = DofTNumDofsToInmostNumDofs(nd); for (int d = 0; d < 4; ++d){ mx = std::max(mx, in[d]); if (in[d]) mask |= 1u << d; } Tag t = g.m->CreateTag("u", INMOST::DATA_REAL, mask, 0, mx); for (int d = 0; d < 4; ++d) if (in[d]) for (auto& p: g.parts[d]){ auto a = g.el(p).RealArray(t); for (unsigned k = 0; k < mx; ++k) a[k] = s.unit(); }
    std::map<int, std::vector<std::vector<double>>> seen; // values at the points of a face
    std::map<int, std::array<double, 3>> pt; bool shared = false;
    for (auto& cell: g.parts[3]){ HandleType N[4], E[6], F[4]; collectConnectivityInfo(INMOST::Cell(g.m.get(), cell.h), N, E, F, true, true); int gid[4]; double X[12]; std::array<std::array<double, 3>, 4> x; for (int k = 0; k < 4; ++k){ int v = g.vertex(N[k]); gid[k] = (int)g.vgid(v); x[k] = g.x[v]; for (int j = 0; j < 3; ++j) X[3*k + j] = g.x[v][j]; } auto cn = createOrderPermutation(gid); Tetra<const double> T(X, X + 3, X + 6, X + 9);
        for (int f = 0; f < 4; ++f){ const Part& fp = g.by_handle(F[f]); auto& w = pt[fp.id]; if (!seen.count(fp.id)){ double a = s.real(0.05, 0.9), b = s.real(0.05, 0.9)*(1 - a); w = {a, b, 1 - a - b}; } double l[4] = {0, 0, 0, 0}; for (int k = 0; k < 3; ++k){ int loc = -1; for (int q = 0; q < 4; ++q) if (g.vertex(N[q]) == fp.v[k]) loc = q; l[loc] = w[k]; }
            double e1[3], e2[3], nn[3]; for (int j = 0; j < 3; ++j){ e1[j] = g.x[fp.v[1]][j] - g.x[fp.v[0]][j]; e2[j] = g.x[fp.v[2]][j] - g.x[fp.v[0]][j]; } for (int j = 0; j < 3; ++j) nn[j] = e1[(j+1)%3]*e2[(j+2)%3] - e1[(j+2)%3]*e2[(j+1)%3];
            std::vector<std::vector<double>> out; for (size_t q = 0; q < sp.size(); ++q){ int nf = (int)sp[q].sp.dofMap().NumDofOnTet(); std::vector<double> u(nf, KEEP), r(sp[q].dim, KEEP); GatherDataOnElement(t, V, g.m.get(), cell.h, F, E, N, cn.data(), u.data(), path[q].data(), (unsigned)path[q].size()); DynMem<> wm; DenseMatrix<> DM(u.data(), nf, 1), O(r.data(), sp[q].dim, 1); auto op = sp[q].sp.getOP(IDEN); fem3DapplyL(T, ArrayView<>(l, 4), DM, op, O, wm);
                std::vector<double> z; if (sp[q].k == FULL) z = r; else if (sp[q].k == NORMAL) z = {r[0]*nn[0] + r[1]*nn[1] + r[2]*nn[2]}; else z = {r[0]*e1[0] + r[1]*e1[1] + r[2]*e1[2], r[0]*e2[0] + r[1]*e2[1] + r[2]*e2[2]}; double big = 0; for (double y: r) big = std::max(big, std::fabs(y)); z.push_back(big); out.push_back(z); }
            auto it = seen.find(fp.id); if (it == seen.end()) seen[fp.id] = out; else { shared = true; for (size_t q = 0; q < sp.size(); ++q){ auto &A = it->second[q], &B = out[q]; double sc = 4*(A.back() + B.back() + 1); for (size_t k = 0; k + 1 < A.size(); ++k) c.near(A[k], B[k], 1e-9*sc, [&]{ return fmt("%s (variable %d): the values from the two cells of the face %d%d%d differ (%s)", sp[q].nm, (int)q, fp.v[0], fp.v[1], fp.v[2], sp[q].k == FULL ? "whole" : sp[q].k == NORMAL ? "normal component" : "tangential component"); }); } }
        } }
    c.label(shared ? "common faces" : "no common face"); c.nontrivial(shared);
}
// ---- new numbers of nodes ---------------------------------------------------------------------------------------
PBT_PROP(G02_reorder, 2500, 40000, "at least two cells, five degrees of freedom on a cell, the order of nodes changes"){
    Grid g = make(s, c, 3); Map m; bool ok = false; for (int k = 0; k < 8 && !ok; ++k){ m = any_map(s, s.pick({1, 3, 1})); ok = !has_empty(m) && all_symm(m) && !m.f.d.empty() && m.f.d.size() <= 60; } s.assume(ok); c.note(m.txt);
    int nv = (int)g.x.size(); std::vector<int> num[2]; Tag en[2]; for (int q = 0; q < 2; ++q){ std::vector<int> p; for (int i = 0; i < nv; ++i) p.push_back(3*i + (int)s.below(3)); s.shuffle(p); if (q == 1 && s.flip()){ p = num[0]; std::swap(p[s.below(nv)], p[s.below(nv)]); } num[q] = p; if (q == 1 && s.chance(1, 4)){ for (int i = 0; i < nv; ++i) num[1][i] = (int)g.vgid(i); g.m->AssignGlobalID(INMOST::NODE); en[q] = g.m->GlobalIDTag(); c.label("to global numbers"); } else { en[q] = g.m->CreateTag(q ? "new" : "old", INMOST::DATA_INTEGER, INMOST::NODE, 0, 1); for (int i = 0; i < nv; ++i) g.el(g.parts[0][i]).Integer(en[q]) = p[i]; } }
    bool plain = s.chance(1, 4), comp = false; size_t bs = plain ? 1 : s.range(1, 3); std::array<size_t, 4> sh{}; if (!plain) for (auto& x: sh) x = s.pick({3, 1, 1}); comp = !plain && s.chance(1, 4); bool pad = s.flip(); int nt = s.range(1, 2); std::vector<Tag> ts; unsigned mask = dims(m.f); bool orient = m.f.nd[2] || m.f.nd[4]; if (orient) comp = false;
    size_t need = 0; for (int d = 0; d < 4; ++d) if (on(m.f, d)) need = std::max(need, sh[d] + bs*on(m.f, d)); bool fixed = !comp && s.flip();
    for (int q = 0; q < nt; ++q){ bool sparse = s.chance(1, 4); Tag t = g.m->CreateTag(fmt("u%d", q), INMOST::DATA_REAL, mask, sparse ? mask : 0, fixed ? (unsigned)need : ENUMUNDEF); ts.push_back(t);
        for (int d = 0; d < 4; ++d) if (mask >> d & 1) for (auto& p: g.parts[d]){ if (sparse && s.chance(1, 4)) continue; auto a = g.el(p).RealArray(t); bool small = comp && s.chance(1, 3) && on(m.f, d) > 1; size_t n = small ? sh[d] + bs : sh[d] + bs*on(m.f, d) + (pad ? 1 : 0); if (a.size() < n) a.resize(n); for (unsigned k = 0; k < a.size(); ++k) a[k] = val(p, k) + 1e8*q; } }
    c.note(fmt("blocks of %d, shifts %d %d %d %d, %d tags%s", (int)bs, (int)sh[0], (int)sh[1], (int)sh[2], (int)sh[3], nt, comp ? ", short arrays" : "")); c.label(orient ? "oriented" : "not oriented"); if (comp) c.label("short arrays");
    std::vector<std::map<HandleType, std::vector<double>>> old(nt); for (int q = 0; q < nt; ++q) for (int d = 0; d < 4; ++d) if (mask >> d & 1) for (auto& p: g.parts[d]) if (g.el(p).HaveData(ts[q])){ auto a = g.el(p).RealArray(ts[q]); old[q][p.h].assign(a.begin(), a.end()); }
    if (plain){ if (s.flip()) reorder_fem_vars_data(ts, *m.p, en[0], en[1]); else if (en[1] == g.m->GlobalIDTag()) reorder_fem_vars_data(ts, *m.p, en[0]); else reorder_mesh_function_data(ts, *m.p, en[0], en[1]); } else reorder_mesh_function_data(ts, *m.p, en[0], en[1], bs, sh, comp);
    bool moved_some = false;
    for (int q = 0; q < nt; ++q){ for (auto& cell: g.parts[3]){ Loc l = any_loc(s, g, cell); for (auto& it: m.f.d){ int d = parts::TDIM[it.t]; Kept a = kept(g, m.f, it, l, [&](int v){ return (long)num[0][v]; }), b = kept(g, m.f, it, l, [&](int v){ return (long)num[1][v]; }); auto o = old[q].find(a.p->h); if (o == old[q].end()){ c.ok(!g.el(*a.p).HaveData(ts[q]), "data appear"); continue; } auto now = g.el(*a.p).RealArray(ts[q]); c.ok(now.size() == o->second.size(), "size of data"); if (comp && now.size() < sh[d] + 2*bs && on(m.f, d) > 1) continue;
            for (size_t k = 0; k < bs; ++k){ double w = a.sign*o->second[sh[d] + bs*a.at + k], n = b.sign*now[sh[d] + bs*b.at + k]; if (a.at != b.at || a.sign != b.sign) moved_some = true; c.ok(w == n, [&]{ return fmt("value %d of a degree of freedom of type %d (symmetry %d.%d) on element %d of nodes ", (int)k, it.t, it.st, it.ls, a.p->id) + pbt::show(a.p->v) + fmt(" of tag %d is %.12g with the new numbers, was %.12g", q, n, w); }); } } }
        for (auto& kv: old[q]){ int d = INMOST::GetHandleElementNum(kv.first); auto now = INMOST::Element(g.m.get(), kv.first).RealArray(ts[q]); bool shrt = comp && now.size() < sh[d] + 2*bs; for (size_t k = 0; k < now.size(); ++k) if (k < sh[d] || k >= sh[d] + bs*on(m.f, d) || shrt) c.ok(now[k] == kv.second[k], fmt("value %d outside of the data is changed", (int)k)); } }
    c.label(moved_some ? "values move" : "nothing moves"); c.nontrivial(g.parts[3].size() > 1 && m.f.d.size() > 4 && moved_some);
}
// ---- copies between storages -------------------------------------------------------------------------------------
static Map big(Src& s){ Map m; std::array<unsigned, 6> n{}; n[0] = s.below(2); int t = s.flip() ? 1 : 3; n[t] = s.range(180, 300); n[t + 1] = s.below(3); if (s.flip()) n[2] = s.range(180, 300); m.f.nd = n; m.f.undef = true; for (int q = 0; q < 6; ++q){ m.f.sym[q] = 32; for (int e = 0; e < parts::CNT[parts::TDIM[q]]; ++e) for (unsigned l = 0; l < n[q]; ++l) m.f.d.push_back({q, e, l}); } m.p = std::make_shared<UniteDofMap>(n); m.counts = n; m.txt = fmt("[%u%s]", n[t], "..."); return m; }
PBT_PROP(G02_copies, 1500, 20000, RULE){
    Grid g = make(s, c, 3); Vars V; if (s.chance(1, 12)){ c.label("hundreds on an element"); int n = s.range(1, 3); for (int i = 0; i < n; ++i){ Map m = i == n - 1 ? big(s) : elementary(s); if (m.f.d.empty()) continue; V.v.push_back(m); for (int t = 0; t < 6; ++t) V.nd[t] += m.f.nd[t]; V.c.PushVar(DofMap(m.p), fmt("v%d", i)); } std::reverse(V.v.begin(), V.v.end()); FemVarContainer r; for (auto& m: V.v) r.PushVar(DofMap(m.p), "v"); V.c = r; } else V = variables(s, c, false, 60);
    GlobEnumeration e((GlobEnumeration::ASSEMBLING_TYPE)s.below(6)); e.setMesh(g.m.get()).setVars(V.c); e.setup(); int nv = (int)V.v.size(); long N = e.getMatrixSize(); unsigned mask = 0, mx = 0; for (int d = 0; d < 4; ++d) if (V.on(d)){ mask |= 1u << d; mx = std::max(mx, V.on(d)); }
    struct D { int v; const Part* p; unsigned pos, vpos; long id; }; std::vector<D> ds; for (int v = 0; v < nv; ++v) for (int t = 0; t < 6; ++t) for (int d = 0; d < V.ndim(v); ++d) for (unsigned k = 0; k < V.per(v, t); ++k) for (auto& p: g.parts[parts::TDIM[t]]) ds.push_back({v, &p, V.pos(v, t, d, (int)k), V.vpos(v, t, d, (int)k), (long)e(IGlobEnumeration::NaturalIndex(g.el(p), parts::type_code(t), v, d, (int)k)).id});
    int cnt = 0; auto tag = [&](unsigned mk, unsigned sz, double x0){ Tag t = g.m->CreateTag(fmt("c%d", cnt++), INMOST::DATA_REAL, mk, 0, sz + (unsigned)s.below(2)); for (int d = 0; d < 4; ++d) if (mk >> d & 1) for (auto& p: g.parts[d]){ auto a = g.el(p).RealArray(t); for (unsigned k = 0; k < a.size(); ++k) a[k] = x0 == KEEP ? KEEP : x0 + val(p, k); } return t; };
    auto vtag = [&](int v, double x0){ unsigned mk = 0, sz = 0; for (int d = 0; d < 4; ++d) if (V.von(v, d)){ mk |= 1u << d; sz = std::max(sz, V.von(v, d)); } return tag(mk, sz, x0); };
    auto vec = [&](double x0){ INMOST::Sparse::Vector x; x.SetInterval(0, (unsigned)N); for (long i = 0; i < N; ++i) x[i] = x0 + i; return x; };
    auto at = [&](Tag t, const Part& p, unsigned k){ return g.el(p).RealArray(t)[k]; };
    auto rest = [&](Tag t, const std::string& how, const std::set<std::pair<HandleType, unsigned>>& wr){ for (int d = 0; d < 4; ++d) if (t.isDefined(1u << d)) for (auto& p: g.parts[d]){ auto a = g.el(p).RealArray(t); for (unsigned k = 0; k < a.size(); ++k) if (!wr.count({p.h, k})) c.ok(a[k] == KEEP, how + ": a value that is not copied is changed"); } };
    auto bad = [&](const std::string& how, const D& d, double got, double want){ return how + fmt(": variable %d on element %d:%d at %u (%u in the variable) is %.12g, expected %.12g", d.v, d.p->dim, d.p->id, d.pos, d.vpos, got, want); };
    int op = (int)s.below(11), v = (int)s.below(nv); static const char* nm[] = {"vector to tag", "vector to tags", "tag to vector", "tag to tag", "tag to tags", "tags to tag", "tags to vector", "variable of a vector", "variable of a tag", "variable into a tag", "variable to variable"}; std::string how = nm[op]; c.note(how); c.label(how); std::set<std::pair<HandleType, unsigned>> wr;
    switch (op){
        case 0: { auto x = vec(0.5); Tag t = tag(mask, mx, KEEP); e.CopyByEnumeration(x, t); for (auto& d: ds){ double r = at(t, *d.p, d.pos), w = 0.5 + d.id; wr.insert({d.p->h, d.pos}); c.ok(r == w, [&]{ return bad(how, d, r, w); }); } rest(t, how, wr); break; }
        case 1: { auto x = vec(0.5); std::vector<Tag> t; for (int k = 0; k < nv; ++k) t.push_back(vtag(k, KEEP)); e.CopyByEnumeration(x, t); for (auto& d: ds){ double r = at(t[d.v], *d.p, d.vpos), w = 0.5 + d.id; c.ok(r == w, [&]{ return bad(how, d, r, w); }); } for (int k = 0; k < nv; ++k){ wr.clear(); for (auto& d: ds) if (d.v == k) wr.insert({d.p->h, d.vpos}); rest(t[k], how, wr); } break; }
        case 2: { Tag t = tag(mask, mx, 7); INMOST::Sparse::Vector x; if (s.flip()) x = vec(3); e.CopyByEnumeration(t, x); c.ok(x.GetFirstIndex() == 0 && (long)x.GetLastIndex() == N, "interval of the vector"); for (auto& d: ds){ double r = x[d.id], w = 7 + val(*d.p, d.pos); c.ok(r == w, [&]{ return bad(how, d, r, w); }); } break; }
        case 3: { Tag f = tag(mask, mx, 7), t = tag(mask, mx, KEEP); e.CopyByEnumeration(f, t); for (auto& d: ds){ double r = at(t, *d.p, d.pos), w = at(f, *d.p, d.pos); wr.insert({d.p->h, d.pos}); c.ok(r == w, [&]{ return bad(how, d, r, w); }); } rest(t, how, wr); break; }
        case 4: { Tag f = tag(mask, mx, 7); std::vector<Tag> t; for (int k = 0; k < nv; ++k) t.push_back(vtag(k, KEEP)); e.CopyByEnumeration(f, t); for (auto& d: ds){ double r = at(t[d.v], *d.p, d.vpos), w = at(f, *d.p, d.pos); c.ok(r == w, [&]{ return bad(how, d, r, w); }); } for (int k = 0; k < nv; ++k){ wr.clear(); for (auto& d: ds) if (d.v == k) wr.insert({d.p->h, d.vpos}); rest(t[k], how, wr); } break; }
        case 5: { Tag t = tag(mask, mx, KEEP); std::vector<Tag> f; for (int k = 0; k < nv; ++k) f.push_back(vtag(k, 1e8*(k + 1))); e.CopyByEnumeration(f, t); for (auto& d: ds){ double r = at(t, *d.p, d.pos), w = at(f[d.v], *d.p, d.vpos); wr.insert({d.p->h, d.pos}); c.ok(r == w, [&]{ return bad(how, d, r, w); }); } rest(t, how, wr); break; }
        case 6: { std::vector<Tag> f; for (int k = 0; k < nv; ++k) f.push_back(vtag(k, 1e8*(k + 1))); INMOST::Sparse::Vector x; e.CopyByEnumeration(f, x); for (auto& d: ds){ double r = x[d.id], w = at(f[d.v], *d.p, d.vpos); c.ok(r == w, [&]{ return bad(how, d, r, w); }); } break; }
        case 7: { auto x = vec(0.5); Tag t = vtag(v, KEEP); e.CopyVarByEnumeration(x, t, v); for (auto& d: ds) if (d.v == v){ double r = at(t, *d.p, d.vpos), w = 0.5 + d.id; wr.insert({d.p->h, d.vpos}); c.ok(r == w, [&]{ return bad(how, d, r, w); }); } rest(t, how, wr); break; }
        case 8: { Tag f = tag(mask, mx, 7), t = vtag(v, KEEP); e.CopyVarByEnumeration(f, t, v); for (auto& d: ds) if (d.v == v){ double r = at(t, *d.p, d.vpos), w = at(f, *d.p, d.pos); wr.insert({d.p->h, d.vpos}); c.ok(r == w, [&]{ return bad(how, d, r, w); }); } rest(t, how, wr); break; }
        case 9: { Tag f = vtag(v, 7), t = tag(mask, mx, KEEP); e.CopyVarByEnumeration(f, v, t); for (auto& d: ds) if (d.v == v){ double r = at(t, *d.p, d.pos), w = at(f, *d.p, d.vpos); wr.insert({d.p->h, d.pos}); c.ok(r == w, [&]{ return bad(how, d, r, w); }); } rest(t, how, wr); break; }
        default: { Tag f = vtag(v, 7), t = vtag(v, KEEP); e.CopyVarByEnumeration(v, f, t); for (auto& d: ds) if (d.v == v){ double r = at(t, *d.p, d.vpos), w = at(f, *d.p, d.vpos); wr.insert({d.p->h, d.vpos}); c.ok(r == w, [&]{ return bad(how, d, r, w); }); } rest(t, how, wr); break; }
    }
    if (rich(g, V)) c.nontrivial();
}
