// G01: numbering of the degrees of freedom of a mesh is a bijection in the announced order.
#include "grid.h"
using namespace Ani; using namespace grid;
using GE = IGlobEnumeration; using OE = OrderedEnumerator; using SE = SimpleEnumerator;
struct Dof { int v, t, d, k; const Part* p; GE::NaturalIndex nat; std::vector<long> key; };
static std::string str(const GE::NaturalIndex& n){ return fmt("(type %d var %d dim %d dof %d element %d:%d)", n.elem_type, n.var_id, n.dim_id, n.dim_elem_dof_id, n.elem.GetHandle() ? n.elem.GetElementNum() : -1, n.elem.GetHandle() ? n.elem.LocalID() : -1); }
static std::vector<Dof> all(const Grid& g, const Vars& V){ std::vector<Dof> r; for (int v = 0; v < (int)V.v.size(); ++v) for (int t = 0; t < 6; ++t) for (int d = 0; d < V.ndim(v); ++d) for (int k = 0; k < (int)V.per(v, t); ++k) for (auto& p: g.parts[parts::TDIM[t]]) r.push_back({v, t, d, k, &p, GE::NaturalIndex(g.el(p), parts::type_code(t), v, d, k), {}}); return r; }
struct Order { int kind = 0; std::array<unsigned char, 5> a{0,1,2,3,4}; bool rev = false; };   // 0 lexicographic, 1 by type and place, 2 by element
static void sort(std::vector<Dof>& w, const Vars& V, const Order& o){
    for (auto& x: w){ long f[5] = {x.v, x.d, x.t, x.p->gid, x.k}; long dim = parts::TDIM[x.t], pos = V.pos(x.v, x.t, x.d, x.k); if (o.kind == 0) x.key = {f[o.a[0]], f[o.a[1]], f[o.a[2]], f[o.a[3]], f[o.a[4]]}; else if (o.kind == 1) x.key = {dim, pos, x.p->gid}; else x.key = {dim, x.p->gid, pos}; }
    std::sort(w.begin(), w.end(), [](const Dof& a, const Dof& b){ return a.key < b.key; }); if (o.rev) std::reverse(w.begin(), w.end());
}
static void check(Src& s, Ctx& c, const GE& e, const Grid& g, const Vars& V, const std::vector<Dof>& w){
    long N = (long)w.size(); c.ok(bool(e) && e.getMatrixSize() == N && e.getBegInd() == 0 && e.getEndInd() == N, fmt("size %ld of %ld, indices %ld..%ld", e.getMatrixSize(), N, e.getBegInd(), e.getEndInd()));
    for (int t = 0; t < 6; ++t) c.ok(e.getNumDofs()[t] == V.nd[t], "numbers of degrees of freedom"); unsigned mask = 0; for (int d = 0; d < 4; ++d){ c.ok(e.getInmostMeshNumDof()[d] == V.on(d), "numbers on elements"); if (V.on(d)) mask |= 1u << d; } c.ok(e.getInmostVarElementType() == mask, "types of elements with degrees of freedom");
    for (int d = 0; d < 4; ++d) if (mask >> d & 1) c.ok(e.getNumElem()[d] == (long)g.parts[d].size() && e.getBegElemID()[d] == 0 && e.getEndElemID()[d] == (long)g.parts[d].size(), "numbers of elements");
    bool triv = true; for (int t = 0; t < 6; ++t){ int m = 0; for (auto& v: V.v) m |= v.f.sym[t]; if (V.nd[t] && (m >> 1)) triv = false; } c.ok(e.areVarsTriviallySymmetric() == triv, "trivial symmetry");
    for (long i = 0; i < N; ++i){ auto& x = w[i];
        long j = e(x.nat).id; c.ok(j == i, [&]{ return str(x.nat) + fmt(" has the number %ld, expected %ld of %ld", j, i, N); });
        c.ok(e.OrderC(x.nat).id == i && e.OrderR(x.nat).id == i, [&]{ return str(x.nat) + fmt(" has other numbers of a row %ld or a column %ld than %ld", e.OrderR(x.nat).id, e.OrderC(x.nat).id, i); });
        auto n = e(GE::EnumerateIndex(i)); c.ok(n == x.nat, [&]{ return fmt("the index %ld is ", i) + str(n) + ", expected " + str(x.nat); });
        unsigned pos = V.pos(x.v, x.t, x.d, x.k), vp = V.vpos(x.v, x.t, x.d, x.k);
        auto f1 = e.getFullIndex(x.nat), f2 = e.getFullIndex(x.nat.elem, (int)pos), f3 = e.getFullIndex(x.nat.elem, (uint)x.v, (int)vp); const char* nm[3] = {"by index", "by place", "by variable"}; int q = 0;
        for (auto* f: {&f1, &f2, &f3}){ const char* h = nm[q++]; c.ok(static_cast<const GE::NaturalIndex&>(*f) == x.nat, [&]{ return std::string("full index ") + h + " is " + str(*f) + ", expected " + str(x.nat); }); c.ok(f->GetElemDofId() == pos && f->GetSingleVarDofId() == vp, [&]{ return std::string("full index ") + h + " of " + str(x.nat) + fmt(" has places %u and %u, expected %u and %u", f->GetElemDofId(), f->GetSingleVarDofId(), pos, vp); }); } }
    // by number
    long i = 0; for (auto it = e.beginByVector(); it != e.endByVector(); ++it, ++i){ c.ok(i < N && it->GetVecInd().id == i && it->GetNatInd() == w[i].nat && (*it).GetNatInd() == w[i].nat, "going by numbers"); } c.ok(i == N, "going by numbers ends early");
    { auto b = e.beginByVector(), a = b; long p = 0; for (int k = 0; k < 6; ++k){ long to = (long)s.below(N + 1), d = to - p; switch (s.below(4)){ case 0: a += d; break; case 1: a -= -d; break; case 2: if (d > 0) for (; d; --d){ if (d & 1) a++; else ++a; } else for (; d; ++d){ if (d & 1) a--; else --a; } break; default: a = a + d; } p = to; c.ok(a->GetVecInd().id == p && (p == N || (*a).GetNatInd() == w[p].nat) && a - b == p, "a moved iterator");
        auto o = b + (long)s.below(N + 1); long r = o - b; c.ok((a < o) == (p < r) && (a > o) == (p > r) && (a <= o) == (p <= r) && (a >= o) == (p >= r) && (a == o) == (p == r) && (a != o) == (p != r), fmt("comparing iterators at %ld and %ld", p, r)); if (p < N){ auto v = b[p]; c.ok(v.GetVecInd().id == p && v.GetNatInd() == w[p].nat, "an element at a distance"); auto z = o - (r - p); c.ok(z == a, "a difference of an iterator"); } } }
    // by place on the mesh
    for (int k = 0; k < 4; ++k){ int var = -1, dim = -1, dof = -1; int et = 63; long lid = -1; if (k){ if (s.flip()) var = (int)s.below(V.v.size()); if (s.chance(1, 3)) dim = (int)s.below(3); if (s.chance(1, 3)) dof = (int)s.below(3); if (s.flip()) et = 1 + (int)s.below(63); if (s.chance(1, 3)) lid = (long)s.below(g.m->el[s.below(4)].size() + 1); }
        std::string nm = k ? fmt("slice var %d dim %d dof %d types %d element %ld", var, dim, dof, et, lid) : std::string("all places"); std::map<std::vector<long>, int> left; for (auto& x: w) if ((var < 0 || x.v == var) && (dim < 0 || x.d == dim) && (dof < 0 || x.k == dof) && (et >> x.t & 1) && (lid < 0 || x.nat.elem.LocalID() == lid)) left[{x.v, x.d, x.t, x.p->gid, x.k}] = 1;
        std::set<HandleType> done; HandleType cur = 0; size_t cnt = 0, want = left.size();
        for (auto it = e.beginByGeom(var, dim, dof, (unsigned char)et, lid); it != e.endByGeom(); ++it){ auto n = it->GetNatInd(); c.ok(n.isValid() && ++cnt <= want + 3, nm + ": too many places"); std::vector<long> key{n.var_id, n.dim_id, (long)DofT::GeomTypeToNum(n.elem_type), n.elem.GlobalID(), n.dim_elem_dof_id}; auto f = left.find(key); c.ok(f != left.end() && f->second == 1, [&]{ return nm + ": " + str(n) + (f == left.end() ? " is not in it" : " met twice"); }); f->second = 0; c.ok((*it).GetVecInd().id == e(n).id && it->GetEnum() == &e, nm + ": number of a place"); if (n.elem.GetHandle() != cur){ c.ok(done.insert(n.elem.GetHandle()).second, nm + ": an element is met again"); cur = n.elem.GetHandle(); } }
        c.ok(cnt == want, [&]{ return nm + fmt(": %d of %d places", (int)cnt, (int)want); }); c.label(k == 0 ? "whole mesh" : want == 0 ? "empty slice" : "slice"); }
}
static Order any_order(Src& s, Ctx& c){ Order o; std::vector<int> p{0, 1, 2, 3, 4}; s.shuffle(p); for (int k = 0; k < 5; ++k) o.a[k] = (unsigned char)p[k]; o.rev = s.flip(); c.note(fmt("order %d%d%d%d%d%s", p[0], p[1], p[2], p[3], p[4], o.rev ? " reversed" : "")); c.label(o.rev ? "reversed" : "direct"); return o; }
static bool rich(const Grid& g, const Vars& V){ return g.parts[3].size() > 1 && V.tet() > 4; }
static const char* RULE = "at least two cells and five degrees of freedom on a cell";
PBT_PROP(G01_types, 1500, 20000, RULE){
    Grid g = make(s, c); Vars V = variables(s, c, false, 60); if (s.flip()) g.m->AssignGlobalID(15); int t = (int)s.below(6); Order o; switch (t){ case 0: o.kind = 1; break; case 1: o.kind = 2; break; case 2: o.a = {0,1,2,3,4}; break; case 3: o.a = {0,2,3,4,1}; break; case 4: o.a = {2,0,1,3,4}; break; default: o.a = {2,0,3,4,1}; }
    static const char* nm[] = {"ANITYPE", "MINIBLOCKS", "NATURAL", "DIMUNION", "BYELEMTYPE", "ETDIMBLOCKS"}; c.note(nm[t]); c.label(nm[t]);
    if (t < 2 && s.flip()){ SE e((SE::ASSEMBLING_TYPE)t); e.setMesh(g.m.get()).setVars(V.c).setup(); auto w = all(g, V); sort(w, V, o); check(s, c, e, g, V, w); c.label("on its own"); c.ok(e.getAssemblingType() == (SE::ASSEMBLING_TYPE)t, "type of the numbering"); }
    else { GlobEnumeration e; if (s.flip()) e = GlobEnumeration((GlobEnumeration::ASSEMBLING_TYPE)t); else e.setAssemblingType((GlobEnumeration::ASSEMBLING_TYPE)t); e.setMesh(g.m.get()).setVars(V.c); e.setup(); if (s.chance(1, 4)) e.setup(); auto w = all(g, V); sort(w, V, o); check(s, c, e, g, V, w); c.ok((int)e.getAssemblingType() == t, "type of the numbering"); }
    if (rich(g, V)) c.nontrivial();
}
PBT_PROP(G01_orders, 1500, 20000, RULE){
    Grid g = make(s, c); Vars V = variables(s, c, false, 60); Order o = any_order(s, c); auto w = all(g, V); sort(w, V, o);
    OE e; switch (s.below(3)){ case 0: e = OE(g.m.get(), V.c, o.a, o.rev); break; case 1: e = OE("some_name", g.m.get(), V.c, o.a, o.rev); break; default: e.setArrangment(o.a).setReverse(o.rev).setMesh(g.m.get()).setVars(V.c).setup(); }
    auto ar = e.getArrangement(); c.ok(ar.second && ar.first == o.a, "arrangement");
    if (s.chance(1, 3)){ GlobEnumeration h; h.setBaseEnumerator(std::move(e)); h.setMesh(g.m.get()).setVars(V.c); h.setup(); check(s, c, h, g, V, w); c.label("inside a holder"); if (rich(g, V)) c.nontrivial(); return; }
    if (s.chance(1, 4)){ auto p = std::make_shared<OE>(std::move(e)); GlobEnumeration h; h.setBaseEnumerator(std::static_pointer_cast<GE>(p)); h.setMesh(g.m.get()).setVars(V.c); h.setup(); check(s, c, h, g, V, w); c.label("shared with a holder"); if (rich(g, V)) c.nontrivial(); return; }
    check(s, c, e, g, V, w); c.label("on its own");
    auto u = all(g, V); Order d = o; d.rev = false; sort(u, V, d);
    for (int k = 0; k < 8; ++k){ int t; do t = (int)s.below(6); while (!V.nd[t]); auto& ps = g.parts[parts::TDIM[t]]; GE::IsoElementIndex iei(parts::type_code(t), (int)s.below(V.v.size() + 1), (int)s.below(4), (int)s.below(4)); long gid = (long)s.below(ps.size()); if (s.flip()){ auto& x = u[s.below(u.size())]; iei = x.nat; gid = x.p->gid; t = x.t; }
        long f[5] = {iei.var_id, iei.dim_id, t, gid, iei.dim_elem_dof_id}; std::vector<long> key{f[o.a[0]], f[o.a[1]], f[o.a[2]], f[o.a[3]], f[o.a[4]]}; long i = std::lower_bound(u.begin(), u.end(), key, [](const Dof& a, const std::vector<long>& k){ return a.key < k; }) - u.begin(), N = (long)u.size();
        auto it = e.getLowerOrderIndex(gid, iei); c.ok(i == N ? it == e.endByVector() : it->GetVecInd().id == (o.rev ? N - 1 - i : i), [&]{ return fmt("first index not below var %d dim %d type %d element %ld dof %d: %ld, expected %ld of %ld", iei.var_id, iei.dim_id, iei.elem_type, gid, iei.dim_elem_dof_id, it->GetVecInd().id, i == N ? N : o.rev ? N - 1 - i : i, N); }); c.label(i == N ? "after the last" : u[i].key == key ? "exact key" : "key between"); }
    if (rich(g, V)) c.nontrivial();
}
PBT_PROP(G01_release, 600, 8000, "at least three enumerators were made"){
    Grid g = make(s, c, 3); Vars V = variables(s, c, false, 40); auto types = [&]{ size_t r = 0; for (int d = 0; d < 4; ++d) r += V.on(d) > 0; return r; }; size_t nt = types();
    { OE e(g.m.get(), V.c); } size_t base = g.m->live_tags(); int made = 0;
    { std::vector<OE> es(3); SE se; GlobEnumeration ge; bool have[3] = {}, hs = false, hg = false;
      for (int k = s.range(3, 10); k-- > 0;){ int a = (int)s.below(3), b = (int)s.below(3); switch (s.pick({3, 2, 2, 2, 2, 1, 1, 1})){
        case 0: es[a] = OE(g.m.get(), V.c, {0,1,2,3,4}, s.flip()); have[a] = true; ++made; c.note(fmt("new %d", a)); break;
        case 1: if (a != b && have[b]){ es[a] = std::move(es[b]); have[a] = true; have[b] = false; c.note(fmt("%d = moved %d", a, b)); } break;
        case 2: es[a].Clear(); have[a] = false; c.note(fmt("clear %d", a)); break;
        case 3: { OE t(std::move(es[a])); have[a] = false; c.note(fmt("moved %d away", a)); break; }
        case 4: se.setMesh(g.m.get()).setVars(V.c).setup(); hs = true; ++made; c.note("simple"); break;
        case 5: se.Clear(); hs = false; c.note("clear simple"); break;
        case 6: ge.setAssemblingType((GlobEnumeration::ASSEMBLING_TYPE)s.below(6)).setMesh(g.m.get()).setVars(V.c); ge.setup(); hg = true; ++made; c.note("holder"); break;
        default: ge.Clear(); hg = false; c.note("clear holder"); }
        size_t want = base + nt*(have[0] + have[1] + have[2] + hs + hg); c.ok(g.m->live_tags() == want, [&]{ return fmt("%d tags are kept on the mesh, expected %d", (int)g.m->live_tags(), (int)want); });
        for (int q = 0; q < 3; ++q) if (have[q]){ auto it = es[q].beginByGeom(); c.ok(es[q](it->GetNatInd()).id >= 0 && es[q].OrderC(it->GetNatInd()).id == it->GetVecInd().id, "an enumerator that was moved works"); } } }
    c.ok(g.m->live_tags() == base, "tags are left on the mesh"); if (made >= 3) c.nontrivial();
}
