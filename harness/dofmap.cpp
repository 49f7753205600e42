// M01-M05: maps of local degrees of freedom against an explicit table of places.
#include "dofgen.h"
#include "patterns.h"
static std::string lo_str(const LocalOrder& l){ return fmt("{number %u, type %d, part %d, index %u, group %d, index in group %d}", l.gid, (int)l.etype, (int)l.nelem, l.leid, (int)l.stype, (int)l.lsid); }
static void same_item(Ctx& c, const LocalOrder& l, unsigned gid, const Item& i, const char* who, bool sym = true){
    c.ok(l.gid == gid && l.etype == parts::type_code(i.t) && l.nelem == i.el && l.leid == i.leid && (!sym || (l.stype == i.st && l.lsid == i.ls)), [&]{
        return fmt("%s gives %s, expected {number %u, type %d, part %d, index %u, group %d, index in group %d}", who, lo_str(l).c_str(), gid, 1 << i.t, i.el, i.leid, i.st, i.ls); });
}
static void labels(Ctx& c, const Map& m){ c.note(m.txt); if (m.txt.find("C(") != std::string::npos) c.label("compile-time composition"); if (m.kind == 1) c.label("power"); if (m.kind == 2) c.label("product"); if (m.kind == 0) c.label("elementary"); bool mix = false; mix = (m.f.nd[1] && m.f.nd[2]) || (m.f.nd[3] && m.f.nd[4]); if (mix) c.label("mixed orientation types on a part"); if (m.f.d.empty()) c.label("empty"); }

PBT_PROP(M01_numbering, 6000, 60000, "the map has at least two degrees of freedom of different types or more than one per part"){
    Map m = small_map(s, 3); const BaseDofMap& b = *m.p; labels(c, m); unsigned N = (unsigned)m.f.d.size();
    int types = 0, multi = 0; for (unsigned x: m.f.nd){ types += x > 0; multi += x > 1; } if (types > 1 || multi) c.nontrivial();
    c.ok(b.NumDofOnTet() == N, fmt("total is %u, expected %u", b.NumDofOnTet(), N));
    auto nd = b.NumDofs(), nt = b.NumDofsOnTet(); unsigned gm = 0;
    for (int t = 0; t < 6; ++t){ auto T = parts::type_code(t); unsigned on = m.f.nd[t]*parts::CNT[parts::TDIM[t]]; if (m.f.nd[t]) gm |= T;
        c.ok(b.NumDof(T) == m.f.nd[t] && nd[t] == m.f.nd[t] && b.NumDofOnTet(T) == on && nt[t] == on, fmt("counts of type %d: %u %u per part, %u %u in all, expected %u and %u", (int)T, b.NumDof(T), nd[t], b.NumDofOnTet(T), nt[t], m.f.nd[t], on));
        if (N) c.ok(b.DefinedOn(T) == (m.f.nd[t] > 0), fmt("defined on type %d", (int)T)); }
    if (N) c.ok(b.GetGeomMask() == gm, fmt("mask of types is %u, expected %u", b.GetGeomMask(), gm));
    DofMap w(m.p); unsigned n = 0;
    for (auto it = b.begin(); it != b.end(); ++it, ++n) same_item(c, *it, n, m.f.d.at(n), "sequential iteration");
    c.ok(n == N && b.end() - b.begin() == (int)N, "number of items in a sequential iteration");
    for (unsigned i = 0; i < N; ++i){
        const Item& e = m.f.d[i]; LocGeomOrder g(parts::type_code(e.t), e.el, e.leid);
        same_item(c, b.LocalOrderOnTet(TetOrder(i)), i, e, "place of a number"); same_item(c, b[i], i, e, "[number]"); same_item(c, b.LocalOrderOnTet(g), i, e, "number of a place");
        c.ok(b.TypeOnTet(i) == parts::type_code(e.t), fmt("type of number %u is %u", i, b.TypeOnTet(i)));
        auto x = b.TetDofIDExt(g); c.ok(b.TetDofID(g) == i && x.first == i && x.second.stype == e.st && x.second.lsid == e.ls, fmt("number of place type %d part %d index %u is %u, %u, expected %u", 1 << e.t, e.el, e.leid, b.TetDofID(g), x.first, i));
        c.ok(b.isValidIndex(TetOrder(i)) && b.isValidIndex(g) && b.isValidIndex(b[i]), "a valid number or place is called invalid");
        c.ok(g.isValid() && b[i].isValid(), "a valid place calls itself invalid");
        if (e.st != 255){ c.ok(b.isValidIndex(b[i], true), "a valid place with its symmetry group is called invalid"); LocalOrder bad = b[i]; bad.lsid = (unsigned char)VOL[e.t][e.st]; c.ok(!b.isValidIndex(bad, true), "an index outside the symmetry group is called valid"); }
        same_item(c, w.LocalOrderOnTet(TetOrder(i)), i, e, "wrapper"); c.ok(w.TetDofID(g) == i && w.TypeOnTet(i) == parts::type_code(e.t), "wrapper");
    }
    for (int t = 0; t < 6; ++t){ auto T = parts::type_code(t); int cnt = parts::CNT[parts::TDIM[t]];
        for (int e = 0; e <= cnt + 1; ++e) for (unsigned l: {0u, m.f.nd[t] ? m.f.nd[t] - 1 : 0u, m.f.nd[t], m.f.nd[t]*cnt, ~0u}){
            bool ok = e < cnt && l < m.f.nd[t]; LocGeomOrder g(T, e, l); c.ok(b.isValidIndex(g) == ok, fmt("place type %d part %d index %u is called %s", (int)T, e, l, ok ? "invalid" : "valid"));
            bool thrown = false; try { b.at(g); } catch (const std::out_of_range&){ thrown = true; } c.ok(thrown == !ok, "at(place)"); } }
    for (unsigned i: {N, N + 1, 2*N + 7, ~0u}){ c.ok(!b.isValidIndex(TetOrder(i)), fmt("number %u is called valid", i)); bool thrown = false; try { b.at(TetOrder(i)); } catch (const std::out_of_range&){ thrown = true; } c.ok(thrown, "at(number)"); }
    c.ok(!b.isValidIndex(LocGeomOrder()) && !b.isValidIndex(LocGeomOrder(64, 0, 0)) && !b.isValidIndex(LocalOrder()), "an undefined place is called valid");
    for (int t = 0; t < 6; ++t) if (N) c.ok(b.SymComponents(parts::type_code(t)) == m.f.sym[t], fmt("symmetry groups of type %d are %d, expected %d", 1 << t, (int)b.SymComponents(parts::type_code(t)), m.f.sym[t]));
}

PBT_PROP(M01_iterator, 2000, 20000, "the map has at least four degrees of freedom"){
    Map m = small_map(s, 2); labels(c, m); int N = (int)m.f.d.size(); s.assume(N > 0); if (N >= 4) c.nontrivial(); const BaseDofMap& b = *m.p;
    auto it = b.begin(); int pos = 0;
    for (int k = 0; k < 30; ++k){
        int op = (int)s.below(9), to = (int)s.below(N + 1), d = to - pos; auto old = it; int po = pos;
        switch (op){ case 0: if (pos < N){ auto r = it++; ++pos; c.ok(r == old, "it++"); } break; case 1: if (pos < N){ ++it; ++pos; } break; case 2: if (pos > 0){ auto r = it--; --pos; c.ok(r == old, "it--"); } break; case 3: if (pos > 0){ --it; --pos; } break;
            case 4: it += d; pos = to; break; case 5: it -= -d; pos = to; break; case 6: it = it + d; pos = to; break; case 7: it = it - (-d); pos = to; break; default: it = d + it; pos = to; }
        c.ok(it - b.begin() == pos && b.end() - it == N - pos && it - old == pos - po, fmt("distances at position %d", pos));
        c.ok((it < old) == (pos < po) && (it > old) == (pos > po) && (it <= old) == (pos <= po) && (it >= old) == (pos >= po) && (it == old) == (pos == po) && (it != old) == (pos != po), "comparison of positions");
        if (pos < N){ same_item(c, *it, pos, m.f.d[pos], "*it"); same_item(c, *it.operator->(), pos, m.f.d[pos], "it->"); }
        int q = (int)s.below(N); same_item(c, it[q - pos], q, m.f.d[q], "it[n]");
    }
}

// visits of a selection
static std::vector<LocalOrder> visit(Ctx& c, const BaseDofMap& b, const parts::Sel& sel, bool geom, size_t cap){
    std::vector<LocalOrder> r; auto e = b.endBySparsity(); bool post = sel.m.size() & 1;
    for (auto it = b.beginBySparsity(sel.sp, geom); it != e; ){ r.push_back(*it); if (!c.ok(r.size() <= cap, "the iteration does not end")) break; if (post){ auto o = it++; c.ok(o->gid == r.back().gid, "it++"); } else ++it; }
    return r;
}
static void check_visit(Ctx& c, const BaseDofMap& b, const Flat& f, const parts::Sel& sel, bool geom, unsigned from = 0, unsigned to = ~0u){
    std::vector<unsigned> expect; to = std::min<unsigned>(to, f.d.size()); for (unsigned i = from; i < to; ++i) if (sel.has(f.d[i].mask())) expect.push_back(i);
    auto got = visit(c, b, sel, geom, expect.size() + 3); std::vector<unsigned> g; for (auto& l: got) g.push_back(l.gid); auto order = g; std::sort(g.begin(), g.end());
    c.ok(g == expect, [&]{ return fmt("%s iteration over ", geom ? "geometric" : "plain") + sel.txt + "visits [" + pbt::join(order.begin(), order.end(), ",") + "], expected [" + pbt::join(expect.begin(), expect.end(), ",") + "]"; });
    for (auto& l: got) if (l.gid < f.d.size()) same_item(c, l, l.gid, f.d[l.gid], geom ? "an item of a geometric iteration" : "an item of a plain iteration");
    if (geom) for (size_t i = 1; i < got.size(); ++i){ const Item &a = f.d[got[i-1].gid], &d = f.d[got[i].gid]; auto ka = std::make_pair(parts::TDIM[a.t], a.el), kd = std::make_pair(parts::TDIM[d.t], d.el); c.ok(ka <= kd, "a geometric iteration leaves a part and comes back"); }
}
PBT_PROP(M02_selection, 8000, 90000, "the selection holds some but not all of the degrees of freedom and at least two of them"){
    Map m = small_map(s, 3); labels(c, m); parts::Sel sel = parts::selection(s); c.note(sel.txt); size_t k = 0; for (auto& i: m.f.d) k += sel.has(i.mask()); if (k >= 2 && k < m.f.d.size()) c.nontrivial();
    check_visit(c, *m.p, m.f, sel, false); check_visit(c, *m.p, m.f, sel, true);
    if (m.kind && m.ch.size() > 1){ std::vector<unsigned> st{0}; for (auto& h: m.ch) st.push_back(st.back() + (unsigned)h.f.d.size()); unsigned last = 0;
        for (auto& l: visit(c, *m.p, sel, false, m.f.d.size() + 3)){ unsigned p = std::upper_bound(st.begin(), st.end(), l.gid) - st.begin(); c.ok(p >= last, "plain iteration does not go component after component"); last = p; } }
}
// random path to a nested component; the model of the component and the shift of its block
static const Map* walk(Src& s, const Map& m, std::vector<int>& path, unsigned& gid, std::array<unsigned, 6>& leid, bool atleast){
    const Map* r = &m;
    while (!r->ch.empty() && (path.empty() ? atleast || s.chance(3, 4) : s.chance(1, 2))){ int k = (int)s.below(r->ch.size()); path.push_back(k); for (int i = 0; i < k; ++i){ gid += (unsigned)r->ch[i].f.d.size(); for (int t = 0; t < 6; ++t) leid[t] += r->ch[i].f.nd[t]; } r = &r->ch[k]; }
    return r;
}
PBT_PROP(M02_nested, 4000, 40000, "the block of the component is a proper part of the map and the selection meets it"){
    Map m = small_map(s, 3); s.assume(!m.ch.empty()); labels(c, m); std::vector<int> path; unsigned g0 = 0; std::array<unsigned, 6> l0{}; const Map* sub = walk(s, m, path, g0, l0, true); c.note("component " + pbt::show(path)); parts::Sel sel = parts::selection(s); c.note(sel.txt);
    size_t k = 0; for (auto& i: sub->f.d) k += sel.has(i.mask()); if (k && sub->f.d.size() < m.f.d.size()) c.nontrivial();
    unsigned g1 = g0 + (unsigned)sub->f.d.size();
    auto v = m.p->GetNestedDofMapView(path.data(), (int)path.size()); auto d = m.p->GetNestedDofMap(path.data(), (int)path.size());
    bool geom = s.flip(); check_visit(c, v, m.f, sel, geom, g0, g1); check_visit(c, d, m.f, sel, geom, g0, g1);
}

PBT_PROP(M03_nested, 5000, 50000, "the component lies behind other components"){
    Map m = small_map(s, 3); s.assume(!m.ch.empty()); labels(c, m); std::vector<int> path; unsigned g0 = 0; std::array<unsigned, 6> l0{}; const Map* sub = walk(s, m, path, g0, l0, true); c.note("component " + pbt::show(path)); if (g0) c.nontrivial();
    int np = (int)path.size(); unsigned n = (unsigned)sub->f.d.size();
    std::vector<std::shared_ptr<NestedDofMapBase>> vs; vs.push_back(std::make_shared<NestedDofMapView>(m.p->GetNestedDofMapView(path.data(), np))); vs.push_back(std::make_shared<NestedDofMap>(m.p->GetNestedDofMap(path.data(), np)));
    if (np > 1){ // view of a view
        int h = s.range(1, np - 1); auto o = m.p->GetNestedDofMapView(path.data(), h); std::vector<int> rest{0}; rest.insert(rest.end(), path.begin() + h, path.end()); NestedDofMapView w; o.GetNestedComponent(rest.data(), (int)rest.size(), w); vs.push_back(std::make_shared<NestedDofMapView>(w)); c.label("view of a view"); }
    for (auto& v: vs){
        c.ok(v->NumDofOnTet() == n && v->NumDofs() == sub->f.nd, "counts of the nested map");
        for (unsigned i = 0; i < n; ++i){ const Item &e = sub->f.d[i], &o = m.f.d[g0 + i]; LocGeomOrder g(parts::type_code(e.t), e.el, e.leid);
            same_item(c, v->LocalOrderOnTet(TetOrder(i)), g0 + i, o, "nested map, place of a number"); same_item(c, v->LocalOrderOnTet(g), g0 + i, o, "nested map, number of a place");
            c.ok(v->TetDofID(g) == g0 + i && v->TetDofIDExt(g).first == g0 + i, "nested map, number of a place"); c.ok(v->TypeOnTet(i) == parts::type_code(e.t), "nested map, type"); }
        for (unsigned i = 0; i < m.f.d.size(); ++i){ bool in = i >= g0 && i < g0 + n; const Item& o = m.f.d[i]; LocalOrder l = (*m.p)[i];
            c.ok(v->isValidOutputIndex(TetOrder(i)) == in, fmt("the nested map says number %u is %s", i, in ? "outside" : "inside"));
            c.ok(v->isValidOutputIndex(l.getGeomOrder()) == in, fmt("the nested map says the place of number %u is %s", i, in ? "outside" : "inside")); c.ok(v->isValidOutputIndex(l) == in, "nested map, valid item"); (void)o; }
        auto cp = v->Copy(); c.ok(*cp == *v, "a copy of a nested map differs");
    }
    auto sd = m.p->GetSubDofMap(path.data(), np); c.ok(sd && sd->NumDofOnTet() == n, "sub-map"); if (sd){ for (unsigned i = 0; i < n; ++i) same_item(c, (*sd)[i], i, sub->f.d[i], "sub-map"); c.ok(*sd == *sub->p, "the sub-map differs from the map it was made of"); }
    c.ok(m.p->NestedDim() == m.ch.size(), fmt("number of components is %u, expected %zu", m.p->NestedDim(), m.ch.size()));
    std::vector<int> bad = path; bad.back() = s.flip() ? -1 : (np == 1 ? (int)m.ch.size() : 1000); c.ok(!m.p->GetSubDofMap(bad.data(), np), "a component that does not exist"); c.ok(m.p->GetNestedDofMapView(bad.data(), np).base() == nullptr, "a view of a component that does not exist");
    // component of a number
    auto comp = [&](auto* q){ for (unsigned i = 0; i < m.f.d.size(); ++i){ unsigned k = 0, st = 0; std::array<unsigned, 6> ls{}; while (i >= st + m.ch[k].f.d.size()){ st += (unsigned)m.ch[k].f.d.size(); for (int t = 0; t < 6; ++t) ls[t] += m.ch[k].f.nd[t]; ++k; }
            auto r = q->ComponentID(TetOrder(i)); c.ok(r.part_id == k && uint(r.cgid) == i - st && uint(r.gid) == i, fmt("component of number %u", i)); const Item& o = m.f.d[i]; auto e = q->ComponentID(ElemOrder(parts::type_code(o.t), o.leid)); c.ok(e.part_id == k && uint(e.cgid) == o.leid - ls[o.t] && uint(e.gid) == o.leid && e.etype == parts::type_code(o.t), fmt("component of index %u of type %d", o.leid, 1 << o.t)); c.ok(q->TetDofID(k, TetOrder(i - st)) == i, "number of a component's number"); } };
    if (auto* q = dynamic_cast<VectorDofMap*>(m.p.get())) comp(q); else if (auto* q = dynamic_cast<ComplexDofMap*>(m.p.get())) comp(q);
}
static void same_layout(Ctx& c, const BaseDofMap& b, const Flat& f, const char* who){
    if (!c.ok(b.NumDofOnTet() == f.d.size() && b.NumDofs() == f.nd, [&]{ return fmt("%s: counts", who); })) return;
    for (unsigned i = 0; i < f.d.size(); ++i) same_item(c, b[i], i, f.d[i], who);
}
PBT_PROP(M03_compose, 5000, 50000, "an operand is itself composed or the operands are equal"){
    std::vector<Map> pool; for (int i = s.range(1, 3); i-- > 0;){ Map m = small_map(s, 1); if (m.txt.find("C(") == std::string::npos || s.chance(1, 3)) pool.push_back(m); else pool.push_back(elementary(s)); }
    struct E { DofMap d; Flat f; std::string txt; }; std::vector<E> v; for (auto& m: pool) v.push_back({DofMap(m.p), m.f, m.txt});
    for (int k = s.range(1, 4); k-- > 0;){
        E a = v[s.below(v.size())], b = v[s.below(v.size())], r;
        switch (s.pick({4, 2, 2, 1, 2})){
            case 0: r.d = a.d*b.d; r.f = a.f; r.f.append(b.f); r.txt = "(" + a.txt + "*" + b.txt + ")"; break;
            case 1: { int n = s.range(1, 3); r.d = a.d ^ n; for (int i = 0; i < n; ++i) r.f.append(a.f); r.txt = a.txt + fmt("^%d", n); break; }
            case 2: { int n = s.range(1, 3); r.d = pow(a.d, n); for (int i = 0; i < n; ++i) r.f.append(a.f); r.txt = "pow(" + a.txt + fmt(",%d)", n); break; }
            default: { bool simp = s.flip(); std::vector<DofMap> ms; r.txt = simp ? "merge_simplified(" : "merge("; for (int n = s.range(1, 4); n-- > 0;){ E& e = v[s.below(v.size())]; ms.push_back(e.d); r.f.append(e.f); r.txt += e.txt + ","; } r.txt += ")"; r.d = simp ? merge_with_simplifications(ms) : merge(ms); break; }
        }
        if (r.f.d.size() > 900) continue;
        c.note(r.txt); same_layout(c, *r.d.base(), r.f, "composition"); if (a.txt == b.txt || a.txt.find('(') != std::string::npos) c.nontrivial();
        parts::Sel sel = parts::selection(s); check_visit(c, *r.d.base(), r.f, sel, s.flip()); v.push_back(r);
    }
    // the operands are unchanged
    for (auto& m: pool) same_layout(c, *m.p, m.f, "operand after composition");
    std::vector<Ptr> ps; Flat f; for (int n = s.range(1, 5); n-- > 0;){ auto& m = pool[s.below(pool.size())]; ps.push_back(m.p); f.append(m.f); } ComplexDofMap cm = ComplexDofMap::makeCompressed(ps); same_layout(c, cm, f, "makeCompressed");
}
PBT_PROP(M03_equality, 4000, 40000, "both maps were built from the same description or differ only in one detail"){
    auto tape_map = [&](Src& q){ return any_map(q, 2); };
    Map a = tape_map(s); s.assume(a.f.d.size() <= 500); labels(c, a);
    auto cp = a.p->Copy(); c.ok(*cp == *a.p && *a.p == *cp && !(*cp != *a.p), "a copy differs from its origin"); same_layout(c, *cp, a.f, "copy");
    Map b = tape_map(s); s.assume(b.f.d.size() <= 500); c.note(b.txt);
    bool eq = *a.p == *b.p; c.ok(eq == (*b.p == *a.p), "equality is not symmetric"); if (a.txt == b.txt){ c.nontrivial(); c.ok(eq, "equal constructions compare different"); }
    bool same = a.f.nd == b.f.nd && a.f.d.size() == b.f.d.size(); if (same) for (size_t i = 0; i < a.f.d.size(); ++i){ auto &x = a.f.d[i], &y = b.f.d[i]; same = same && x.t == y.t && x.el == y.el && x.leid == y.leid && x.st == y.st && x.ls == y.ls; }
    if (eq) c.ok(same, "maps of different layouts compare equal");
    // elementary maps with the same counts but another symmetry or another type
    Map e = elementary(s); std::array<unsigned, 6> n = e.counts; int t = (int)s.below(6); auto n2 = n; bool change = s.flip(); if (change) n2[t] += 1; UniteDofMap u(n), u2(n2); c.nontrivial(); c.ok((u == u2) == !change, "elementary maps");
    unsigned k = s.range(1, 3); { UniteDofMap x(DofSymmetries({0}, {0}, {0}, {3*k, 0, 0})), y(DofSymmetries({0}, {0}, {0}, {0, k, 0})); c.ok(!(x == y), "maps with different symmetry groups compare equal"); DofMap p = DofMap(x)*DofMap(y); c.ok(p.base()->LocalOrderOnTet(TetOrder(12*k)).stype == 1, "a product merges maps with different symmetry groups"); }
    { VectorDofMapC<UniteDofMap> x(k, u); VectorDofMapC<VectorDofMap> y(k, VectorDofMap(1, std::make_shared<UniteDofMap>(u2))); const BaseDofMap &bx = x, &by = y; c.ok(!(bx == by), "powers of different kinds of maps compare equal"); VectorDofMapC<UniteDofMap> z(k + (change ? 0 : 1), u2); c.ok(!(bx == z), "different powers compare equal"); }
    { ComplexDofMapC<UniteDofMap, UniteDofMap> x(u, u), y(u, u2), z(u, u); ComplexDofMapC<UniteDofMap> w(u); const BaseDofMap &bx = x, &bw = w; c.ok((bx == y) == !change && bx == z, "compile-time products"); c.ok(!(bx == bw) && !(bw == bx), "products of different sizes compare equal"); }
}

// ---- selections as sets ------------------------------------------------------------------------------------------
struct Set { TetGeomSparsity sp; std::set<int> m; };       // masks of parts
static void check_set(Ctx& c, const Set& x, const std::string& after){
    std::vector<std::pair<int,int>> e; for (int d = 0; d < 4; ++d) for (int i = 0; i < parts::CNT[d]; ++i) if (x.m.count(parts::mask(d, i))) e.push_back({d, i});
    auto txt = [&](const std::vector<std::pair<int,int>>& v){ std::string r; for (auto& p: v) r += fmt("%c%d ", "nefc"[p.first], p.second); return r; };
    std::vector<std::pair<int,int>> g; for (auto p = x.sp.beginPos(); p != x.sp.endPos(); p = x.sp.nextPos(p)){ g.push_back({p.elem_dim, p.elem_num}); if (!c.ok(g.size() <= 20 && p.isValid(), "positions do not end")) return; }
    c.ok(g == e, [&]{ return after + ": the selection is { " + txt(g) + "}, expected { " + txt(e) + "}"; });
    c.ok(x.sp.empty() == e.empty(), after + ": empty()");
    for (int d = 0; d < 4; ++d){ std::vector<int> ids, w; for (auto& p: e) if (p.first == d) ids.push_back(p.second);
        auto r = x.sp.getElemsIds(d); for (int i = 0; i < r.second && i < 6; ++i) w.push_back(r.first[i]); c.ok(w == ids && r.second == ids.size(), after + ": list of parts of one dimension"); c.ok(x.sp.empty(d) == ids.empty(), after + ": empty(dimension)");
        w.clear(); for (auto p = x.sp.beginPos(d); p != x.sp.endPos(); p = x.sp.nextPosOnDim(p)){ w.push_back(p.elem_num); c.ok(p.elem_dim == d, "dimension of a position"); if (w.size() > 6) break; } c.ok(w == ids, after + ": positions of one dimension");
        // next position from a part that need not be selected
        for (int i = 0; i < parts::CNT[d]; ++i){ auto p = x.sp.nextPos(TetGeomSparsity::Pos(d, i)); auto it = std::upper_bound(e.begin(), e.end(), std::make_pair(d, i)); if (it == e.end()) c.ok(!p.isValid() && p == x.sp.endPos(), after + ": next position"); else c.ok(p.isValid() && p.elem_dim == it->first && p.elem_num == it->second, after + ": next position"); }
    }
    c.ok(x.sp.nextPos(x.sp.endPos()) == x.sp.endPos() && x.sp.nextPosOnDim(x.sp.endPos()) == x.sp.endPos(), "next of the end");
}
PBT_PROP(M04_set_algebra, 8000, 80000, "at least two steps changed the selection"){
    std::vector<Set> v(3); int changed = 0; int steps = s.range(2, 14);
    for (int k = 0; k < steps; ++k){
        int a = (int)s.below(3), b = (int)s.below(3), d = (int)s.below(4), i = (int)s.below(parts::CNT[d]); bool cl = s.flip(); Set& x = v[a]; auto before = x.m; std::string op; int pm = parts::mask(d, i);
        auto put = [&](bool on){ if (on) x.m.insert(pm); else x.m.erase(pm); if (cl) for (int q = 1; q < 16; ++q) if ((q & pm) == q){ if (on) x.m.insert(q); else x.m.erase(q); } };
        auto put_dim = [&](bool on){ for (int j = 0; j < parts::CNT[d]; ++j) if (on) x.m.insert(parts::mask(d, j)); else x.m.erase(parts::mask(d, j)); };
        TetGeomSparsity* ret = &x.sp;
        switch (s.pick({3, 3, 2, 2, 1, 1, 1, 2, 2, 2, 2, 2, 2})){
            case 0: op = fmt("set(%d,%d,%d)", d, i, cl); ret = &x.sp.set(d, i, cl); if (d == 0) cl = false; put(true); break;
            case 1: op = fmt("unset(%d,%d,%d)", d, i, cl); ret = &x.sp.unset(d, i, cl); if (d == 0) cl = false; put(false); break;
            case 2: op = fmt("setX(%d,%d,%d)", d, i, cl); switch (d){ case 0: ret = &x.sp.setNode(i); cl = false; break; case 1: ret = &x.sp.setEdge(i, cl); break; case 2: ret = &x.sp.setFace(i, cl); break; default: ret = &x.sp.setCell(cl); } put(true); break;
            case 3: op = fmt("unsetX(%d,%d,%d)", d, i, cl); switch (d){ case 0: ret = &x.sp.unsetNode(i); cl = false; break; case 1: ret = &x.sp.unsetEdge(i, cl); break; case 2: ret = &x.sp.unsetFace(i, cl); break; default: ret = &x.sp.unsetCell(cl); } put(false); break;
            case 4: op = fmt("set(%d)", d); ret = &x.sp.set(d); put_dim(true); break;
            case 5: op = fmt("unset(%d)", d); ret = &x.sp.unset(d); put_dim(false); break;
            case 6: op = fmt("all(%d,%d)", d, cl); if (d == 3) d = 0; if (cl) ret = d == 0 ? &x.sp.setNodes() : d == 1 ? &x.sp.setEdges() : &x.sp.setFaces(); else ret = d == 0 ? &x.sp.unsetNodes() : d == 1 ? &x.sp.unsetEdges() : &x.sp.unsetFaces(); put_dim(cl); break;
            case 7: op = fmt("%d.set(%d)", a, b); { auto o = v[b].m; ret = &x.sp.set(v[b].sp); x.m.insert(o.begin(), o.end()); } break;
            case 8: op = fmt("%d.unset(%d)", a, b); { auto o = v[b].m; ret = &x.sp.unset(v[b].sp); for (int q: o) x.m.erase(q); } break;
            case 9: op = fmt("%d&=%d", a, b); { std::set<int> r; for (int q: x.m) if (v[b].m.count(q)) r.insert(q); x.sp = x.sp & v[b].sp; x.m = r; } break;
            case 10: op = fmt("%d|=%d", a, b); { auto o = v[b].m; x.sp = x.sp | v[b].sp; x.m.insert(o.begin(), o.end()); } break;
            case 11: op = fmt("%d^=%d", a, b); { std::set<int> r; for (int q = 1; q < 16; ++q) if (x.m.count(q) != v[b].m.count(q)) r.insert(q); x.sp = x.sp ^ v[b].sp; x.m = r; } break;
            default: if (s.chance(1, 6)){ op = fmt("%d.clear", a); x.sp.clear(); x.m.clear(); } else { op = fmt("~%d", a); std::set<int> r; for (int q = 1; q < 16; ++q) if (!x.m.count(q)) r.insert(q); x.sp = ~x.sp; x.m = r; }
        }
        c.ok(ret == &x.sp, op + " returns another object"); c.note(op); c.label(op.substr(0, op.find_first_of("(=")).find_first_of("0123") == std::string::npos ? op.substr(0, op.find('(')) : "set operation"); changed += before != x.m; check_set(c, x, op);
    }
    if (changed >= 2) c.nontrivial();
}

// ---- renumbering --------------------------------------------------------------------------------------------------
PBT_ENUM(M05_tables, 24, "always: every part, group and index under one of the 24 renumberings"){
    c.nontrivial(); unsigned char sg[4]; { std::vector<int> p{0, 1, 2, 3}; int n = (int)s.below(24); for (int k = 0; k < n; ++k) std::next_permutation(p.begin(), p.end()); for (int k = 0; k < 4; ++k) sg[k] = (unsigned char)p[k]; c.note(fmt("vertices -> %d%d%d%d", p[0], p[1], p[2], p[3])); }
    for (int t = 0; t < 6; ++t) for (int e = 0; e < parts::CNT[parts::TDIM[t]]; ++e) for (int st = 0; st < NSYM[t]; ++st) for (int ls = 0; ls < (int)VOL[t][st]; ++ls){
        Item i{t, e, 0, st, ls}; std::string w = moved(weights(i), sg), p; for (char ch: w) if (ch != '.') p += ch;       // the vertices of the part in increasing new numbers
        int expect = -1; for (int q = 0; q < (int)VOL[t][st]; ++q) if (pattern(t, st, q) == p) expect = q;
        int got = DofSymmetries::index_on_reorderd_elem(parts::type_code(t), e, st, ls, sg);
        c.ok(got == expect, fmt("type %d part %d group %d index %d goes to %d, expected %d", 1 << t, e, st, ls, got, expect));
        c.ok(DofSymmetries::symmetry_volume(parts::type_code(t), st) == VOL[t][st] && DofSymmetries::symmetries_amount(parts::type_code(t)) == NSYM[t], "group sizes");
    }
    std::array<std::array<unsigned char, 4>, 24> all; S4::all_permutations(all); std::set<std::array<unsigned char, 4>> u(all.begin(), all.end()); c.ok(u.size() == 24, "all permutations"); for (auto& a: u){ int m = 0; for (auto x: a) m |= 1 << x; c.ok(m == 15, "a permutation repeats a vertex"); }
    for (int e = 0; e < 6; ++e){ int a = S4::edge_vertex(e, 0), b = S4::edge_vertex(e, 1); c.ok((1 << a | 1 << b) == parts::mask(1, e) && S4::find_edge_elem(a, b) == e && S4::find_edge_elem(b, a) == e, "vertices of an edge"); }
    for (int f = 0; f < 4; ++f){ int v[3] = {S4::face_vertex(f, 0), S4::face_vertex(f, 1), S4::face_vertex(f, 2)}; c.ok((1 << v[0] | 1 << v[1] | 1 << v[2]) == parts::mask(2, f), "vertices of a face"); std::sort(v, v + 3); do c.ok(S4::find_face_elem(v[0], v[1], v[2]) == f, "face of vertices"); while (std::next_permutation(v, v + 3)); }
}
PBT_PROP(M05_action, 4000, 40000, "some part carries a group with more than one element, or orientation matters"){
    Map m = elementary(s); for (int k = 0; k < 8 && (!m.symm || m.f.d.size() > 130); ++k) m = elementary(s); s.assume(m.symm && m.f.d.size() <= 130 && !m.f.d.empty());
    if (s.chance(1, 3) && m.f.d.size() <= 40){ int k = s.range(2, 3); m = power(std::make_shared<VectorDofMap>(k, m.p), m, k, "Vec"); } labels(c, m);
    bool big = false; for (auto& i: m.f.d) big = big || i.st > 0 || i.t == 2 || i.t == 4; if (big) c.nontrivial();
    auto perm = [&](unsigned char* o){ std::vector<int> p{0, 1, 2, 3}; s.shuffle(p); for (int k = 0; k < 4; ++k) o[k] = (unsigned char)p[k]; };
    unsigned char a[4], b[4], ba[4]; perm(a); perm(b); for (int k = 0; k < 4; ++k) ba[k] = b[a[k]]; int n = (int)m.f.d.size(); c.note(fmt("first %d%d%d%d then %d%d%d%d", a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]));
    std::vector<double> P[4]; const unsigned char id[4] = {0, 1, 2, 3}; const unsigned char* sg[4] = {id, a, b, ba};
    for (int q = 0; q < 4; ++q){ P[q].assign(n*n, 7); S4::build_dof_permutation(*m.p, sg[q], P[q].data(), n);
        for (int j = 0; j < n; ++j){ int at = -1, cnt = 0; for (int i = 0; i < n; ++i) if (P[q][i + j*n] != 0){ at = i; ++cnt; c.ok(std::fabs(P[q][i + j*n]) == 1, "an entry is not 0, 1 or -1"); }
            if (!c.ok(cnt == 1, [&]{ return fmt("degree of freedom %d goes to %d degrees of freedom under %d%d%d%d", j, cnt, sg[q][0], sg[q][1], sg[q][2], sg[q][3]); })) return;
            c.ok(weights(m.f.d[at]) == moved(weights(m.f.d[j]), sg[q]) && m.f.d[at].t == m.f.d[j].t, [&]{ return fmt("degree of freedom %d at %s goes to %d at %s under %d%d%d%d", j, weights(m.f.d[j]).c_str(), at, weights(m.f.d[at]).c_str(), sg[q][0], sg[q][1], sg[q][2], sg[q][3]); });
            if (m.f.d[j].t != 2 && m.f.d[j].t != 4) c.ok(P[q][at + j*n] == 1, "a sign where orientation does not matter"); } 
        for (int i = 0; i < n; ++i){ int cnt = 0; for (int j = 0; j < n; ++j) cnt += P[q][i + j*n] != 0; if (!c.ok(cnt == 1, [&]{ return fmt("%d degrees of freedom go to degree of freedom %d", cnt, i); })) return; } }
    for (int j = 0; j < n; ++j) c.ok(P[0][j + j*n] == 1, "the identity moves a degree of freedom");
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j){ double t = 0; for (int k = 0; k < n; ++k) t += P[2][i + k*n]*P[1][k + j*n]; c.ok(t == P[3][i + j*n], "two renumberings do not compose"); }
    // stabilisers
    for (int q = 0; q < 4; ++q){ int j = (int)s.below(n); LocalOrder lo = (*m.p)[j]; auto sd = S4::stabilizer_data(lo); std::set<std::array<unsigned char, 4>> G; std::vector<std::array<unsigned char, 4>> todo{{0, 1, 2, 3}}; G.insert(todo[0]);
        while (!todo.empty()){ auto x = todo.back(); todo.pop_back(); for (auto& g: sd.generators){ std::array<unsigned char, 4> y; for (int k = 0; k < 4; ++k) y[k] = g[x[k]]; if (G.insert(y).second) todo.push_back(y); } }
        std::array<unsigned char, 4> p{0, 1, 2, 3}; int pm = m.f.d[j].mask(); do { int im = 0; for (int k = 0; k < 4; ++k) if (pm >> k & 1) im |= 1 << p[k]; bool st = im == pm; c.ok(st == (G.count(p) > 0), fmt("permutation %d%d%d%d and the stabiliser of part %d of type %d", p[0], p[1], p[2], p[3], (int)lo.nelem, (int)lo.etype));
            if (st){ std::vector<double> Q(n*n); S4::build_dof_permutation(*m.p, p.data(), Q.data(), n); double sum = 0; for (int i = 0; i < n; ++i) sum += Q[i + j*n]; c.ok(sum == S4::stabilizer_character(p.data(), lo), "sign of a permutation that keeps the part"); } } while (std::next_permutation(p.begin(), p.end()));
        // a permutation that takes the first part of the kind to this one
        LocalOrder first = lo; first.nelem = 0; auto sg = S4::perm_vertex_to_repr(first, lo); int mk = 0; for (auto x: sg) mk |= 1 << x; c.ok(mk == 15, "not a permutation"); c.ok(S4::remap_local_order(first, sg.data()).nelem == lo.nelem, "the permutation does not take the first part to the given one"); }
}
