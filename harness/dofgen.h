// Generated maps of local degrees of freedom together with an explicit table of places (the model).
#pragma once
#include "parts.h"
#include "anifem++/fem/quadrature_formulas.h"
using namespace Ani::DofT;
using pbt::Src; using pbt::Ctx; using pbt::fmt;
using Ptr = std::shared_ptr<BaseDofMap>;
static const unsigned VOL[6][5] = {{1}, {1,2}, {1,2}, {1,3,6}, {1,3,6}, {1,4,6,12,24}};
static const int NSYM[6] = {1, 2, 2, 3, 3, 5};

// ---- model ---------------------------------------------------------------------------------------------------
struct Item { int t, el; unsigned leid; int st = 255, ls = 255; int mask() const { return parts::mask(parts::TDIM[t], el); } };
struct Flat { std::array<unsigned, 6> nd{}; std::vector<Item> d; std::array<int, 6> sym{}; bool undef = false;
    void append(const Flat& o){ for (Item i: o.d){ i.leid += nd[i.t]; d.push_back(i); } for (int t = 0; t < 6; ++t){ nd[t] += o.nd[t]; sym[t] |= o.sym[t]; } }
};
struct Map { Ptr p; Flat f; std::vector<Map> ch; std::string txt; int kind = 0; std::array<unsigned, 6> counts{}; bool symm = false; };   // kind 0 elementary, 1 power, 2 product

static Map elementary(Src& s){
    Map m; int mode = s.pick({3, 4, 3}); std::array<unsigned, 6> n{}; unsigned S[6][5] = {};
    if (mode == 0){ // the layouts of the library's spaces
        static const int L[9][6] = {{0,0,0,0,0,1},{1},{1,1},{1,2,0,1},{0,0,1},{0,0,0,0,1},{0,0,0,1},{0,1},{0,0,0,0,0,1}}; int k = (int)s.below(9); for (int t = 0; t < 6; ++t) n[t] = L[k][t];
        if (s.flip()){ m.symm = true; for (int t = 0; t < 6; ++t){ if (k == 3 && t == 1) S[t][1] = 1; else S[t][0] = n[t]; } }
    } else if (mode == 1){ for (auto& x: n) x = s.pick({5, 3, 2, 1}); }
    else { m.symm = true; for (int t = 0; t < 6; ++t) for (int k = 0; k < NSYM[t]; ++k){ S[t][k] = s.pick({t == 5 ? 8 : 4, 2, 1}); n[t] += S[t][k]*VOL[t][k]; } }
    m.f.nd = n; m.counts = n; m.f.undef = !m.symm;
    for (int t = 0; t < 6; ++t){ std::vector<std::pair<int,int>> so; for (int k = 0; k < NSYM[t]; ++k) for (unsigned q = 0; q < S[t][k]*VOL[t][k]; ++q) so.push_back({k, (int)(q % VOL[t][k])});
        for (int k = 0; k < NSYM[t]; ++k) if (m.symm && S[t][k]) m.f.sym[t] |= 1 << k;
        if (!m.symm) m.f.sym[t] = 32;
        for (int e = 0; e < parts::CNT[parts::TDIM[t]]; ++e) for (unsigned l = 0; l < n[t]; ++l){ Item i{t, e, l}; if (m.symm){ i.st = so[l].first; i.ls = so[l].second; } m.f.d.push_back(i); } }
    if (m.symm){
        DofSymmetries ds;
        if (s.flip()) ds = DofSymmetries({S[0][0]}, {S[1][0],S[1][1]}, {S[2][0],S[2][1]}, {S[3][0],S[3][1],S[3][2]}, {S[4][0],S[4][1],S[4][2]}, {S[5][0],S[5][1],S[5][2],S[5][3],S[5][4]});
        else { ds.set(); for (int t = 0; t < 6; ++t) for (int k = 0; k < NSYM[t]; ++k) if (S[t][k]) ds.add(parts::type_code(t), k, S[t][k]); }
        m.p = std::make_shared<UniteDofMap>(ds);
        m.txt = "{"; for (int t = 0; t < 6; ++t){ for (int k = 0; k < NSYM[t]; ++k) m.txt += fmt("%u", S[t][k]); m.txt += t < 5 ? "," : "}"; }
    } else { m.p = std::make_shared<UniteDofMap>(n); m.txt = "["; for (unsigned x: n) m.txt += fmt("%u", x); m.txt += "]"; }
    return m;
}
static Map power(Ptr p, const Map& base, int k, const std::string& how){ Map m; m.kind = 1; m.p = p; for (int i = 0; i < k; ++i){ m.f.append(base.f); m.ch.push_back(base); } if (k == 0){ m.f.sym = base.f.sym; } m.txt = how + fmt("(%d x ", k) + base.txt + ")"; return m; }
static Map product(Ptr p, const std::vector<Map>& ch, const std::string& how){ Map m; m.kind = 2; m.p = p; m.txt = how + "("; for (auto& c: ch){ m.f.append(c.f); m.ch.push_back(c); m.txt += c.txt + " "; } m.txt += ")"; return m; }
static const UniteDofMap& un(const Map& m){ return *static_cast<UniteDofMap*>(m.p.get()); }
static VectorDofMap as_vec(const Map& m){ return VectorDofMap(1, m.p); }
static Map wrap_vec(const Map& m){ return power(std::make_shared<VectorDofMap>(1, m.p), m, 1, "Vec"); }
template<class... T> static Ptr stat(Src& s, const T&... a);
template<class C, class T, size_t... I> static Ptr by_set(Src& s, const T& t, std::index_sequence<I...>){
    auto r = std::make_shared<C>(); std::vector<int> order; for (size_t i = 0; i < sizeof...(I); ++i) order.push_back((int)i); s.shuffle(order); if (s.chance(1, 4)) order.push_back(order[0]);
    for (int o: order) (void)std::initializer_list<int>{ (o == (int)I ? (r->template set<I>(std::get<I>(t)), 0) : 0)... };
    return r;
}
template<class... T> static Ptr stat(Src& s, const T&... a){ using C = ComplexDofMapC<T...>; if (s.flip()) return std::make_shared<C>(a...); return by_set<C>(s, std::tuple<const T&...>(a...), std::index_sequence_for<T...>()); }
static Map any_map(Src& s, int depth){
    int k = depth <= 0 ? 0 : s.pick({2, 3, 3});
    if (k == 0) return elementary(s);
    if (k == 1){
        Map b = any_map(s, depth - 1); int n = s.chance(1, 16) ? 0 : s.range(1, 4);
        switch (s.pick({3, 3, 1})){
            case 1: if (b.kind == 0) return power(std::make_shared<VectorDofMapC<UniteDofMap>>(n, un(b)), b, n, "VecC"); { Map w = wrap_vec(b); return power(std::make_shared<VectorDofMapC<VectorDofMap>>(n, as_vec(b)), w, n, "VecC"); }
            case 2: { Map w = product(nullptr, {b}, "Com"); ComplexDofMap cm(std::vector<Ptr>{b.p}); w.p = std::make_shared<ComplexDofMap>(cm); return power(std::make_shared<VectorDofMapC<ComplexDofMap>>(n, cm), w, n, "VecC"); }
            default: return power(std::make_shared<VectorDofMap>(n, b.p), b, n, "Vec");
        }
    }
    int n = s.pick({1, 4, 3, 1}) + 1; std::vector<Map> ch; for (int i = 0; i < n; ++i) ch.push_back(i && s.chance(1, 5) ? ch[s.below(i)] : any_map(s, depth - 1));
    std::vector<Ptr> ps; for (auto& c: ch) ps.push_back(c.p); bool leaves = true; for (auto& c: ch) leaves = leaves && c.kind == 0;
    switch (s.pick({2, 1, 3})){
        case 0: return product(std::make_shared<ComplexDofMap>(ps), ch, "Com");
        case 1: { auto p = std::make_shared<ComplexDofMap>(); for (auto& q: ps) p->PushBack(q); return product(p, ch, "Com+"); }
        default: {
            if (leaves && n == 1) return product(stat(s, un(ch[0])), ch, "ComC");
            if (leaves && n == 2) return product(stat(s, un(ch[0]), un(ch[1])), ch, "ComC");
            if (leaves && n == 3) return product(stat(s, un(ch[0]), un(ch[1]), un(ch[2])), ch, "ComC");
            if (n == 2 && ch[0].kind == 0){ VectorDofMapC<VectorDofMap> v(2, as_vec(ch[1])); Map w = power(std::make_shared<VectorDofMapC<VectorDofMap>>(v), wrap_vec(ch[1]), 2, "VecC"); return product(stat(s, un(ch[0]), v), {ch[0], w}, "ComC"); }
            std::vector<Map> w; for (auto& c: ch) w.push_back(wrap_vec(c));
            if (n == 1) return product(stat(s, as_vec(ch[0])), w, "ComC");
            if (n == 2) return product(stat(s, as_vec(ch[0]), as_vec(ch[1])), w, "ComC");
            if (n == 3) return product(stat(s, as_vec(ch[0]), as_vec(ch[1]), as_vec(ch[2])), w, "ComC");
            return product(stat(s, as_vec(ch[0]), as_vec(ch[1]), as_vec(ch[2]), as_vec(ch[3])), w, "ComC");
        }
    }
}
static Map small_map(Src& s, int depth){ Map m; for (int k = 0; k < 6; ++k){ m = any_map(s, k < 3 ? depth : 1); if (m.f.d.size() <= 700) break; } s.assume(m.f.d.size() <= 700); return m; }
