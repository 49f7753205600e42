// V01-V03: interval maps and interval-based enumerations against explicit models.
#include "pbt.h"
#include <array>
#include <algorithm>
#include <climits>
#include <cmath>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>
#include "anifem++/interval/interval_map.h"
#include "anifem++/interval/ext_array_enum.h"
using pbt::Src; using pbt::Ctx; using pbt::fmt;
// ---- interval maps --------------------------------------------------------------------------------------------------
// Keys are the images of 0..P-1 under an order-preserving map (with respect to the comparator); cell k of the model is
// [key k, key k+1), cell -1 and cell P-1 are the rays. The model stores the value of each of the P+1 cells, 0 = none.
struct Model { int P; std::vector<int> v; Model(int P): P(P), v(P + 1, 0) {}
    // [a,b) in key indices, a = -1: from minus infinity, b = P: to plus infinity; accepted?
    bool insert(int a, int b, int val){ int f = a + 1, l = b + 1; if (a >= 0 && b < P && a >= b) return false; // cells f..l-1
        for (int k = f; k < l; ++k) if (v[k] && v[k] != val) return false; for (int k = f; k < l; ++k) v[k] = val; return true; }
    struct Run { int f, l, val; }; // cells f..l-1
    std::vector<Run> runs() const { std::vector<Run> r; for (int k = 0; k <= P; ++k) if (v[k]){ if (r.size() && r.back().l == k && r.back().val == v[k]) r.back().l = k + 1; else r.push_back({k, k + 1, v[k]}); } return r; }
    int at(int cell) const { return v[cell]; } // cell+1 index: key k lies in cell index k+1
};
template<class Key, class Cmp> struct Keys { std::vector<Key> k; std::vector<std::vector<Key>> in; bool integral; }; // in[c]: keys inside the cell of index c
template<class Key, class Cmp> static Keys<Key, Cmp> keys(Src& s, int P){
    Keys<Key, Cmp> r; r.integral = std::is_integral<Key>::value; Cmp cmp; std::set<Key, Cmp> ks; using L = std::numeric_limits<Key>; int mode = s.below(3);
    if constexpr (std::is_integral<Key>::value){ long long lo = mode == 0 ? 0 : mode == 1 ? -6 : (long long)L::min(); if (!std::is_signed<Key>::value && lo < 0) lo = 0;
        int guard = 0; while ((int)ks.size() < P && guard++ < 500){ if (mode == 2 && s.chance(1, 5)) ks.insert(s.flip() ? L::max() : L::min()); else if (mode == 2 && s.chance(1, 3)) ks.insert((Key)(L::max() - (Key)s.below(9))); else ks.insert((Key)(lo + s.below(3*P))); }
    } else { int guard = 0; while ((int)ks.size() < P && guard++ < 500) ks.insert((Key)(mode == 0 ? s.range(-8, 8)*0.5 : mode == 1 ? std::ldexp((double)s.range(-5, 5), s.range(-60, 60)) : s.unit()*2 - 1)); }
    r.k.assign(ks.begin(), ks.end()); int n = (int)r.k.size(); r.in.resize(n + 1);
    for (int c = 1; c <= n; ++c) r.in[c].push_back(r.k[c - 1]);
    auto add = [&](Key x){ int c = 0; while (c < n && !cmp(x, r.k[c])) ++c; r.in[c].push_back(x); };
    for (int c = 0; c < n; ++c){ Key x = r.k[c]; if constexpr (std::is_integral<Key>::value){ if (x != L::max()) add((Key)(x + 1)); if (x != L::min()) add((Key)(x - 1)); } else { add(std::nextafter(x, (Key)1e300)); add(std::nextafter(x, (Key)-1e300)); if (c + 1 < n) add(x + (r.k[c + 1] - x)/2); } }
    add(L::max()); add(L::lowest()); add((Key)0); return r;
}
template<class Map, class Key, class Cmp> static void check_map(Ctx& c, Map& m, const Model& M, const Keys<Key, Cmp>& K, const char* when, bool bounds){
    const Map& cm = m; auto R = M.runs(); int P = M.P; Cmp cmp;
    c.ok(m.size() == R.size(), [&]{ return fmt("%s: %zu intervals, expected %zu", when, m.size(), R.size()); }); c.ok(m.empty() == R.empty(), "empty");
    auto it = m.begin(); auto ct = cm.begin(); size_t i = 0;
    for (; it != m.end() && i < R.size(); ++it, ++ct, ++i){ auto& r = R[i]; 
        c.ok(it->second == r.val && ct->second == r.val, [&]{ return fmt("%s: interval %zu has value %d, expected %d", when, i, (int)it->second, r.val); });
        c.ok(it.is_left_infinite() == (r.f == 0) && ct.is_left_infinite() == (r.f == 0), [&]{ return fmt("%s: interval %zu: left end", when, i); }); c.ok(it.is_right_infinite() == (r.l == P + 1) && ct.is_right_infinite() == (r.l == P + 1), [&]{ return fmt("%s: interval %zu: right end", when, i); });
        if (r.f > 0) c.ok(it->first.m_start == K.k[r.f - 1], [&]{ return fmt("%s: interval %zu starts at %s", when, i, std::to_string(it->first.m_start).c_str()); }); if (r.l <= P) c.ok(it->first.m_end == K.k[r.l - 1], [&]{ return fmt("%s: interval %zu ends at %s", when, i, std::to_string(it->first.m_end).c_str()); });
        for (int q = 0; q <= P; ++q) for (auto x: K.in[q]) c.ok(it.contains(x) == (q >= r.f && q < r.l), [&]{ return fmt("%s: interval %zu contains(%s) is %d", when, i, std::to_string(x).c_str(), (int)it.contains(x)); }); }
    c.ok(it == m.end() && i == R.size(), "iteration covers the intervals");
    for (int q = 0; q <= P; ++q) for (auto x: K.in[q]){ int e = M.v[q]; auto X = [&]{ return std::to_string(x); };
        c.ok(cm.contains(x) == (e != 0), [&]{ return fmt("%s: contains(%s) is %d", when, X().c_str(), (int)cm.contains(x)); }); c.ok(cm.count(x) == (e ? 1u : 0u), "count");
        auto f = m.find(x); auto g = cm.find(x); c.ok((f != m.end()) == (e != 0) && (g != cm.end()) == (e != 0), [&]{ return fmt("%s: find(%s)", when, X().c_str()); });
        if (e){ c.ok(f->second == e && g->second == e && cm[x] == e && cm.at(x) == e, [&]{ return fmt("%s: value at %s", when, X().c_str()); }); size_t ri = 0; while (!(q >= R[ri].f && q < R[ri].l)) ++ri; c.ok((size_t)std::distance(m.begin(), f) == ri, "find gives the right interval"); }
        else { bool thrown = false; try { cm.at(x); } catch (const std::out_of_range&){ thrown = true; } c.ok(thrown, [&]{ return fmt("%s: at(%s) throws", when, X().c_str()); }); }
        size_t lb = 0; while (lb < R.size() && R[lb].l <= q) ++lb; auto a = m.lower_bound(x); auto b = cm.lower_bound(x); c.ok((size_t)(a - m.begin()) == lb && (size_t)(b - cm.begin()) == lb, [&]{ return fmt("%s: lower_bound(%s) is interval %d, expected %zu", when, X().c_str(), (int)(a - m.begin()), lb); });
        if (bounds && K.integral){ size_t ub = 0; for (; ub < R.size(); ++ub){ if (R[ub].l == P + 1) break; Key end = K.k[R[ub].l - 1]; if (cmp(x, end) && (cmp(end, x) ? 0 : (x > end ? x - end : end - x)) != 1) break; }
            auto u = m.upper_bound(x); auto w = cm.upper_bound(x); c.ok((size_t)(u - m.begin()) == ub && (size_t)(w - cm.begin()) == ub, [&]{ return fmt("%s: upper_bound(%s) is interval %d, expected %zu", when, X().c_str(), (int)(u - m.begin()), ub); }); }
    }
}
template<class Map, class Key, class Cmp> static int random_insert(Src& s, Ctx& c, Map& m, Model& M, const Keys<Key, Cmp>& K, int vals, bool check_it){
    int P = M.P, a, b, v = 1 + (int)s.below(vals), kind = s.pick({6, 2, 2, 1, 1}); a = s.below(P); b = s.below(P); if (kind == 0 && a > b) std::swap(a, b);
    auto Inf = Map::tag_inf; if (kind == 1) a = -1; if (kind == 2) b = P; if (kind == 3) a = -1, b = P;
    bool ok = M.insert(a, b, v); c.note(fmt("[%s,%s)=%d%s", a < 0 ? "-inf" : std::to_string(K.k[a]).c_str(), b == P ? "inf" : std::to_string(K.k[b]).c_str(), v, ok ? "" : " rejected"));
    auto r = a < 0 && b == P ? m.insert(Inf, Inf, v) : a < 0 ? m.insert(Inf, K.k[b], v) : b == P ? m.insert(K.k[a], Inf, v) : m.insert(K.k[a], K.k[b], v);
    c.ok(r.second == ok, [&]{ return fmt("insertion returns %d", (int)r.second); });
    if (ok){ c.ok(r.first != m.end() && r.first->second == v, "insertion returns the interval"); if (check_it) for (int q = a + 1; q <= b; ++q) for (auto x: K.in[q]) c.ok(r.first.contains(x), "the returned interval contains the inserted one"); }
    else if (r.first != m.end()) c.ok(r.first->second != v, "a rejected insertion returns an interval in conflict"); 
    return ok;
}
template<class Key, class Cmp = std::less<Key>> static void map_history(Src& s, Ctx& c, bool bounds){
    using Map = Ani::interval_map<Key, int, Cmp>; int P0 = s.range(2, 12); auto K = keys<Key, Cmp>(s, P0); int P = (int)K.k.size(); Model M(P); Map m; int n = s.range(0, 14), vals = s.range(1, 3), acc = 0, rej = 0; bool last_only = s.chance(2, 3);
    check_map(c, m, M, K, "empty", bounds); std::unique_ptr<Map> other; Model Mo(P);
    for (int i = 0; i < n; ++i){ int op = s.pick({20, 1, 1, 1});
        if (op == 0){ random_insert(s, c, m, M, K, vals, true) ? ++acc : ++rej; }
        else if (op == 1){ m.clear(); M = Model(P); c.note("clear"); c.label("clear"); }
        else if (op == 2){ if (!other) other.reset(new Map); m.swap(*other); std::swap(M.v, Mo.v); c.note("swap"); c.label("swap"); }
        else { Map x(m); if (s.flip()) m = std::move(x); else { Map y; y = x; m = y; } c.note("copy"); c.label("copy"); }
        if (!last_only) check_map(c, m, M, K, "after an operation", bounds); }
    check_map(c, m, M, K, "at the end", bounds); if (other) check_map(c, *other, Mo, K, "other", bounds); 
    auto R = M.runs(); for (auto& r: R){ if (r.f == 0 && r.l == P + 1) c.label("whole line"); else if (r.f == 0) c.label("left ray"); else if (r.l == P + 1) c.label("right ray"); }
    c.nontrivial(acc >= 2 && rej >= 1); }
#if IV_PART == 1
PBT_PROP(V01_long, 12000, 200000, "at least two accepted and one rejected insertion"){ map_history<long>(s, c, true); }
PBT_PROP(V01_int_reversed, 6000, 100000, "at least two accepted and one rejected insertion"){ map_history<int, std::greater<int>>(s, c, true); }
PBT_PROP(V01_unsigned, 6000, 100000, "at least two accepted and one rejected insertion"){ map_history<unsigned>(s, c, true); }
PBT_PROP(V01_short, 6000, 100000, "at least two accepted and one rejected insertion"){ map_history<short>(s, c, true); }
PBT_PROP(V01_double, 6000, 100000, "at least two accepted and one rejected insertion"){ map_history<double>(s, c, false); }
#endif
// ---- text form ------------------------------------------------------------------------------------------------------
static const char* const TR[][3] = {{":", "->", ";"}, {":", "->", ";"}, {"..", "=>", "\n"}, {"to", "maps", "and"}, {",", ":", ";"}, {":", ">", "|"}, {"::", "=", ",,"}, {"<", ":=", "/"}, {"~~~", "---->", ";;;"}, {":", "=>", "##"}};
static Ani::ParseIvlMapTraits traits(Src& s, std::string& d){ int k = s.below(10); std::string ign = s.pick({3, 1, 1}) == 0 ? " \t" : s.flip() ? " " : "_ "; Ani::ParseIvlMapTraits t; d = fmt("traits %d", k);
    if (s.flip()){ t = Ani::ParseIvlMapTraits(TR[k][0], TR[k][1], TR[k][2], ign); } else t.setIntervalDelim(TR[k][0]).setMapDelim(TR[k][1]).setElemDelim(TR[k][2]).setIgnoreSymbols(ign); return t; }
template<class Map> static std::string text(const Map& m, const Ani::ParseIvlMapTraits& t, int prec = 0){ std::ostringstream o; if (prec) o << std::setprecision(prec); m.print(o, t); return o.str(); }
template<class Key> static Key parse_key(const std::string& x){ if (std::is_floating_point<Key>::value) return (Key)std::stold(x); return (Key)std::stoll(x); }
template<class Key> static void roundtrip(Src& s, Ctx& c){
    using Map = Ani::interval_map<Key, int>; auto K = keys<Key, std::less<Key>>(s, s.range(2, 10)); int P = (int)K.k.size(), n = s.range(0, 9); Model M(P); Map m; for (int i = 0; i < n; ++i) random_insert(s, c, m, M, K, 3, false);
    std::string d; auto t = traits(s, d); c.note(d); std::string x = text(m, t, std::is_floating_point<Key>::value ? 17 : 0); c.note("text '" + x + "'"); c.nontrivial(M.runs().size() >= 2); if (M.runs().size() == 1) c.label("one interval");
    using Own = std::function<Key(const std::string&)>; bool own = s.flip(); auto go = [&](const std::string& y, size_t pos = 0, size_t cnt = std::string::npos){ if (own) return Ani::parse_interval_map<Key, int, Own>(y, pos, cnt, parse_key<Key>, Ani::details::DefaultParser<int>(), t); return Ani::parse_interval_map<Key, int>(y, pos, cnt, Ani::details::DefaultParser<Key>(), Ani::details::DefaultParser<int>(), t); };
    Map r = go(x); check_map(c, r, M, K, "parsed", false); c.ok(text(r, t, std::is_floating_point<Key>::value ? 17 : 0) == x, "printing what was parsed gives the same text");
    // the same text with other spaces, a closing delimiter, and as a part of a longer one
    std::string sp; for (char ch: t.ignore_symbols) sp += ch; auto spaces = [&]{ std::string q; int k = s.below(3); for (int i = 0; i < k; ++i) q += sp[s.below(sp.size())]; return q; };
    std::string y = spaces(); auto Rn = M.runs(); std::ostringstream o; o << std::setprecision(17);
    for (size_t i = 0; i < Rn.size(); ++i){ o.str(""); if (Rn[i].f) o << K.k[Rn[i].f - 1]; y += o.str() + spaces() + t.interval_delimiter + spaces(); o.str(""); if (Rn[i].l <= P) o << K.k[Rn[i].l - 1]; y += o.str() + spaces() + t.map_delimiter + spaces() + std::to_string(Rn[i].val) + spaces(); if (i + 1 < Rn.size() || s.flip()) y += t.elem_delimiter + spaces(); }
    c.note("spaced '" + y + "'"); Map r2 = go(y); check_map(c, r2, M, K, "parsed with spaces", false);
    std::string pre = s.flip() ? "7x" : "", post = s.flip() ? (s.flip() ? "junk" : t.elem_delimiter + "1" + t.interval_delimiter) : ""; Map r3 = go(pre + y + post, pre.size(), y.size()); check_map(c, r3, M, K, "parsed from the middle", false); }
#if IV_PART == 2
PBT_PROP(V02_long, 10000, 150000, "maps of at least two intervals"){ roundtrip<long>(s, c); }
PBT_PROP(V02_int, 6000, 80000, "maps of at least two intervals"){ roundtrip<int>(s, c); }
PBT_PROP(V02_double, 6000, 80000, "maps of at least two intervals"){ roundtrip<double>(s, c); }
PBT_PROP(V02_malformed, 12000, 200000, "texts with exactly one damaged element among others"){
    std::string d; auto t = traits(s, d); c.note(d); int n = s.range(1, 5), bad = s.below(n), how = s.below(9); std::string sp = t.ignore_symbols.substr(0, 1), x;
    for (int i = 0; i < n; ++i){ std::string a = std::to_string(10*i), b = std::to_string(10*i + 5), v = std::to_string(i + 1), id = t.interval_delimiter, md = t.map_delimiter;
        if (i == bad) switch (how){ case 0: id = ""; break; case 1: md = ""; break; case 2: v = ""; break; case 3: v = "x"; break; case 4: a = "q" + a; break; case 5: b = "-"; break; case 6: v += "y"; break; case 7: b = "999999999999999999999999"; break; default: a += sp + "7"; }
        x += a + sp + id + sp + b + sp + md + sp + v; if (i + 1 < n || s.flip()) x += t.elem_delimiter + sp; }
    c.note("'" + x + "'"); c.nontrivial(n > 1); c.label(fmt("damage %d", how)); bool thrown = false; try { Ani::parse_interval_map<long, long>(x, 0, std::string::npos, {}, {}, t); } catch (const std::exception&){ thrown = true; } c.ok(thrown, "a damaged text is reported"); }
PBT_PROP(V02_arbitrary, 20000, 400000, "texts with all three delimiters"){
    std::string d; auto t = traits(s, d); c.note(d); std::string x; int n = s.range(0, 24); for (int i = 0; i < n; ++i) switch (s.below(8)){ case 0: x += t.interval_delimiter; break; case 1: x += t.map_delimiter; break; case 2: x += t.elem_delimiter; break; case 3: x += (char)(1 + s.below(126)); break; case 4: x += t.ignore_symbols[0]; break; case 5: x += "-"; break; default: x += std::to_string(s.below(30)); }
    c.note(pbt::show(x)); c.nontrivial(x.find(t.interval_delimiter) != std::string::npos && x.find(t.map_delimiter) != std::string::npos); size_t pos = s.flip() ? 0 : s.below(n + 3), cnt = s.flip() ? std::string::npos : s.below(2*n + 3);
    Ani::interval_map<long, long> m; bool ok = true; try { m = Ani::parse_interval_map<long, long>(x, pos, cnt, {}, {}, t); } catch (const std::exception&){ ok = false; } c.label(ok ? "accepted" : "reported");
    if (ok){ auto y = text(m, t); auto r = Ani::parse_interval_map<long, long>(y, 0, std::string::npos, {}, {}, t); c.ok(text(r, t) == y && r.size() == m.size(), "what was accepted survives printing"); for (long k = -40; k < 40; ++k) c.ok(r.contains(k) == m.contains(k) && (!m.contains(k) || m.at(k) == r.at(k)), "lookups agree after printing"); } }
#endif
// ---- enumerations of contiguous ranges ------------------------------------------------------------------------------
// pairs (number of the first value, first value) of each range and (size, last value + 1); ranges may touch each other
template<class A, class B> static std::vector<std::pair<A, B>> ranges(Src& s, std::vector<B>& vals, int maxn, int least = 0){
    std::vector<std::pair<A, B>> r; vals.clear(); int k = s.range(0, maxn); B x = std::is_signed<B>::value ? (B)((int)s.below(12) - 6) : (B)s.below(6);
    for (int i = 0; i < k || (int)vals.size() < least; ++i){ int len = 1 + s.below(4); r.push_back({(A)vals.size(), x}); for (int j = 0; j < len; ++j) vals.push_back(x++); if (!s.chance(1, 5)) x += 1 + s.below(4); }
    if (r.size()) r.push_back({(A)vals.size(), vals.back() + 1}); else if (s.flip()) r.push_back({0, x}); return r; }
template<class Mem, class A, class B> static void check_enum(Src& s, Ctx& c, const Mem& mem, const std::vector<B>& v){
    Ani::interval_enum<Mem> e(mem); if (s.flip()){ Ani::interval_enum<Mem> f; f.setMem(mem); e = f; } int n = (int)v.size(); using It = typename Ani::interval_enum<Mem>::const_iterator;
    c.ok(e.size() == v.size() && e.empty() == v.empty(), [&]{ return fmt("size %zu, expected %d", e.size(), n); }); auto at = [&](It it, int i, const char* w){ if (i >= n) c.ok(it == e.end(), [&]{ return fmt("%s gives the end", w); }); else { c.ok(it != e.end(), [&]{ return fmt("%s gives position %d, got the end", w, i); }); c.ok((long long)it->first == i && it->second == v[i] && (*it).second == v[i], [&]{ return fmt("%s gives (%lld,%lld), expected (%d,%lld)", w, (long long)it->first, (long long)it->second, i, (long long)v[i]); }); } };
    std::vector<It> pos; { auto it = e.begin(); for (int i = 0; i < n; ++i){ at(it, i, "stepping forward"); pos.push_back(it); if (i % 2) ++it; else { auto old = it++; at(old, i, "postfix increment"); } } c.ok(it == e.end(), "stepping forward arrives at the end"); pos.push_back(it); }
    if (n){ auto it = e.end(); for (int i = n; i-- > 0;){ if (i % 2) --it; else { auto old = it--; c.ok(old == pos[i + 1], "postfix decrement"); } at(it, i, "stepping backward"); c.ok(it == pos[i], "stepping backward gives the same positions"); } c.ok(it == e.begin(), "stepping backward arrives at the beginning"); }
    if (n) for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j){ auto &a = pos[i], &b = pos[j]; c.ok((a == b) == (i == j) && (a != b) == (i != j) && (a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j) && (a >= b) == (i >= j), [&]{ return fmt("comparison of positions %d and %d", i, j); }); c.ok((long long)(a - b) == i - j, [&]{ return fmt("distance of positions %d and %d is %lld", i, j, (long long)(a - b)); }); }
    for (int i = std::is_signed<A>::value ? -2 : 0; i <= n + 2; ++i){ c.ok(e.contains_left((A)i) == (i >= 0 && i < n), [&]{ return fmt("contains_left(%d)", i); }); at(e.find_left((A)i), i < 0 ? n : i, "find_left"); at(e.lower_bound_left((A)i), i < 0 ? 0 : i, "lower_bound_left"); at(e.upper_bound_left((A)i), i + 1 < 0 ? 0 : i + 1, "upper_bound_left"); }
    long long lo = n ? (long long)v[0] - 3 : -2, hi = n ? (long long)v.back() + 4 : 4; if (!std::is_signed<B>::value) lo = std::max(lo, 0ll);
    for (long long x = lo; x < hi; ++x){ auto l = std::lower_bound(v.begin(), v.end(), (B)x), u = std::upper_bound(v.begin(), v.end(), (B)x); bool in = l != u; c.ok(e.contains_right((B)x) == in, [&]{ return fmt("contains_right(%lld)", x); }); at(e.find_right((B)x), in ? l - v.begin() : n, "find_right"); at(e.lower_bound_right((B)x), l - v.begin(), "lower_bound_right"); at(e.upper_bound_right((B)x), u - v.begin(), "upper_bound_right"); }
    e.clear(); c.ok(e.size() == 0 && e.empty(), "cleared"); }
template<class A, class B> static void own_enum(Src& s, Ctx& c){ std::vector<B> v; auto r = ranges<A, B>(s, v, 6); for (auto& p: r) c.note(fmt("(%lld,%lld)", (long long)p.first, (long long)p.second)); c.nontrivial(r.size() >= 3); Ani::interval_own_memory<A, B> m; m.m_dat = r; check_enum<Ani::interval_own_memory<A, B>, A, B>(s, c, m, v); }
template<class A> static void ext_enum(Src& s, Ctx& c){ std::vector<A> v; auto r = ranges<A, A>(s, v, 6); std::unique_ptr<A[]> d(new A[2*r.size()]); size_t k = 0; for (auto& p: r){ c.note(fmt("(%lld,%lld)", (long long)p.first, (long long)p.second)); d[k++] = p.first; d[k++] = p.second; } c.nontrivial(r.size() >= 3);
    using Mem = Ani::interval_external_memory<A>; Mem m; if (k || s.flip()) m.m_dat_st = d.get(), m.m_dat_end = d.get() + k; c.ok(m.empty() == (k == 0), "memory empty");
    std::vector<typename Mem::const_iterator> pos; { auto it = m.begin(); for (size_t i = 0; i <= r.size(); ++i){ pos.push_back(it); if (i < r.size()){ if (s.flip()) ++it; else it++; } } c.ok(k == 0 || it == m.end(), "iteration over the stored pairs"); }
    if (k) for (size_t i = 0; i < pos.size(); ++i) for (size_t j = 0; j < pos.size(); ++j){ auto a = pos[i], b = pos[j]; long n = (long)j - (long)i; c.ok((a == b) == (i == j) && (a != b) == (i != j) && (a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j) && (a >= b) == (i >= j), [&]{ return fmt("comparison of stored pairs %zu and %zu", i, j); }); c.ok(b - a == n && a + n == b && n + a == b && b - n == a, "jumps between stored pairs"); if (j < r.size()) c.ok(b->first == r[j].first && (*b).second == r[j].second && a[n] == r[j], "stored pairs"); auto x = b; if (j){ --x; c.ok(x == pos[j - 1], "backward"); x++; x--; c.ok(x == pos[j - 1], "forth and back"); } }
    check_enum<Mem, A, A>(s, c, m, v); }
#if IV_PART == 3
PBT_PROP(V03_ranges_int, 8000, 150000, "at least two ranges"){ own_enum<int, int>(s, c); }
PBT_PROP(V03_ranges_mixed, 6000, 100000, "at least two ranges"){ own_enum<int, long>(s, c); }
PBT_PROP(V03_ranges_unsigned, 6000, 100000, "at least two ranges"){ own_enum<unsigned, unsigned>(s, c); }
PBT_PROP(V03_external_int, 8000, 150000, "at least two ranges"){ ext_enum<int>(s, c); }
PBT_PROP(V03_external_long, 4000, 100000, "at least two ranges"){ ext_enum<long>(s, c); }
#endif
// ---- arrays extended by a range -------------------------------------------------------------------------------------
template<unsigned N, class U> using Arr = std::array<U, N>;
template<class A> static std::string str(const A& a){ std::string r = "{"; for (auto x: a) r += (r.size() > 1 ? "," : "") + std::to_string(x); return r + "}"; }
template<unsigned N, class U> static std::vector<Arr<N, U>> base_set(Src& s, unsigned dep, unsigned nv, int maxn){ int n = s.range(0, maxn), w = 1 + s.below(4); std::vector<Arr<N, U>> r; for (int i = 0; i < n; ++i){ Arr<N, U> a; if (r.size() && s.flip()){ a = r[s.below(r.size())]; unsigned k = s.below(N); a[k] = k == dep ? s.below(nv) : s.below(w + 3); } else for (unsigned k = 0; k < N; ++k) a[k] = k == dep ? s.below(nv) : s.below(w); r.push_back(a); } return r; }
// checks positions, jumps, bounds of an enumeration whose ordered sequence is v; key(a) orders arbitrary arrays
template<class En, class A, class Less> static void check_seq(Src& s, Ctx& c, const En& e, const std::vector<A>& v, const std::vector<A>& probes, Less less, bool bounds){
    int n = (int)v.size(); using It = typename En::iterator; c.ok((long long)e.size() == n && e.empty() == (n == 0), [&]{ return fmt("size %lld, expected %d", (long long)e.size(), n); });
    auto at = [&](const It& it, int i, const char* w){ if (i >= n) c.ok(it == e.end(), [&]{ return fmt("%s gives the end", w); }); else { c.ok(it != e.end(), [&]{ return fmt("%s gives position %d, got the end", w, i); }); c.ok((long long)it->first == i && it->second == v[i], [&]{ return fmt("%s at position %d gives %lld %s, expected %s", w, i, (long long)it->first, str(it->second).c_str(), str(v[i]).c_str()); }); } };
    for (int i = 0; i < n; ++i){ c.ok(e[(decltype(e.size()))i] == v[i], [&]{ return fmt("element %d is %s, expected %s", i, str(e[(decltype(e.size()))i]).c_str(), str(v[i]).c_str()); }); c.ok((long long)e[v[i]] == i, [&]{ return fmt("number of %s is %lld, expected %d", str(v[i]).c_str(), (long long)e[v[i]], i); }); at(e.begin(i), i, "begin(i)"); at(e.find((decltype(e.size()))i), i, "find(i)"); }
    at(e.find((decltype(e.size()))n), n, "find(size)"); at(e.begin(), 0, "begin");
    { auto it = e.begin(); for (int i = 0; i < n; ++i){ at(it, i, "stepping forward"); if (i % 3) ++it; else { auto old = it++; at(old, i, "postfix increment"); } } c.ok(it == e.end(), "stepping forward arrives at the end"); }
    { auto it = e.end(); for (int i = n; i-- > 0;){ if (i % 3) --it; else { auto old = it--; at(old, i + 1, "postfix decrement"); } at(it, i, "stepping backward"); } c.ok(it == e.begin(), "stepping backward arrives at the beginning"); }
    if (n){ int i = 0; auto it = e.begin(); std::string h; for (int k = 0; k < 40; ++k){ int j = s.below(n + 1), d = j - i; switch (s.below(5)){ case 0: if (i == n) continue; ++it; j = i + 1; h += "++"; break; case 1: if (i == 0) continue; --it; j = i - 1; h += "--"; break; case 2: if (d >= 0) it += d; else it -= -d; h += fmt("%+d ", d); break; case 3: it = d >= 0 ? it + d : it - (-d); h += fmt("%+d ", d); break; default: it = d >= 0 ? d + it : it - (-d); h += fmt("%+d ", d); }
            auto before = i; i = j; at(it, i, ("the walk " + h).c_str()); auto b = e.begin(before); c.ok((it < b) == (i < before) && (it > b) == (i > before) && (it <= b) == (i <= before) && (it >= b) == (i >= before) && (it == b) == (i == before) && (it != b) == (i != before), [&]{ return fmt("comparison of positions %d and %d", i, before); }); } }
    for (auto& p: probes){ auto l = std::lower_bound(v.begin(), v.end(), p, less), u = std::upper_bound(v.begin(), v.end(), p, less); bool in = std::find(v.begin(), v.end(), p) != v.end(); auto P = [&]{ return str(p); };
        c.ok(e.contains(p) == in && e.count(p) == (in ? 1u : 0u), [&]{ return fmt("contains(%s)", P().c_str()); }); at(e.find(p), in ? l - v.begin() : n, ("find " + P()).c_str());
        if (bounds){ at(e.lower_bound(p), l - v.begin(), ("lower_bound " + P()).c_str()); at(e.upper_bound(p), u - v.begin(), ("upper_bound " + P()).c_str()); } } }
template<unsigned N, class U, class G, class RF> static void array_enum(Src& s, Ctx& c, unsigned nv, RF rf, const std::vector<int>& rg){
    unsigned n = s.below(N + 1), m = s.below(N); auto base = base_set<N, U>(s, m, nv, 14); c.note(fmt("insert at %u by %u", n, m)); std::string t; for (auto x: rg) t += std::to_string(x) + " "; c.note("ranges " + t); for (auto& a: base) c.note(str(a));
    using A = Arr<N + 1, U>; std::set<A> S; std::set<Arr<N, U>> uniq(base.begin(), base.end()); auto ext = [&](const Arr<N, U>& a, U x){ A b; std::copy(a.begin(), a.begin() + n, b.begin()); b[n] = x; std::copy(a.begin() + n, a.end(), b.begin() + n + 1); return b; };
    for (auto& a: uniq) for (int x = 0; x < rg[a[m]]; ++x) S.insert(ext(a, x)); std::vector<A> v(S.begin(), S.end());
    using En = Ani::ext_range_array_enum<N, RF, U, G>; En e; if (s.flip()) e = En(base, rf, n, m); else e.setBaseSet(base).setRangedExtension(rf, n, m); e.setup(); if (s.flip()){ En f(e); e.clear(); c.ok(e.size() == 0, "cleared"); e = f; }
    std::vector<A> probes = v; for (int k = 0; k < 25; ++k){ A p; if (v.size() && s.flip()){ p = v[s.below(v.size())]; p[s.below(N + 1)] += s.flip() ? 1 : (p[0] ? -1 : 0); for (auto& x: p) if (x > 100) x = 0; } else for (auto& x: p) x = s.below(6); unsigned mm = m + (m >= n); if (p[mm] >= nv) p[mm] = nv - 1; probes.push_back(p); }
    c.nontrivial(v.size() >= 4 && uniq.size() >= 3); if (v.empty()) c.label("empty"); for (auto& a: uniq) if (!rg[a[m]]) c.label("empty range"); check_seq(s, c, e, v, probes, std::less<A>(), true); }
template<unsigned N, class U, class G> static void vec_array(Src& s, Ctx& c){ unsigned nv = 1 + s.below(5); std::vector<int> rg(nv); bool zeros = s.chance(1, 4); for (auto& x: rg) x = zeros ? s.below(5) : 1 + s.below(5); Ani::vec_range_func<U, G> f(std::vector<G>(rg.begin(), rg.end())); array_enum<N, U, G>(s, c, nv, f, rg); }
#if IV_PART == 4
PBT_PROP(V03_arrays_1, 4000, 60000, "at least three base arrays and four results"){ vec_array<1, unsigned, unsigned>(s, c); }
PBT_PROP(V03_arrays_2, 6000, 90000, "at least three base arrays and four results"){ vec_array<2, std::size_t, std::size_t>(s, c); }
PBT_PROP(V03_arrays_3, 8000, 120000, "at least three base arrays and four results"){ vec_array<3, unsigned, long>(s, c); }
PBT_PROP(V03_arrays_4, 8000, 120000, "at least three base arrays and four results"){ vec_array<4, unsigned, unsigned>(s, c); }
PBT_PROP(V03_arrays_4_fixed, 4000, 60000, "at least three base arrays and four results"){ std::vector<int> rg(4); std::array<std::size_t, 4> a; for (int i = 0; i < 4; ++i) a[i] = rg[i] = 1 + s.below(4); Ani::arr_range_func<4, std::size_t, std::size_t> f; f.set(a); array_enum<4, std::size_t, std::size_t>(s, c, 4, f, rg); }
#endif
// ---- arrays extended by enumerated values ---------------------------------------------------------------------------
template<unsigned N, unsigned NV, class U, class G, class Mem, class MM> static void mapped_enum(Src& s, Ctx& c, MM make){
    unsigned n = s.below(N + 1), m = s.below(N), mm = m + (m >= n); auto base = base_set<N, U>(s, m, NV, 12); std::array<std::vector<int>, NV> vals; std::array<Ani::interval_enum<Mem>, NV> ie; std::vector<int> rg(NV);
    c.note(fmt("insert at %u by %u", n, m)); for (unsigned i = 0; i < NV; ++i){ int least = 1; std::vector<std::pair<int, int>> r; do { r = ranges<int, int>(s, vals[i], 4, least); } while (false); int sh = r.size() && r[0].second < 0 ? -r[0].second : 0; for (auto& p: r) p.second += sh; for (auto& x: vals[i]) x += sh; rg[i] = s.chance(2, 3) ? (int)vals[i].size() : 1 + s.below(vals[i].size()); ie[i].setMem(make(r)); c.note(fmt("%d of", rg[i]) + str(vals[i])); }
    for (auto& a: base) c.note(str(a)); using A = Arr<N + 1, U>; std::set<Arr<N, U>> uniq(base.begin(), base.end()); std::set<A> S; for (auto& a: uniq) for (int x = 0; x < rg[a[m]]; ++x){ A b; std::copy(a.begin(), a.begin() + n, b.begin()); b[n] = x; std::copy(a.begin() + n, a.end(), b.begin() + n + 1); S.insert(b); }
    std::vector<A> v; for (auto a: S){ a[n] = (U)vals[a[mm]][a[n]]; v.push_back(a); } auto pre = [&](A a){ auto& w = vals[a[mm]]; a[n] = (U)(std::lower_bound(w.begin(), w.end(), (int)a[n]) - w.begin()); return a; };
    auto pre2 = [&](const A& a){ auto& w = vals[a[mm]]; std::pair<A, bool> r{pre(a), false}; r.second = r.first[n] >= w.size() || w[r.first[n]] != (int)a[n]; return r; };
    // strict comparison of arbitrary arrays: a value between two enumerated ones lies between their numbers
    auto less = [&](const A& a, const A& b){ auto p = pre2(a), q = pre2(b); for (unsigned k = 0; k <= N; ++k){ long x = 2*(long)p.first[k] - (k == n && p.second), y = 2*(long)q.first[k] - (k == n && q.second); if (x != y) return x < y; } return false; };
    using R = Ani::arr_range_func<NV, U, G>; R rf; std::array<G, NV> ra; for (unsigned i = 0; i < NV; ++i) ra[i] = rg[i]; rf.set(ra); using AE = Ani::ext_range_array_enum<N, R, U, G>; AE ae(base, rf, n, m); ae.setup(); using En = Ani::ext_array_enum<N, NV, R, U, G, Mem>; En e(ae, ie); if (s.flip()){ En f; f.m_arr_enum = ae; f.m_int_enum = ie; e = f; }
    std::vector<A> probes = v; for (int k = 0; k < 20; ++k){ A p; if (v.size() && s.flip()){ p = v[s.below(v.size())]; p[s.below(N + 1)] += 1; } else for (auto& x: p) x = s.below(6); if (p[mm] >= NV) p[mm] = NV - 1; probes.push_back(p); }
    c.nontrivial(v.size() >= 4 && uniq.size() >= 3); if (v.empty()) c.label("empty"); check_seq(s, c, e, v, probes, less, true); e.clear(); c.ok(e.size() == 0 && e.empty() && e.begin() == e.end(), "cleared"); }
using Own = Ani::interval_own_memory<int, int>; static Own own(const std::vector<std::pair<int, int>>& r){ Own m; m.m_dat = r; return m; }
static std::vector<std::unique_ptr<int[]>> g_ext; using Ext = Ani::interval_external_memory<int>; static Ext ext(const std::vector<std::pair<int, int>>& r){ g_ext.emplace_back(new int[2*r.size()]); Ext m; m.m_dat_st = g_ext.back().get(); int* p = m.m_dat_st; for (auto& x: r) *p++ = x.first, *p++ = x.second; m.m_dat_end = p; return m; }
#if IV_PART == 5
PBT_PROP(V03_mapped_1, 4000, 60000, "at least three base arrays and four results"){ mapped_enum<1, 4, unsigned, unsigned, Own>(s, c, own); }
PBT_PROP(V03_mapped_2, 5000, 80000, "at least three base arrays and four results"){ mapped_enum<2, 3, unsigned, unsigned, Own>(s, c, own); }
PBT_PROP(V03_mapped_3, 5000, 80000, "at least three base arrays and four results"){ mapped_enum<3, 4, unsigned, long, Own>(s, c, own); }
PBT_PROP(V03_mapped_3_external, 5000, 80000, "at least three base arrays and four results"){ g_ext.clear(); mapped_enum<3, 4, unsigned, unsigned, Ext>(s, c, ext); }
PBT_PROP(V03_mapped_4, 4000, 60000, "at least three base arrays and four results"){ mapped_enum<4, 3, std::size_t, std::size_t, Own>(s, c, own); }
#endif
