// B01-B02: Dirichlet conditions in local systems against the equations they must leave.
#include "dofgen.h"
#include "anifem++/fem/operations/dc_on_dof.h"
using Ani::DenseMatrix; using Ani::ArrayView;
using ld = long double;
struct Sys { int n = 0, m = 0; std::vector<double> A, F, A0, F0; std::unique_ptr<double[]> a, f; bool sym = false;
    double at0(int i, int j) const { return A0[i + (size_t)n*j]; } double at(int i, int j) const { return a[i + (size_t)n*j]; }
    DenseMatrix<> MA(){ return DenseMatrix<>(a.get(), n, m); } DenseMatrix<> MF(){ return DenseMatrix<>(f.get(), n, 1); }
    double scale() const { double s = 0; for (double x: A0) s = std::max(s, std::fabs(x)); return s; } };
// exactly sized memory; a dominant transversal keeps the modified systems well conditioned
static Sys system(Src& s, int n, int m){
    Sys r; r.n = n; r.m = m; r.A0.resize((size_t)n*m); r.F0.resize(n); uint64_t h = s.below(1u << 30); r.sym = n == m && s.flip(); double dom = s.flip() ? 2.0*n : 0.0;
    auto rnd = [&]{ h = pbt::mix(h + 77); return ((double)(h >> 11)/9007199254740992.0)*2 - 1; }; bool ints = s.chance(1, 4);
    for (auto& x: r.A0) x = ints ? std::floor(rnd()*8) : rnd(); for (auto& x: r.F0) x = ints ? std::floor(rnd()*50) : rnd()*5;
    if (r.sym) for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) r.A0[i + (size_t)n*j] = r.A0[j + (size_t)n*i];
    for (int i = 0; i < std::min(n, m); ++i) r.A0[i + (size_t)n*i] += dom;
    r.a.reset(new double[(size_t)n*m]); r.f.reset(new double[n]); std::copy(r.A0.begin(), r.A0.end(), r.a.get()); std::copy(r.F0.begin(), r.F0.end(), r.f.get());
    return r;
}
// Gaussian elimination with full pivoting; empty when not clearly regular
static std::vector<ld> solve(std::vector<ld> A, std::vector<ld> b){
    int n = (int)b.size(); std::vector<int> cp(n); for (int i = 0; i < n; ++i) cp[i] = i; ld mx = 0; for (ld x: A) mx = std::max(mx, fabsl(x));
    for (int k = 0; k < n; ++k){ int pi = k, pj = k; for (int i = k; i < n; ++i) for (int j = k; j < n; ++j) if (fabsl(A[i + n*j]) > fabsl(A[pi + n*pj])) pi = i, pj = j;
        if (!(fabsl(A[pi + n*pj]) > 1e-4L*mx)) return {};
        for (int j = 0; j < n; ++j) std::swap(A[k + n*j], A[pi + n*j]); std::swap(b[k], b[pi]); for (int i = 0; i < n; ++i) std::swap(A[i + n*k], A[i + n*pj]); std::swap(cp[k], cp[pj]);
        for (int i = k + 1; i < n; ++i){ ld f = A[i + n*k]/A[k + n*k]; if (f == 0) continue; for (int j = k; j < n; ++j) A[i + n*j] -= f*A[k + n*j]; b[i] -= f*b[k]; } }
    std::vector<ld> x(n); for (int k = n; k-- > 0;){ ld t = b[k]; for (int j = k + 1; j < n; ++j) t -= A[k + n*j]*x[cp[j]]; x[cp[k]] = t/A[k + n*k]; }
    return x;
}
// what imposing values on the unknowns in rows I / columns J (paired) must leave; kind per pair
enum Kind { DIR, MATRIX, NONE_A, NONE_AF };
struct Imp { int i, j; Kind k; double bc; bool residual; };
static void check_imposed(Ctx& c, const Sys& S, const std::vector<Imp>& D, bool check_f = true){
    std::vector<int> row(S.n, -1), col(S.m, -1); for (int k = 0; k < (int)D.size(); ++k){ row[D[k].i] = k; col[D[k].j] = k; }
    for (int j = 0; j < S.m; ++j) for (int i = 0; i < S.n; ++i){ double e = row[i] >= 0 || col[j] >= 0 ? (row[i] >= 0 && row[i] == col[j] && (D[row[i]].k == DIR || D[row[i]].k == MATRIX) ? 1.0 : 0.0) : S.at0(i, j);
        c.ok(S.at(i, j) == e, [&]{ return fmt("matrix entry (%d,%d) is %.17g, expected %.17g", i, j, S.at(i, j), e); }); }
    if (!check_f) return;
    double sc = 0; for (double x: S.F0) sc = std::max(sc, std::fabs(x)); for (auto& d: D) if (d.k == DIR) sc += std::fabs(d.bc)*S.scale();
    for (int i = 0; i < S.n; ++i){ ld e = S.F0[i]; bool exact = false;
        if (row[i] >= 0){ auto& d = D[row[i]]; if (d.k == DIR) e = d.bc, exact = true; else if (d.k == NONE_AF || d.residual) e = 0, exact = true; else continue; }
        else for (auto& d: D) if (d.k == DIR) e -= (ld)S.at0(i, d.j)*d.bc;
        if (exact) c.ok(S.f[i] == (double)e, [&]{ return fmt("right-hand side %d is %.17g, expected %.17g", i, S.f[i], (double)e); }); else c.near(S.f[i], (double)e, 1e-13*sc, [&]{ return fmt("right-hand side %d", i); }); }
    bool all = true; for (auto& d: D) all = all && d.k == DIR; if (S.n != S.m || !all) return;
    if (S.sym && [&]{ for (auto& d: D) if (d.i != d.j) return false; return true; }()) for (int i = 0; i < S.n; ++i) for (int j = 0; j < i; ++j) c.ok(S.at(i, j) == S.at(j, i), "a symmetric matrix stays symmetric");
    if (S.n > 24) return;
    auto x = solve(std::vector<ld>(S.a.get(), S.a.get() + (size_t)S.n*S.n), std::vector<ld>(S.f.get(), S.f.get() + S.n)); if (x.empty()) return; c.label("solved");
    ld mx = 1; for (ld v: x) mx = std::max(mx, fabsl(v));
    for (auto& d: D) c.near((double)x[d.j], d.bc, 1e-12*(1 + std::fabs(d.bc)), [&]{ return fmt("solution takes the prescribed value at %d", d.j); });
    for (int i = 0; i < S.n; ++i) if (row[i] < 0){ ld t = 0; for (int j = 0; j < S.n; ++j) t += (ld)S.at0(i, j)*x[j]; c.near((double)t, S.F0[i], 1e-12*(sc + S.scale()*(double)mx*S.n), [&]{ return fmt("equation %d of the original system", i); }); }
}
static double value(Src& s){ return s.chance(1, 6) ? 0.0 : s.chance(1, 6) ? s.unit()*1e6 : s.unit()*3; }

PBT_PROP(B01_sequence, 8000, 120000, "at least two unknowns prescribed and at least one left free"){
    int n = s.range(1, 14), m = s.chance(1, 3) ? s.range(1, 14) : n, mn = std::min(n, m); Sys S = system(s, n, m); auto A = S.MA(); auto F = S.MF(); c.note(fmt("%d x %d", n, m)); if (n != m) c.label("rectangular");
    std::vector<int> ids; for (int i = 0; i < mn; ++i) ids.push_back(i); s.shuffle(ids); int q = s.range(0, mn); std::vector<Imp> D; bool only = s.flip();
    for (int k = 0; k < q; ++k){ Kind kd = only ? DIR : (Kind)s.pick({4, 2, 1, 2}); D.push_back({ids[k], ids[k], kd, kd == DIR ? value(s) : 0, (kd == MATRIX || kd == NONE_A) && s.flip()}); }
    std::vector<Imp> rep; for (auto& d: D){ rep.push_back(d); if (s.chance(1, 8)) rep.push_back(d); } if (s.flip()) s.shuffle(rep);
    for (auto& d: rep){ c.note(fmt("%d:%d", d.i, d.k)); switch (d.k){ case DIR: Ani::applyDir(A, F, d.i, d.bc); break; case MATRIX: Ani::applyDirMatrix(A, d.i); break; case NONE_A: Ani::applyDirNonExists(A, d.i); break; default: Ani::applyDirNonExists(A, F, d.i); } }
    for (auto& d: D) if (d.residual) Ani::applyDirResidual(F, d.i);
    c.nontrivial(q >= 2 && q < mn); c.label(only ? "values only" : "mixed"); check_imposed(c, S, D);
}
// numbers of the selected places, in geometric order
static std::vector<int> selected(const Flat& f, const parts::Sel& S, int shift = 0){ std::vector<int> r; for (int d = 0; d < 4; ++d) for (size_t i = 0; i < f.d.size(); ++i) if (parts::TDIM[f.d[i].t] == d && S.has(f.d[i].mask())) r.push_back((int)i + shift); return r; }
PBT_PROP(B01_selection, 5000, 80000, "the selection holds some but not all degrees of freedom"){
    Map m; do m = small_map(s, 2); while (m.f.d.size() > 80 && s.flip()); s.assume(m.f.d.size() <= 80 && m.f.d.size() > 0); parts::Sel sel = parts::selection(s); int N = (int)m.f.d.size(); c.note(m.txt); c.note(sel.txt);
    Ani::DofT::NestedDofMapView vw; Ani::DofT::NestedDofMap nm; const BaseDofMap* b = m.p.get(); Flat f = m.f; int shift = 0;
    if (!m.ch.empty() && s.chance(1, 3)){ int k = (int)s.below(m.ch.size()); for (int i = 0; i < k; ++i) shift += (int)m.ch[i].f.d.size(); f = m.ch[k].f; c.label("component"); c.note(fmt("component %d", k)); int pk[1] = {k};
        if (s.flip()){ vw = m.p->GetNestedDofMapView(pk, 1); b = &vw; } else { nm = m.p->GetNestedDofMap(pk, 1); b = &nm; } }
    auto I = selected(f, sel, shift); int extra = s.chance(1, 4) ? s.range(1, 3) : 0; Sys S = system(s, N + extra, N + extra + (s.chance(1, 5) ? 2 : 0)); auto A = S.MA(); auto F = S.MF();
    std::vector<double> vals(N + extra); for (auto& x: vals) x = value(s); double bc = value(s); int how = (int)s.below(6); std::vector<Imp> D; bool cf = true;
    static const char* nmh[] = {"constant", "by values", "matrix", "matrix and residual", "not existing", "residual"}; c.label(nmh[how]); c.note(nmh[how]); c.nontrivial(!I.empty() && I.size() < f.d.size());
    for (int i: I) D.push_back({i, i, how < 2 ? DIR : how == 4 ? NONE_AF : MATRIX, how == 0 ? bc : how == 1 ? vals[i] : 0, how == 3});
    switch (how){
        case 0: if (s.flip()) Ani::applyConstantDirByDofs(*b, A, F, sel.sp, bc); else Ani::applyConstantDirByDofs(*b, *b, A, F, sel.sp, bc); break;
        case 1: { ArrayView<const double> v(vals.data(), vals.size()); if (s.flip()) Ani::applyDirByDofs(*b, A, F, sel.sp, v); else Ani::applyDirByDofs(*b, *b, A, F, sel.sp, v); break; }
        case 2: if (s.flip()) Ani::applyDirMatrix(*b, A, sel.sp); else Ani::applyDirMatrix(*b, *b, A, sel.sp); for (int i = 0; i < S.n; ++i) c.ok(S.f[i] == S.F0[i], "the right-hand side is not an argument"); break;
        case 3: if (s.flip()) Ani::applyDirResidual(*b, A, F, sel.sp); else Ani::applyDirResidual(*b, *b, A, F, sel.sp); break;
        case 4: if (s.flip()) Ani::applyDirNonExists(*b, A, F, sel.sp); else Ani::applyDirNonExists(*b, *b, A, F, sel.sp); break;
        default: { Ani::applyDirResidual(*b, F, sel.sp); std::set<int> z(I.begin(), I.end()); for (int i = 0; i < S.n; ++i) c.ok(S.f[i] == (z.count(i) ? 0 : S.F0[i]), [&]{ return fmt("residual %d is %.17g, was %.17g", i, S.f[i], S.F0[i]); }); for (size_t k = 0; k < S.A0.size(); ++k) c.ok(S.a[k] == S.A0[k], "matrix changed"); return; }
    }
    check_imposed(c, S, D, how != 2);
}
// test and trial spaces with the same degrees of freedom laid out differently
PBT_PROP(B01_pairs, 5000, 80000, "layouts of the test and trial space differ on the selection"){
    parts::Sel sel = parts::selection(s); c.note(sel.txt); std::vector<Map> ch; int q = s.range(2, 3); for (int i = 0; i < q; ++i) ch.push_back(s.chance(1, 3) ? any_map(s, 1) : elementary(s));
    std::vector<int> o; for (int i = 0; i < q; ++i) o.push_back(i); std::vector<int> o2 = o; s.shuffle(o2); std::vector<Ptr> pa, pb; std::vector<Map> ca, cb; for (int i: o){ pa.push_back(ch[i].p); ca.push_back(ch[i]); } for (int i: o2){ pb.push_back(ch[i].p); cb.push_back(ch[i]); }
    Map tr = product(std::make_shared<ComplexDofMap>(pa), ca, "Com"), te = product(std::make_shared<ComplexDofMap>(pb), cb, "Com"); s.assume(tr.f.d.size() <= 80 && !tr.f.d.empty()); c.note(tr.txt + " / " + te.txt);
    Ani::DofT::NestedDofMapView va, vb; const BaseDofMap *a = tr.p.get(), *b = te.p.get(); Flat fa = tr.f, fb = te.f; int sa = 0, sb = 0; int N = (int)tr.f.d.size(), NR = N, NC = N;
    if (s.flip()){ // one component of each
        int k = (int)s.below(q); int ka = 0, kb = 0; while (o[ka] != k) ++ka; while (o2[kb] != k) ++kb; for (int i = 0; i < ka; ++i) sa += (int)ca[i].f.d.size(); for (int i = 0; i < kb; ++i) sb += (int)cb[i].f.d.size();
        va = tr.p->GetNestedDofMapView(&ka, 1); vb = te.p->GetNestedDofMapView(&kb, 1); a = &va; b = &vb; fa = fb = ch[k].f; c.label("components"); c.note(fmt("component %d against %d", ka, kb)); if (s.flip()){ NR += s.range(0, 2); NC += s.range(0, 2); } }
    auto J = selected(fa, sel, sa), I = selected(fb, sel, sb); c.nontrivial(I != J && !I.empty()); Sys S = system(s, NR, NC); auto A = S.MA(); auto F = S.MF(); std::vector<double> vals(std::max(NR, NC)); for (auto& x: vals) x = value(s); double bc = value(s); int how = (int)s.below(6);
    static const char* nmh[] = {"constant", "by values", "matrix", "matrix and residual", "not existing", "not existing with residual"}; c.label(nmh[how]); c.note(nmh[how]);
    switch (how){ case 0: Ani::applyConstantDirByDofs(*a, *b, A, F, sel.sp, bc); break; case 1: Ani::applyDirByDofs(*a, *b, A, F, sel.sp, ArrayView<const double>(vals.data(), vals.size())); break; case 2: Ani::applyDirMatrix(*a, *b, A, sel.sp); break;
        case 3: Ani::applyDirResidual(*a, *b, A, F, sel.sp); break; case 4: Ani::applyDirNonExists(*a, *b, A, sel.sp); break; default: Ani::applyDirNonExists(*a, *b, A, F, sel.sp); }
    // which row carries which column: any pairing that stays on the part is right
    std::vector<Imp> D; std::set<int> rows(I.begin(), I.end()); size_t next = 0; std::vector<char> used(NR, 0);
    for (int j: J){ int i = -1;
        if (how < 4){ for (int r: I) if (S.at(r, j) == 1.0){ c.ok(i < 0, "two equations for one prescribed value"); i = r; } c.ok(i >= 0, [&]{ return fmt("no equation prescribes degree of freedom %d", j); }); c.ok(fb.d[i - sb].mask() == fa.d[j - sa].mask(), [&]{ return fmt("the equation for degree of freedom %d lies on another part", j); }); }
        else { while (next < I.size() && used[I[next]]) ++next; i = I[next]; }
        c.ok(!used[i], "one equation for two prescribed values"); used[i] = 1; D.push_back({i, j, how < 2 ? DIR : how < 4 ? MATRIX : how == 4 ? NONE_A : NONE_AF, how == 0 ? bc : how == 1 ? vals[j] : 0, how == 3}); }
    check_imposed(c, S, D, how != 2 && how != 4);
}

// ---- B02
static std::vector<double> orthogonal(Src& s, int d, std::string& what){
    std::vector<double> V(d*d, 0.0); int k = s.pick({1, 1, 5}); std::vector<int> p; for (int i = 0; i < d; ++i) p.push_back(i); what = k == 0 ? "coordinate axes" : k == 1 ? "permuted axes" : "general"; if (k == 1) s.shuffle(p);
    for (int i = 0; i < d; ++i) V[i + d*p[i]] = k == 1 && s.flip() ? -1 : 1;
    if (k == 2) for (int r = s.range(1, 3); r-- > 0;){ std::vector<double> v(d); double n2 = 0; for (auto& x: v){ x = s.unit(); n2 += x*x; } if (n2 < 1e-3) continue; for (int j = 0; j < d; ++j){ double t = 0; for (int i = 0; i < d; ++i) t += v[i]*V[i + d*j]; for (int i = 0; i < d; ++i) V[i + d*j] -= 2*t*v[i]/n2; } }
    return V;
}
PBT_PROP(B02_system, 12000, 200000, "some but not all directions prescribed, or more than one group"){
    int groups = s.range(1, 3), n = 0; std::vector<int> ds; for (int g = 0; g < groups; ++g){ int d = s.pick({2, 2, 6, 1}) + 1; ds.push_back(d); n += d; } n += s.range(0, 5); int m = s.chance(1, 6) ? n + s.range(1, 3) : n, nr = s.chance(1, 8) ? n + s.range(1, 3) : n; c.note(fmt("%d x %d", nr, m));
    Sys S = system(s, nr, m); auto A = S.MA(); auto F = S.MF(); int how = s.pick({4, 2, 2}); // full, matrix only, residual only
    static const char* hn[] = {"system", "matrix", "residual"}; c.label(hn[how]); c.note(hn[how]);
    std::vector<int> ids; for (int i = 0; i < n; ++i) ids.push_back(i); s.shuffle(ids); std::vector<ld> EA(S.A0.begin(), S.A0.end()), EF(S.F0.begin(), S.F0.end()); int at = 0; bool nt = groups > 1;
    struct Grp { std::vector<unsigned> id; std::vector<double> V; std::vector<int> K; std::vector<double> bc; }; std::vector<Grp> G; double sc = S.scale() + 5, bmax = 1;
    for (int g = 0; g < groups; ++g){
        int d = ds[g]; Grp r; for (int i = 0; i < d; ++i) r.id.push_back(ids[at++]); std::string w; r.V = orthogonal(s, d, w); int ndc = s.range(0, d); std::vector<int> o; for (int i = 0; i < d; ++i) o.push_back(i); bool sub = s.flip(); if (sub) s.shuffle(o); for (int k = 0; k < ndc; ++k){ r.K.push_back(o[k]); r.bc.push_back(value(s)); bmax = std::max(bmax, std::fabs(r.bc.back())); }
        if (ndc > 0 && ndc < d) nt = true; c.note(fmt("%d of %d directions (%s)%s", ndc, d, w.c_str(), sub ? " chosen" : "")); c.label(fmt("%d of %d", ndc, d));
        std::unique_ptr<double[]> V(new double[d*d]), bc(new double[ndc + 0]), mem(new double[std::max<size_t>(1, (size_t)d*std::max(nr, m))]); std::copy(r.V.begin(), r.V.end(), V.get()); std::copy(r.bc.begin(), r.bc.end(), bc.get()); std::unique_ptr<unsigned[]> dc(new unsigned[ndc]); for (int k = 0; k < ndc; ++k) dc[k] = r.K[k];
        for (int k = 0; k < d*std::max(nr, m); ++k) mem[k] = 1e300; DenseMatrix<> Vm(V.get(), d, d); ArrayView<> Bc(bc.get(), ndc), Mem(mem.get(), how == 2 ? d : (size_t)d*std::max(nr, m)); const unsigned* po = sub ? dc.get() : nullptr; const unsigned* idp = r.id.data();
        switch (how){ case 0: if (s.flip()) Ani::applyVectorDir(A, F, idp, Vm, Bc, Mem, (unsigned)ndc, po); else Ani::applyVectorDir(A, F, r.id.begin(), Vm, Bc, Mem, (unsigned)ndc, po); break; case 1: Ani::applyVectorDirMatrix(A, idp, Vm, Mem, (unsigned)ndc, po); break; default: Ani::applyVectorDirResidual(F, idp, Vm, Mem, (unsigned)ndc, po); }
        // what must be left: rotated equations, unknowns restricted to the free directions
        auto v = [&](int i, int j){ return (ld)r.V[i + d*j]; }; std::vector<ld> A1 = EA, F1 = EF; std::set<int> K(r.K.begin(), r.K.end());
        for (int i = 0; i < d; ++i){ for (int j = 0; j < m; ++j){ ld t = 0; for (int p = 0; p < d; ++p) t += v(i, p)*EA[r.id[p] + (size_t)nr*j]; A1[r.id[i] + (size_t)nr*j] = t; } ld t = 0; for (int p = 0; p < d; ++p) t += v(i, p)*EF[r.id[p]]; F1[r.id[i]] = t; }
        if (how == 2){ for (int k: r.K) F1[r.id[k]] = 0; EF = F1; G.push_back(r); continue; }
        std::set<int> pr; for (int k: r.K) pr.insert(r.id[k]);
        for (int i = 0; i < nr; ++i){ if (pr.count(i)) continue; std::vector<ld> row(d); for (int p = 0; p < d; ++p) row[p] = A1[i + (size_t)nr*r.id[p]];
            for (size_t k = 0; k < r.K.size(); ++k){ ld t = 0; for (int p = 0; p < d; ++p) t += row[p]*v(r.K[k], p); F1[i] -= t*r.bc[k]; for (int p = 0; p < d; ++p) A1[i + (size_t)nr*r.id[p]] -= t*v(r.K[k], p); } }
        for (size_t k = 0; k < r.K.size(); ++k){ int i = r.id[r.K[k]]; for (int j = 0; j < m; ++j) A1[i + (size_t)nr*j] = 0; for (int p = 0; p < d; ++p) A1[i + (size_t)nr*r.id[p]] = v(r.K[k], p); F1[i] = r.bc[k]; }
        EA = A1; EF = F1; G.push_back(r);
    }
    c.nontrivial(nt); double tol = 1e-12*sc*bmax*10;
    if (how != 2) for (int j = 0; j < m; ++j) for (int i = 0; i < nr; ++i) c.near(S.at(i, j), (double)EA[i + (size_t)nr*j], 1e-12*sc, [&]{ return fmt("matrix entry (%d,%d)", i, j); }); else for (size_t k = 0; k < S.A0.size(); ++k) c.ok(S.a[k] == S.A0[k], "matrix changed");
    if (how != 1) for (int i = 0; i < nr; ++i) c.near(S.f[i], (double)EF[i], tol, [&]{ return fmt("right-hand side %d", i); }); else for (int i = 0; i < nr; ++i) c.ok(S.f[i] == S.F0[i], "right-hand side changed");
    if (how != 0 || nr != m) return;
    auto x = solve(std::vector<ld>(S.a.get(), S.a.get() + (size_t)nr*nr), std::vector<ld>(S.f.get(), S.f.get() + nr)); if (x.empty()) return; c.label("solved"); ld mx = 1; for (ld t: x) mx = std::max(mx, fabsl(t));
    std::vector<ld> res(nr); for (int i = 0; i < nr; ++i){ ld t = -(ld)S.F0[i]; for (int j = 0; j < nr; ++j) t += (ld)S.at0(i, j)*x[j]; res[i] = t; }
    double t2 = 1e-9*(sc*bmax + sc*(double)mx*nr); std::set<int> in;
    for (auto& g: G){ int d = (int)g.id.size(); std::set<int> K(g.K.begin(), g.K.end()); for (int i = 0; i < d; ++i) in.insert(g.id[i]);
        for (size_t k = 0; k < g.K.size(); ++k){ ld t = 0; for (int p = 0; p < d; ++p) t += x[g.id[p]]*g.V[g.K[k] + d*p]; c.near((double)t, g.bc[k], t2, [&]{ return fmt("prescribed component %zu of the solution", k); }); }
        for (int i = 0; i < d; ++i) if (!K.count(i)){ ld t = 0; for (int p = 0; p < d; ++p) t += res[g.id[p]]*g.V[i + d*p]; c.near((double)t, 0, t2, [&]{ return fmt("original equations projected on free direction %d", i); }); } }
    for (int i = 0; i < nr; ++i) if (!in.count(i)) c.near((double)res[i], 0, t2, [&]{ return fmt("equation %d of another unknown", i); });
}
// rows and columns that couple the vector unknown with the rest of a larger system
PBT_PROP(B02_coupling, 5000, 80000, "some but not all directions prescribed"){
    int d = s.pick({1, 3, 6, 1}) + 1, n = d + s.range(0, 6); std::vector<int> ids; for (int i = 0; i < n; ++i) ids.push_back(i); s.shuffle(ids); std::string w; auto V = orthogonal(s, d, w); int ndc = s.range(0, d); std::vector<int> o; for (int i = 0; i < d; ++i) o.push_back(i); bool sub = s.flip(); if (sub) s.shuffle(o);
    c.note(fmt("%d unknowns, %d of %d directions (%s)", n, ndc, d, w.c_str())); c.nontrivial(ndc > 0 && ndc < d); std::unique_ptr<unsigned[]> id(new unsigned[d]), dc(new unsigned[ndc]); for (int i = 0; i < d; ++i) id[i] = ids[i]; for (int i = 0; i < ndc; ++i) dc[i] = o[i];
    std::unique_ptr<double[]> x(new double[n]), vm(new double[d*d]), mem(new double[d]); std::vector<double> x0(n); for (int i = 0; i < n; ++i) x[i] = x0[i] = s.unit()*4; std::copy(V.begin(), V.end(), vm.get()); DenseMatrix<> Vm(vm.get(), d, d); ArrayView<> X(x.get(), n), M(mem.get(), d); bool col = s.flip(); c.label(col ? "column" : "row");
    std::vector<ld> e(x0.begin(), x0.end()); auto v = [&](int i, int j){ return (ld)V[i + d*j]; };
    if (col){ Ani::applyVectorDirMatrixExtCol(X, id.get(), Vm, M, (unsigned)ndc, sub ? dc.get() : nullptr); for (int i = 0; i < d; ++i){ ld t = 0; for (int p = 0; p < d; ++p) t += v(i, p)*x0[id[p]]; e[id[i]] = t; } for (int k = 0; k < ndc; ++k) e[id[o[k]]] = 0; }
    else { Ani::applyVectorDirMatrixExtRow(X, id.get(), Vm, (unsigned)ndc, sub ? dc.get() : nullptr); for (int k = 0; k < ndc; ++k){ ld t = 0; for (int p = 0; p < d; ++p) t += v(o[k], p)*x0[id[p]]; for (int p = 0; p < d; ++p) e[id[p]] -= t*v(o[k], p); } }
    for (int i = 0; i < n; ++i) c.near(x[i], (double)e[i], 1e-13*20, [&]{ return fmt("entry %d", i); });
}
