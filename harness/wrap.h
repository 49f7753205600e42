// What W01 shares: random sparsities with an independent model of them.
#pragma once
#include "pbt.h"
#include <iostream>
#include <memory>
#include <vector>
#include "anifem++/inmost_interface/func_wrap.h"
namespace wr {
using pbt::Src; using pbt::Ctx; using pbt::fmt;
// a pattern: mask[i + n*j]
struct Pat { long n = 0, m = 0; std::vector<char> mask; bool dense = false; long nnz() const { long r = 0; for (char x: mask) r += x; return r; }
    std::string str() const { std::string r = fmt("%ldx%ld%s ", n, m, dense ? " dense" : ""); for (long i = 0; i < n; ++i){ for (long j = 0; j < m; ++j) r += mask[i + n*j] ? 'x' : '.'; r += '/'; } return r; } };
inline Pat pat(Src& s){ Pat p; p.n = s.below(7); p.m = s.below(6); if (s.chance(4, 5)){ p.n = 1 + p.n % 6; p.m = 1 + p.m % 5; } p.mask.assign(p.n*p.m, 0); int kind = (int)s.pick({3, 6, 1, 1}); p.dense = kind == 0;
    for (auto& x: p.mask) x = kind == 0 || kind == 2 ? 1 : kind == 3 ? 0 : s.flip(); return p; }
template<class Int> inline void csc(const Pat& p, std::vector<Int>& col, std::vector<Int>& row){ col.assign(1, 0); row.clear(); for (long j = 0; j < p.m; ++j){ for (long i = 0; i < p.n; ++i) if (p.mask[i + p.n*j]) row.push_back((Int)i); col.push_back((Int)row.size()); } }
template<class Int> inline Ani::MatSparsity<Int> mat(const Pat& p){ if (p.dense) return Ani::MatSparsity<Int>::make_as_dense((Int)p.n, (Int)p.m); std::vector<Int> c, r; csc(p, c, r); return Ani::MatSparsity<Int>::make_as_sparse((Int)p.nnz(), (Int)p.n, (Int)p.m, c, r); }
template<class Int, class A> inline void same(Ctx& c, const Ani::MatSparsityView<Int>& v, const Pat& p, A what){ std::vector<Int> col, row; csc(p, col, row);
    c.ok((long)v.m_sz1 == p.n && (long)v.m_sz2 == p.m && (long)v.m_nnz == p.nnz(), [&]{ return std::string(what) + fmt(": the sparsity is of %ldx%ld with %ld entries instead of ", (long)v.m_sz1, (long)v.m_sz2, (long)v.m_nnz) + p.str(); });
    std::vector<Int> a(p.m + 1, -7), b(p.nnz() + 1, -7); v.copyCSC(a.data(), b.data()); c.ok(b.back() == -7, [&]{ return std::string(what) + ": more row indexes than entries"; }); b.pop_back(); c.ok(a == col && b == row, [&]{ return std::string(what) + ": the CSC indexes are of another matrix than " + p.str(); }); }
}
