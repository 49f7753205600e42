// Parts of a tetrahedron as sets of vertices, and generated selections of parts with their model.
#pragma once
#include "pbt.h"
#include <set>
#include <map>
#include "anifem++/fem/tetdofmap.h"
namespace parts {
using pbt::Src; using pbt::fmt;
static const int CNT[4] = {4, 6, 4, 1};
static const int EDGE[6][2] = {{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}}, FACE[4][3] = {{0,1,2},{1,2,3},{2,3,0},{3,0,1}};
inline int mask(int dim, int i){ if (dim == 0) return 1 << i; if (dim == 1) return 1 << EDGE[i][0] | 1 << EDGE[i][1]; if (dim == 2) return 1 << FACE[i][0] | 1 << FACE[i][1] | 1 << FACE[i][2]; return 15; }
inline int dim_of(int mask){ return __builtin_popcount(mask) - 1; }
inline int index_of(int m){ int d = dim_of(m); for (int i = 0; i < CNT[d]; ++i) if (mask(d, i) == m) return i; return -1; }
// dimension of the part of the six types of degrees of freedom
static const int TDIM[6] = {0, 1, 1, 2, 2, 3};
inline unsigned char type_code(int t){ return (unsigned char)(1u << t); }
struct Sel { Ani::DofT::TetGeomSparsity sp; std::set<int> m; std::string txt; bool has(int mk) const { return m.count(mk) > 0; } };
inline void add(Sel& r, int d, int i, bool cl){
    r.sp.set(d, i, cl); int pm = mask(d, i); r.m.insert(pm);
    if (cl) for (int q = 1; q < 16; ++q) if ((q & pm) == q) r.m.insert(q);
    r.txt += fmt("%c%d%s ", "nefc"[d], i, cl ? "+" : "");
}
inline Sel selection(Src& s){
    Sel r; int k = s.pick({1, 3, 3, 2});
    if (k == 0) add(r, 3, 0, true);
    else if (k == 3){ for (int d = 0; d < 4; ++d) for (int i = 0; i < CNT[d]; ++i) if (s.flip()) add(r, d, i, false); }
    else for (int j = s.range(1, 3); j-- > 0;){ int d = s.pick({2, 3, 3, 1}); int i = (int)s.below(CNT[d]); add(r, d, i, s.flip()); }
    return r;
}
}
