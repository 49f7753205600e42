// The places of degrees of freedom inside a part of the cell, by groups of symmetry.
#pragma once
#include "dofgen.h"
// Points of a symmetry group: weights of the vertices of the part as listed in the documentation
static const char* const PAT1[2][2] = {{"aa"}, {"ab", "ba"}};
static const char* const PAT2[3][6] = {{"aaa"}, {"abb", "bab", "bba"}, {"abc", "bca", "cab", "acb", "cba", "bac"}};
static const char* const PAT3[5][24] = {{"aaaa"}, {"abbb", "babb", "bbab", "bbba"}, {"aabb", "abab", "baab", "abba", "baba", "bbaa"},
    {"abcc", "bcac", "cabc", "acbc", "cbac", "bacc", "bcca", "cacb", "accb", "cbca", "ccba", "ccab"},
    {"abcd", "bcad", "cabd", "acbd", "cbad", "bacd", "abdc", "bcda", "cadb", "acdb", "cbda", "badc", "adbc", "bdca", "cdab", "adcb", "cdba", "bdac", "dabc", "dbca", "dcab", "dacb", "dcba", "dbac"}};
static std::string pattern(int t, int st, int ls){ if (t == 0) return "a"; if (parts::TDIM[t] == 1) return PAT1[st][ls]; if (parts::TDIM[t] == 2) return PAT2[st][ls]; return PAT3[st][ls]; }
static std::array<int, 4> verts(int t, int el){ std::array<int, 4> r{0, 1, 2, 3}; int d = parts::TDIM[t]; if (d == 0) r[0] = el; else if (d == 1) for (int k = 0; k < 2; ++k) r[k] = parts::EDGE[el][k]; else if (d == 2) for (int k = 0; k < 3; ++k) r[k] = parts::FACE[el][k]; return r; }
// weights at the four vertices of the cell, '.' for vertices outside the part
static std::string weights(const Item& i){ std::string w = "....", p = pattern(i.t, i.st, i.ls); auto v = verts(i.t, i.el); for (size_t k = 0; k < p.size(); ++k) w[v[k]] = p[k]; return w; }
static std::string moved(const std::string& w, const unsigned char* sg){ std::string r = "...."; for (int k = 0; k < 4; ++k) r[sg[k]] = w[k]; return r; }
