#define PBT_NO_MAIN
#include "tens.h"
using namespace tens;
using Gn = void(*)(Src&, Ctx&);
static const Gn pr[] = {products<1, double>, products<2, double>, products<3, double>, products<4, double>, products<5, double>, products<6, double>, products<3, long double>, products<4, long double>};
PBT_PROP(X02_products, 6000, 60000, "operands nonzero"){ int k = s.below(8); pr[k](s, c); }
static const Gn r4[] = {rank4<1, double>, rank4<2, double>, rank4<3, double>, rank4<4, double>, rank4<3, long double>};
PBT_PROP(X02_rank_four, 2500, 25000, "operands nonzero"){ int k = s.below(5); r4[k](s, c); }
static const Gn cv[] = {conversions<1, double>, conversions<2, double>, conversions<3, double>, conversions<4, double>, conversions<3, long double>};
PBT_PROP(X02_conversions, 2500, 25000, "every case"){ int k = s.below(5); cv[k](s, c); }
static const Gn iv[] = {inverses<1, double>, inverses<2, double>, inverses<3, double>, inverses<4, double>, inverses<5, double>, inverses<6, double>, inverses<3, long double>};
PBT_PROP(X02_inverses, 10000, 150000, "regular matrices of at least two rows"){ int k = s.below(7); iv[k](s, c); }
