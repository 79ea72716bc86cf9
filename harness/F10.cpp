#include "h_coarse.hpp"
static void counts(Ctx& c){ if(c.g.below(32) == 31) return Reports<double, 1, 2, 50000>::counts(c); switch(c.g.below(4)){ case 0: return Reports<double, 2, 2, 3000>::counts(c); case 1: return Reports<float, 3, 3, 5001>::counts(c); case 2: return Reports<int, 2, 4, 2000>::counts(c); default: return Reports<double, 1, 3, 1200>::counts(c); } }
static void trace(Ctx& c){ if(c.g.below(400) == 399) return Reports<double, 1, 2, 50000>::trace(c); switch(c.g.below(4)){ case 0: return Reports<double, 2, 2, 3000>::trace(c); case 1: return Reports<float, 3, 3, 5001>::trace(c); case 2: return Reports<int, 2, 4, 900>::trace(c); default: return Reports<double, 1, 3, 700>::trace(c); } }
FACET_FN(F10, counts, counts, 40000, 400000, "a tree has more than two levels");
FACET_FN(F10, trace, trace, 15000, 150000, "more than three points, and a tree was split");
