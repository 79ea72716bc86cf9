#include "h_mondrian.hpp"
static void process(Ctx& c){ switch(c.g.below(7)){ case 4: return mo_process<unsigned char, 3, 4000>(c); case 5: if(c.g.flip()) return mo_process<signed char, 2, 4000>(c); return mo_process<short, 2, 4000>(c); case 0: return mo_process<double, 1, 4000>(c); case 1: return mo_process<double, 2, 4000>(c); case 2: return mo_process<float, 3, 4000>(c); case 3: return mo_process<int, 2, 4000>(c); default: return mo_process<double, 4, 4000>(c); } }
static void law(Ctx& c){ switch(c.g.below(3)){ case 0: return mo_law<double, 1, 4000>(c); case 1: return mo_law<double, 2, 4000>(c); default: return mo_law<float, 3, 4000>(c); } }
FACET_FN(F07, process, process, 32, 4000, "at least 200 of the trees were split");
FACET_FN(F07, law, law, 32, 4000, "the scores vary");
