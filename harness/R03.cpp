#include "h_reservoir.hpp"
static void survival(Ctx& c){ switch(c.g.below(7)){ case 0: return expo_survival<1>(c); case 1: return expo_survival<2>(c); case 2: return expo_survival<3>(c); case 3: return expo_survival<5>(c); case 4: return expo_survival<10>(c); case 5: return expo_survival<33>(c); default: return expo_survival<100>(c); } }
static void longs(Ctx& c){ switch(c.g.below(4)){ case 0: return expo_long<1>(c); case 1: return expo_long<10>(c); case 2: return expo_long<50>(c); default: return expo_long<200>(c); } }
FACET_FN(R03, survival, survival, 40, 2500, "more than one element");
FACET_FN(R03, long_streams, longs, 16, 1200, "always: every case is a stream of more than 70000 elements");
