#include "h_chained.hpp"
static void succession(Ctx& c){ switch(c.g.below(6)){ case 0: return chained_succession<1>(c); case 1: return chained_succession<2>(c); case 2: return chained_succession<3>(c); case 3: return chained_succession<5>(c); case 4: return chained_succession<10>(c); default: return chained_succession<4>(c); } }
FACET_FN(K03, histories, chained_any<K_OBS>, 60000, 150000, "an obsolete element was succeeded by a live one");
FACET_FN(K03, succession, succession, 16, 400, "some elements are obsolete");
