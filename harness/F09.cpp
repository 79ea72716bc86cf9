#include "h_coarse.hpp"
static void splits(Ctx& c){
	switch(c.g.below(8)){
		case 0: return Splits<double, 2, 2, 3000>::run(c); case 1: return Splits<double, 1, 3, 900>::run(c); case 2: return Splits<float, 3, 3, 5001>::run(c); case 3: return Splits<int, 2, 4, 2000>::run(c);
		case 4: if(c.g.below(8) == 7) return Splits<double, 1, 2, 50000>::run(c); return Splits<double, 5, 2, 6000>::run(c); case 5: return Splits<double, 2, 2, 1200>::run(c); case 6: return Splits<int, 1, 2, 1500>::run(c); default: return Splits<float, 2, 3, 2500>::run(c);
	}
}
FACET_FN(F09, splits, splits, 40000, 400000, "a tree was trimmed, and nodes were added after the memory had been full");
