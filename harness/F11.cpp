#define UNBOUND_OPTIMIZE
#include "h_mondrian.hpp"
static void branch(Ctx& c){
	switch(c.g.below(6)){
		case 0: return Scores<double, 2, 2, 3000>::run(c); case 1: return Scores<double, 1, 3, 900>::run(c); case 2: return Scores<float, 3, 3, 5001>::run(c);
		case 3: return Scores<int, 2, 4, 2000>::run(c); case 4: if(c.g.below(8) == 7) return Scores<double, 1, 2, 50000>::run(c); return Scores<double, 5, 2, 12000>::run(c); default: return Scores<double, 2, 3, 20000>::run(c);
	}
}
static void same(Ctx& c){ switch(c.g.below(3)){ case 0: return Three<double, 2, 2, 1, 20000>::same(c); case 1: return Three<double, 1, 3, 2, 20000>::same(c); default: return Three<int, 2, 4, 1, 20000>::same(c); } }
FACET_FN(F11, branch, branch, 20000, 200000, "the trees split and more than three queries were answered");
FACET_FN(F11, same, same, 20000, 100000, "the forests split and learned more than three points");
