#include "h_mondrian.hpp"
static void posterior(Ctx& c){
	switch(c.g.below(6)){
		case 0: return Scores<double, 2, 2, 3000>::run(c); case 1: return Scores<double, 1, 3, 900>::run(c); case 2: return Scores<float, 3, 3, 5001>::run(c);
		case 3: if(c.g.flip()) return Scores<signed char, 3, 2, 3000>::run(c); return Scores<int, 2, 4, 2000>::run(c); case 4: if(c.g.below(8) == 7) return Scores<double, 1, 2, 50000>::run(c); return Scores<double, 5, 2, 12000>::run(c); default: return Scores<double, 2, 3, 20000>::run(c);
	}
}
static void range(Ctx& c){
	switch(c.g.below(4)){
		case 0: return Scores<double, 2, 2, 3000>::hidden<2, 9000>(c); case 1: return Scores<float, 3, 3, 5001>::hidden<1, 900>(c); case 2: return Scores<int, 2, 4, 2000>::hidden<3, 2000>(c); default: return Scores<double, 1, 3, 900>::hidden<1, 20000>(c);
	}
}
FACET_FN(F08, posterior, posterior, 40000, 400000, "the trees split and more than three queries were answered");
FACET_FN(F08, range, range, 40000, 400000, "more than three points");
