#include "h_mondrian.hpp"
static void pure(Ctx& c){
	switch(c.g.below(6)){
		case 0: return mo_purity<double, 2, 2, 1, 9000>(c); case 1: return mo_purity<double, 1, 3, 4, 1500>(c); case 2: return mo_purity<float, 3, 3, 3, 3000>(c);
		case 3: return mo_purity<int, 2, 4, 2, 2000>(c); case 4: return mo_purity<double, 5, 2, 7, 12000>(c); default: return mo_purity<double, 2, 2, 3, 900>(c);
	}
}
FACET_FN(F04, pure, pure, 40000, 400000, "more than two points trained and more than three predictions in between");
