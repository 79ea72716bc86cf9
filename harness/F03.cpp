#include "h_mondrian.hpp"
static void same(Ctx& c){
	switch(c.g.below(7)){
		case 0: return Three<double, 2, 2, 1, 20000>::same(c); case 1: return Three<double, 1, 3, 2, 20000>::same(c); case 2: return Three<float, 3, 3, 3, 40000>::same(c);
		case 3: return Three<int, 2, 4, 1, 20000>::same(c); case 4: return Three<double, 5, 2, 2, 40000>::same(c); case 5: if(c.g.flip()) return Three<unsigned char, 4, 3, 1, 20000>::same(c); return Three<short, 2, 2, 2, 20000>::same(c); default: return Three<float, 2, 2, 1, 20000>::same(c);
	}
}
FACET_FN(F03, same, same, 40000, 400000, "the forests split and learned more than three points");
