#include "h_bloom.hpp"
static void bloom_set_any(Ctx& c){
	switch(c.g.below(12)){
		case 0: return bloom_set<1>(c); case 1: return bloom_set<2>(c); case 2: return bloom_set<7>(c); case 3: return bloom_set<8>(c);
		case 4: return bloom_set<9>(c); case 5: return bloom_set<16>(c); case 6: return bloom_set<31>(c); case 7: return bloom_set<33>(c);
		case 8: return bloom_set<64>(c); case 9: return bloom_set<129>(c); case 10: return bloom_set<1003>(c); default: return bloom_set<4096>(c);
	}
}
FACET_FN(B02, histories, bloom_model_any<B_EXACT>, 400000, 2500000, "at least two elements are in the filters at the end");
FACET_FN(B02, large, bloom_large_any<B_EXACT>, 2500, 8000, "at least two elements were added");
FACET_FN(B02, bulk, bloom_bulk_any<B_EXACT>, 15000, 60000, "at least two elements were added");
FACET_FN(B02, set, bloom_set_any, 30000, 120000, "the array given to set is not empty");
