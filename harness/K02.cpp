#include "h_chained.hpp"
static void uniform(Ctx& c){ switch(c.g.below(7)){ case 0: return chained_uniform<1>(c); case 1: return chained_uniform<2>(c); case 2: return chained_uniform<3>(c); case 3: return chained_uniform<4>(c); case 4: return chained_uniform<10>(c); case 5: return chained_uniform<25>(c); default: return chained_uniform<7>(c); } }
static void longs(Ctx& c){ switch(c.g.below(3)){ case 0: return chained_long<16>(c); case 1: return chained_long<50>(c); default: return chained_long<200>(c); } }
// streams of more elements than 32 bits count
struct KConst { static double random(){ return 0.75; } static void* malloc(unsigned int size){ return KFunct::malloc(size); } };
static void past(Ctx& c){
	Gen& g = c.g; KArena arena; Boxed<ChainedReservoirSampling<u64, 2, KConst>> r(gen_fill(g)); u64 n = (1ULL << 32) - 50 - g.below(100);
	for(u64 i = 0; i < n; ++i){ r->add(i, 0); if(i % 8 == 7) r->obsolete(0); }
	SAY(c, n << " elements, then 400 more"); r->obsolete(0); u64 a = (*r)[0], b = (*r)[1];
	for(u64 i = n; i < n + 400; ++i){ r->add(i, 7); CHECK((*r)[0] == a && (*r)[1] == b, "element " << i << " is kept although the random number is 0.75"); }
	r->obsolete(0); // the heads are succeeded by one of the two elements that follow them in the chain
	for(int s = 0; s < 2; ++s) CHECK((*r)[s] >= n && (*r)[s] < n + 3, "the successor of element " << (s ? b : a) << " after " << n << " others is " << (*r)[s]);
	c.nontrivial();
}
FACET_DEEP(K02, past_32_bits, past, 4, "always");
FACET_FN(K02, uniform, uniform, 16, 1500, "always: every case is a frequency table over all positions");
FACET_FN(K02, long_streams, longs, 0, 20, "always: every case is a stream of more than 70000 elements");
