#include "h_reservoir.hpp"
static void subsets(Ctx& c){ switch(c.g.below(5)){ case 0: return uniform_subsets<1>(c); case 1: return uniform_subsets<2>(c); case 2: return uniform_subsets<3>(c); case 3: return uniform_subsets<4>(c); default: return uniform_subsets<5>(c); } }
static void positions(Ctx& c){ switch(c.g.below(6)){ case 0: return uniform_positions<1>(c); case 1: return uniform_positions<2>(c); case 2: return uniform_positions<7>(c); case 3: return uniform_positions<10>(c); case 4: return uniform_positions<32>(c); default: return uniform_positions<100>(c); } }
static void longs(Ctx& c){ switch(c.g.below(4)){ case 0: return uniform_long<1>(c); case 1: return uniform_long<16>(c); case 2: return uniform_long<50>(c); default: return uniform_long<500>(c); } }
// streams of more elements than 32 bits count
struct RsHalf { static double random(){ return 0.5; } static int floor(double v){ return (int)v; } };
template<class E, unsigned N> void past_32_bits(Ctx& c){
	Gen& g = c.g; Boxed<ReservoirSampling<E, N, RsHalf>> r(gen_fill(g)); u64 n = (1ULL << 32) - 50 - g.below(100);
	for(u64 i = 0; i < n; ++i){ int k = r->sample_index(); if(k >= 0) (*r)[k] = (E)i; }
	SAY(c, n << " elements, then 400 more"); std::vector<E> before(N); for(unsigned i = 0; i < N; ++i) before[i] = (*r)[i];
	for(int i = 0; i < 400; ++i){ int k = r->sample_index(); CHECK(k == -1, "element " << n + i << " is kept in slot " << k << " although the random number is 0.5"); }
	CHECK(r->count() == n + 400, "count " << r->count() << " after " << n + 400 << " elements");
	c.nontrivial();
}
static void past(Ctx& c){ if(c.g.flip()) past_32_bits<int, 10>(c); else past_32_bits<double, 1000>(c); }
FACET_DEEP(R02, past_32_bits, past, 4, "always");
FACET_FN(R02, subsets, subsets, 16, 1000, "always: every case is a frequency table over all subsets");
FACET_FN(R02, positions, positions, 16, 600, "always: every case is a frequency table over all positions");
FACET_FN(R02, long_streams, longs, 16, 500, "always: every case is a stream of more than 70000 elements");
