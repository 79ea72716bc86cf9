#include "common.hpp"
#include "metrics.hpp"
// n is the number of metrics that were started so far in the program; the newest
// of them and S older ones share a total weight of one.
static void weights(Ctx& c){
	Gen& g = c.g; typedef ReservoirSamplingMetrics M;
	M base; i64 n = 1; { M probe(base); M next; n = (i64)std::llround(1 / probe.score()); } // `next` was number n
	int count = 1 + (int)g.below(40); std::vector<M> pool(0); pool.reserve(count);
	std::vector<i64> num;
	SAY(c, count << " metrics from number " << n + 1 << ":");
	for(int i = 0; i < count; ++i){ pool.emplace_back(); num.push_back(++n); }
	size_t ops = g.length(60); int resets = 0;
	auto verify = [&]{
		for(int i = 0; i < count; ++i){
			int s = (int)g.below(4) ? (int)g.below(count) + 1 : 1 + (int)g.below(g.flip() ? 1000 : 1 << 26);
			double got = s == 1 ? pool[i].score() : pool[i].score(g.flip(), s);
			double expect = num[i] == n ? (double)(n - s) / n : 1.0 / n;
			CHECK(std::fabs(got - expect) <= 1e-12 + 1e-12 * std::fabs(expect), "metric number " << num[i] << " of " << n << " scores " << got << " with a sample of " << s << ", " << expect << " expected");
			CHECK(!pool[i].ratio(), "ratio()");
		}
	};
	verify();
	for(size_t k = 0; k < ops; ++k){
		int i = (int)g.below(count);
		switch(g.below(5)){
			case 0: pool[i].reset(); num[i] = ++n; ++resets; SAY(c, " reset(" << i << ")"); break;
			case 1: { int j = (int)g.below(count); pool[i] = pool[j]; num[i] = num[j]; SAY(c, " copy(" << i << "," << j << ")"); break; }
			case 2: pool[i].update((int)g.below(3), (int)g.below(3)); break;
			case 3: pool[i].increase_error(); pool[i].increase_error(3); break;
			default: pool[i] = pool[i]; break;
		}
		verify();
	}
	// one newest and S older: the weights sum to one
	int S = 1 + (int)g.below(20); if(n + 1 > S){ M older(base); M newest; ++n; double sum = newest.score(false, S) + S * older.score(false, S); CHECK(std::fabs(sum - 1) < 1e-9, "the weights of a sample of " << S << " and of the newest object sum to " << sum); }
	c.nontrivial(resets > 0);
}
FACET_FN(E03, histories, weights, 400000, 2500000, "at least one metric was restarted");
