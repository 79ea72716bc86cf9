#include "stats.hpp"
#include "utils.hpp"
static double u_value; static Rng u_rng(1); static bool u_script;
struct UF { static double rand_uniform(){ return u_script ? u_value : u_rng.unit(); } };
static std::vector<double> gen_values(Gen& g, bool& integral){
	size_t n = 1 + g.length(40); std::vector<double> v(n);
	int style = (int)g.below(6); integral = style == 0;
	for(auto& x : v) switch(style){
		case 0: x = (double)g.below(12); break;
		case 1: x = g.unit(); break;
		case 2: x = g.below(4) ? 0 : g.unit() + 0.01; break;
		case 3: x = std::ldexp(g.unit(), (int)g.below(60) - 30); break;
		case 4: x = 0.1; break;
		default: x = g.below(3) ? 1e-9 * g.unit() : 1e6 * g.unit(); break;
	}
	double s = 0; for(double x : v) s += x;
	if(!(s > 1e-12)) v[g.below(n)] = 1;
	return v;
}
static void turn(Ctx& c){
	Gen& g = c.g; bool integral; std::vector<double> v = gen_values(g, integral); size_t n = v.size();
	long double sum = 0; for(double x : v) sum += x;
	double* a = (double*)malloc(n * sizeof(double)); std::copy(v.begin(), v.end(), a);
	bool given = g.flip();
	SAY(c, "turn_array_into_probability(" << show_list(v.begin(), v.end()) << (given ? ", sum given)" : ")"));
	if(given) Utils::turn_array_into_probability(a, (int)n, (double)sum); else Utils::turn_array_into_probability(a, (int)n);
	long double part = 0;
	for(size_t i = 0; i < n; ++i){
		part += v[i];
		CHECK(std::fabs((double)(a[i] - part / sum)) <= 1e-12, "entry " << i << " is " << a[i] << ", the partial sum makes " << (double)(part / sum));
		CHECK(i == 0 || a[i] >= a[i - 1], "entry " << i << " is smaller than the previous one");
		if(v[i] == 0 && i) CHECK(a[i] == a[i - 1], "an entry of probability zero has a width");
	}
	if(!given) CHECK(a[n - 1] == 1, "the last entry is " << a[n - 1] << " and not 1");
	// picking
	u_script = true; std::vector<int> seen;
	for(int k = 0; k < 24; ++k){
		switch(g.below(6)){ case 0: u_value = 0; break; case 1: u_value = 1 - std::ldexp(1.0, -53); break; case 2: { u_value = a[g.below(n)]; break; } case 3: u_value = std::nextafter(a[g.below(n)], g.flip() ? 2 : -1); break; default: u_value = g.unit(); }
		if(u_value >= 1) u_value = 1 - std::ldexp(1.0, -53);
		if(u_value < 0) u_value = 0;
		if(given && u_value > a[n - 1]) continue; // rounding of the caller's own sum
		int i = Utils::pick_from_distribution<UF>(a, (int)n);
		CHECK(i >= 0 && i < (int)n, "u=" << u_value << " picks index " << i << " of " << n);
		CHECK(v[i] > 0, "u=" << u_value << " picks index " << i << ", of probability zero");
		double lo = i ? a[i - 1] : 0, hi = a[i];
		CHECK(u_value >= lo && u_value <= hi, "u=" << u_value << " picks index " << i << ", which owns [" << lo << "," << hi << "]");
	}
	u_script = false; free(a);
	c.nontrivial(n >= 2);
}
static void frequencies(Ctx& c){
	Gen& g = c.g; bool integral; std::vector<double> v = gen_values(g, integral); size_t n = v.size();
	std::vector<double> a = v; Utils::turn_array_into_probability(a.data(), (int)n);
	u_script = false; u_rng.reseed(g.seed()); int trials = 40000; std::vector<double> obs(n + 1), expect(n + 1); double s = 0; for(double x : v) s += x;
	for(size_t i = 0; i < n; ++i) expect[i] = trials * v[i] / s;
	for(int k = 0; k < trials; ++k){ int i = Utils::pick_from_distribution<UF>(a.data(), (int)n); CHECK(i >= 0 && i < (int)n, "index " << i << " of " << n); obs[i]++; }
	double p = chi2_test(obs, expect);
	CHECK(p > P_MIN, "indexes are not picked with their probability (p=" << p << ") " << show_list(obs.begin(), obs.end()) << " expected " << show_list(expect.begin(), expect.end()));
	SAY(c, "pick from " << show_list(v.begin(), v.end())); c.nontrivial(n >= 2);
}
// distributions over more values than a short holds
static void large(Ctx& c){
	Gen& g = c.g; int n = 30000 + (int)g.below(50000); Rng r = g.fork(); std::vector<double> v(n); int style = (int)g.below(3); long double sum = 0;
	for(int i = 0; i < n; ++i){ v[i] = style == 0 ? 1 : style == 1 ? r.unit() : r.prob(0.0002) ? 1 + r.unit() : 0; sum += v[i]; }
	if(!(sum > 0)){ v[n - 1] = 1; sum = 1; }
	std::vector<double> a = v; Utils::turn_array_into_probability(a.data(), n); long double part = 0;
	for(int i = 0; i < n; ++i){ part += v[i]; CHECK(std::fabs((double)(a[i] - part / sum)) <= 1e-10, "entry " << i << " of " << n << " is " << a[i] << ", the partial sum makes " << (double)(part / sum)); }
	CHECK(a[n - 1] == 1, "the last of " << n << " entries is " << a[n - 1]);
	u_script = true;
	for(int k = 0; k < 12; ++k){
		u_value = g.below(3) ? g.unit() : std::min(a[r.below(n)], 1 - std::ldexp(1.0, -53)); int i = Utils::pick_from_distribution<UF>(a.data(), n);
		CHECK(i >= 0 && i < n && v[i] > 0, "u=" << u_value << " picks index " << i << " of " << n);
		CHECK(u_value >= (i ? a[i - 1] : 0) && u_value <= a[i], "u=" << u_value << " picks index " << i << " of " << n);
	}
	u_script = false; SAY(c, n << " values, style " << style); c.nontrivial();
}
FACET_FN(U01, large, large, 400, 3000, "always");
FACET_FN(U01, exact, turn, 900000, 5000000, "at least two values");
FACET_FN(U01, frequencies, frequencies, 1000, 30000, "at least two values");
