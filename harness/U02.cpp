#include "stats.hpp"
#include "utils.hpp"
static double u_value; static Rng u_rng(1); static bool u_script;
struct UF { static double rand_uniform(){ return u_script ? u_value : u_rng.unit(); } static double log(double x){ return std::log(x); } static double exp(double x){ return std::exp(x); } };
static double gen_rate(Gen& g){ switch(g.below(4)){ case 0: return 1; case 1: return 0.01 + g.unit(); case 2: return 1 + g.unit() * 100; default: return std::ldexp(1 + g.unit(), (int)g.below(60) - 30); } }
// Kolmogorov-Smirnov distance to the exponential law
static void law(Ctx& c){
	Gen& g = c.g; double rate = gen_rate(g); u_script = false; u_rng.reseed(g.seed()); int n = 4000;
	std::vector<double> x(n); double mean = 0;
	for(auto& v : x){ v = Utils::rand_exponential<UF>(rate); CHECK(v >= 0 && std::isfinite(v), "the waiting time is " << v); mean += v / n; }
	std::sort(x.begin(), x.end()); double d = 0;
	for(int i = 0; i < n; ++i){ double f = -std::expm1(-rate * x[i]); d = std::max(d, std::max(std::fabs(f - (double)i / n), std::fabs(f - (double)(i + 1) / n))); }
	SAY(c, n << " draws with rate " << rate << ", mean " << mean << ", KS distance " << d);
	CHECK(dkw(d, n) > P_MIN, "the draws do not follow the exponential law of rate " << rate << ": distance " << d << ", mean " << mean);
	c.nontrivial();
}
static void edges(Ctx& c){
	Gen& g = c.g; double rate = gen_rate(g);
	static const double e[] = {0.0, 0.5, 0.99999999999999989, 1e-300, 1e-17, 0.25};
	u_script = true; u_value = g.below(3) == 2 ? g.unit() : e[g.below(6)]; if(u_value >= 1) u_value = 0.5;
	double v = Utils::rand_exponential<UF>(rate); u_script = false;
	SAY(c, "u=" << u_value << " rate=" << rate << " gives " << v);
	CHECK(v >= 0 && std::isfinite(v), "u=" << u_value << " and rate " << rate << " give " << v);
	// the draw is the quantile of u or that of 1 - u
	double q1 = -std::log1p(-u_value) / rate, q2 = u_value > 0 ? -std::log(u_value) / rate : q1;
	CHECK(std::fabs(v - q1) <= 1e-9 * q1 + 1e-15 / rate || std::fabs(v - q2) <= 1e-9 * q2 + 1e-15 / rate, "u=" << u_value << " and rate " << rate << " give " << v << ", quantile " << q1);
	c.nontrivial(u_value > 0);
}
FACET_FN(U02, law, law, 400, 30000, "always: every case is a sample of 4000 draws");
FACET_FN(U02, edges, edges, 500000, 3000000, "the uniform number is not zero");
