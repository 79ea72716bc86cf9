// Statistical oracles. Thresholds are far in the tail (1e-12), so that the
// number of tests run over all seeds does not produce false alarms.
#ifndef STATS_HPP
#define STATS_HPP
#include "common.hpp"
static const double P_MIN = 1e-12;
// regularised upper incomplete gamma Q(a, x)
inline double gamma_q(double a, double x){
	if(x <= 0) return 1;
	if(x < a + 1){
		double sum = 1 / a, term = sum;
		for(int n = 1; n < 100000; ++n){ term *= x / (a + n); sum += term; if(std::fabs(term) < std::fabs(sum) * 1e-16) break; }
		return 1 - sum * std::exp(-x + a * std::log(x) - std::lgamma(a));
	}
	double b = x + 1 - a, c = 1e300, d = 1 / b, h = d;
	for(int i = 1; i < 100000; ++i){
		double an = -i * (i - a); b += 2;
		d = an * d + b; if(std::fabs(d) < 1e-300) d = 1e-300;
		c = b + an / c; if(std::fabs(c) < 1e-300) c = 1e-300;
		d = 1 / d; double del = d * c; h *= del;
		if(std::fabs(del - 1) < 1e-15) break;
	}
	return std::exp(-x + a * std::log(x) - std::lgamma(a)) * h;
}
inline double chi2_sf(double x, double df){ return gamma_q(df / 2, x / 2); }
// observed against expected counts; cells with small expectation are merged
inline double chi2_test(std::vector<double> const& obs, std::vector<double> const& expect, double* stat = nullptr, double min_cell = 30){
	double x = 0, o = 0, e = 0; int cells = 0; double lo = 0, le = 0;
	for(size_t i = 0; i < obs.size(); ++i){
		o += obs[i]; e += expect[i];
		if(e >= min_cell){ if(cells) x += (lo - le) * (lo - le) / le; lo = o; le = e; ++cells; o = e = 0; }
	}
	lo += o; le += e; // the rest joins the last cell
	if(le > 0 && cells) x += (lo - le) * (lo - le) / le;
	if(stat) *stat = x;
	return cells < 2 ? 1 : chi2_sf(x, cells - 1);
}
// two samples of counts over the same cells
inline double chi2_two(std::vector<double> const& a, std::vector<double> const& b, double min_cell = 60){
	double na = 0, nb = 0; for(double v : a) na += v; for(double v : b) nb += v;
	if(na == 0 || nb == 0) return 1;
	std::vector<double> ca, cb; double x = 0, y = 0;
	for(size_t i = 0; i < a.size(); ++i){ x += a[i]; y += b[i]; if(x + y >= min_cell){ ca.push_back(x); cb.push_back(y); x = y = 0; } }
	if(ca.empty()) return 1;
	ca.back() += x; cb.back() += y;
	double k1 = std::sqrt(nb / na), k2 = std::sqrt(na / nb), s = 0;
	for(size_t i = 0; i < ca.size(); ++i){ double d = k1 * ca[i] - k2 * cb[i]; s += d * d / (ca[i] + cb[i]); }
	return ca.size() < 2 ? 1 : chi2_sf(s, ca.size() - 1);
}
// two-sided tail of a binomial count (Bernstein's inequality: an upper bound, never too small)
inline double binom_tail(double k, double n, double p){
	double d = std::fabs(k - n * p); if(d == 0) return 1;
	double v = n * p * (1 - p);
	return 2 * std::exp(-d * d / (2 * (v + d / 3)));
}
// Kolmogorov-Smirnov tail (Dvoretzky-Kiefer-Wolfowitz bound)
inline double dkw(double d, double n){ return 2 * std::exp(-2 * n * d * d); }
#endif
