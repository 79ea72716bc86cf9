#ifndef H_RESERVOIR_HPP
#define H_RESERVOIR_HPP
#include "stats.hpp"
#include "reservoir_sampling.hpp"
static Rng rs_rng(1); static int rs_style; static u64 rs_calls;
static double rs_random(){
	++rs_calls;
	static const double edges[] = {0.0, 1.0, 0.5, 0.99999999999999989, 1e-300, 0.25};
	switch(rs_style){
		case 0: return rs_rng.unit();
		case 1: return edges[rs_rng.below(6)];
		case 2: return 0.0;
		case 3: return 1.0;
		case 4: return 0.99999999999999989;
		case 5: return rs_rng.prob(0.3) ? edges[rs_rng.below(6)] : rs_rng.unit();
		case 6: return (double)rs_rng.below(32768) / 32767.0; // rand() / RAND_MAX
		default: return rs_rng.unit() * 0.01;
	}
}
struct RsFunc { static double random(){ return rs_random(); } static int floor(double v){ return (int)std::floor(v); } };
struct RsFuncD { static double random(){ return rs_random(); } static double floor(double v){ return std::floor(v); } };
struct Rec { int id; char tag[5]; bool operator==(Rec const& o) const { return id == o.id && !memcmp(tag, o.tag, 5); } };
inline void rmake(int& e, int i){ e = i * 7 + 1; }
inline void rmake(double& e, int i){ e = i + 0.5; }
inline void rmake(Rec& e, int i){ memset(&e, 0, sizeof e); e.id = i; memset(e.tag, i & 0xff, 5); }
inline void rmake(unsigned char& e, int i){ e = (unsigned char)i; }

// R01: what each addition may change, for any random function
template<class E, unsigned N, class F, bool EXPO> void reservoir_slots(Ctx& c){
	Gen& g = c.g;
	typedef typename std::conditional<EXPO, ExponentialReservoirSampling<E, N, F>, ReservoirSampling<E, N, F>>::type R;
	rs_style = (int)g.below(8); rs_rng.reseed(g.seed());
	unsigned char fill = gen_fill(g);
	Boxed<R> r(fill), other((unsigned char)~fill);
	std::vector<E> model(N), omodel(N); std::vector<bool> used(N), oused(N); unsigned cnt = 0, ocnt = 0, n = 0;
	size_t ops = g.length(g.below(8) == 7 ? 2000 : 100);
	SAY(c, (EXPO ? "Exponential" : "") << "ReservoirSampling<" << sizeof(E) << " bytes," << N << "> random style " << rs_style << ":");
	CHECK(r->count() == 0, "a new reservoir counts " << r->count());
	auto check_all = [&](R* x, std::vector<E>& m, std::vector<bool>& u, const char* who){
		R const* k = x;
		for(unsigned i = 0; i < N; ++i) if(u[i]) CHECK(memcmp(&m[i], &(*x)[i], sizeof(E)) == 0 && memcmp(&m[i], &(*k)[i], sizeof(E)) == 0, who << ": slot " << i << " does not hold what was put there, after " << n << " additions");
	};
	auto step = [&](R* x, std::vector<E>& m, std::vector<bool>& u, unsigned& k, bool self, int id){
		E e; rmake(e, id);
		unsigned before = x->count();
		int idx = self ? x->add(e) : x->sample_index();
		if(EXPO){
			CHECK(idx >= 0 && idx < (int)N, "index " << idx << " outside the reservoir");
			unsigned after = x->count();
			if(after == before) CHECK(idx < (int)before, "index " << idx << " although " << before << " slots are used and none was added");
			else{ CHECK(after == before + 1 && idx == (int)before, "slot " << idx << " was used, count went from " << before << " to " << after); }
			CHECK(after <= N, "count " << after << " above the size");
			CHECK(after >= 1, "an added element is not counted");
		}else{
			CHECK(idx >= -1 && idx < (int)N, "index " << idx << " outside the reservoir");
			if(k < N) CHECK(idx == (int)k, "element " << k << " of an unfilled reservoir went to " << idx);
			CHECK(x->count() == k + 1, "count " << x->count() << " after " << k + 1 << " elements");
		}
		++k;
		SAY(c, " " << idx);
		if(idx >= 0){
			if(!self) (*x)[idx] = e;
			m[idx] = e; u[idx] = true;
		}
		return idx;
	};
	int hits = 0;
	for(size_t i = 0; i < ops; ++i){
		bool self = !g.flip(); ++n;
		int idx = step(r.p, model, used, cnt, self, (int)i);
		if(i >= N && idx >= 0) ++hits;
		if(g.below(4) == 3) step(other.p, omodel, oused, ocnt, true, 100000 + (int)i);
		if(g.below(8) == 7 && used[i % N]){ E e; rmake(e, -5 - (int)i); (*r.p)[i % N] = e; model[i % N] = e; } // the user writes a slot
		if(ops < 200 || i % 16 == 0 || i + 1 == ops){ check_all(r.p, model, used, "reservoir"); check_all(other.p, omodel, oused, "other reservoir"); }
	}
	c.label_if(hits > 0, "replacements"); c.nontrivial(ops > N);
}
template<bool EXPO> void reservoir_slots_any(Ctx& c){
	switch(c.g.below(10)){
		case 0: return reservoir_slots<int, 1, RsFunc, EXPO>(c);
		case 1: return reservoir_slots<int, 2, RsFunc, EXPO>(c);
		case 2: return reservoir_slots<double, 3, RsFuncD, EXPO>(c);
		case 3: return reservoir_slots<Rec, 5, RsFunc, EXPO>(c);
		case 4: return reservoir_slots<int, 10, RsFunc, EXPO>(c);
		case 5: return reservoir_slots<unsigned char, 16, RsFuncD, EXPO>(c);
		case 6: return reservoir_slots<double, 50, RsFunc, EXPO>(c);
		case 7: return reservoir_slots<Rec, 100, RsFunc, EXPO>(c);
		case 8: return reservoir_slots<int, 300, RsFuncD, EXPO>(c);
		default: return reservoir_slots<double, 7, RsFunc, EXPO>(c);
	}
}

// R01: reservoirs of more slots than a short holds
template<unsigned N, bool EXPO> void reservoir_large(Ctx& c){
	Gen& g = c.g; typedef typename std::conditional<EXPO, ExponentialReservoirSampling<int, N, RsFuncD>, ReservoirSampling<int, N, RsFuncD>>::type R;
	rs_style = 0; rs_rng.reseed(g.seed()); Boxed<R> r(gen_fill(g)); std::vector<int> m(N, -1); u64 n = N + g.below(4 * N); if(EXPO) n += 2 * N; u64 cnt = 0, used = 0, hits = 0; std::vector<double> place(8);
	SAY(c, (EXPO ? "Exponential" : "") << "ReservoirSampling<int," << N << ">, " << n << " elements");
	for(u64 i = 0; i < n; ++i){
		int idx = r->add((int)i); u64 now = r->count();
		if(EXPO){
			CHECK(idx >= 0 && idx < (int)N, "index " << idx << " of " << N);
			CHECK(now == used || now == used + 1, "count went from " << used << " to " << now);
			if(now == used) CHECK(idx < (int)used, "index " << idx << " although " << used << " slots are used"); else CHECK(idx == (int)used, "slot " << idx << " was used first, not " << used);
			used = now;
		}else{
			CHECK(idx >= -1 && idx < (int)N, "index " << idx << " of " << N); CHECK(cnt >= N || idx == (int)cnt, "element " << cnt << " of an unfilled reservoir went to " << idx); CHECK(now == cnt + 1, "count " << now << " after " << cnt + 1 << " elements");
		}
		++cnt; if(idx >= 0) m[idx] = (int)i;
		if(idx >= 0 && (EXPO ? idx < (int)used - 1 && used > N / 4 : i >= N)){ place[(u64)idx * 8 / (EXPO ? used : N)]++; ++hits; }
	}
	for(unsigned i = 0; i < N; ++i) CHECK(m[i] < 0 || (*r)[i] == m[i], "slot " << i << " does not hold what was put there");
	for(int i = 0; i < 8; ++i) CHECK(std::fabs(place[i] - hits / 8.) <= 8 * std::sqrt(hits / 8.) + 8, place[i] << " of " << hits << " replacements are in eighth " << i << " of the slots");
	c.nontrivial(hits > 0);
}
template<bool EXPO> void reservoir_large_any(Ctx& c){ if(c.g.flip()) reservoir_large<40001, EXPO>(c); else reservoir_large<70003, EXPO>(c); }

// R02: after n elements every subset of N elements is equally likely
template<unsigned N> void uniform_subsets(Ctx& c){
	Gen& g = c.g; rs_style = 0; rs_rng.reseed(g.seed());
	unsigned extra = 1 + (unsigned)g.below(N <= 2 ? 6 : 4); unsigned n = N + extra; bool by_index = g.flip();
	std::vector<int> subset_id(1u << n, -1); int subsets = 0;
	for(unsigned m = 0; m < (1u << n); ++m) if(__builtin_popcount(m) == (int)N) subset_id[m] = subsets++;
	u64 trials = (u64)subsets * 2000 + 200000;
	std::vector<double> obs(subsets), expect(subsets, (double)trials / subsets);
	SAY(c, "reservoir of " << N << " after " << n << " elements, " << trials << " trials over " << subsets << " subsets");
	for(u64 t = 0; t < trials; ++t){
		ReservoirSampling<int, N, RsFunc> r;
		for(unsigned i = 0; i < n; ++i){ if(by_index){ int k = r.sample_index(); if(k >= 0) r[k] = (int)i; } else r.add((int)i); }
		unsigned m = 0; for(unsigned i = 0; i < N; ++i) m |= 1u << r[i];
		CHECK(__builtin_popcount(m) == (int)N, "the sample holds an element twice");
		obs[subset_id[m]]++;
	}
	double p = chi2_test(obs, expect);
	CHECK(p > P_MIN, "subsets of " << N << " among " << n << " elements are not equally likely (p=" << p << "), counts " << show_list(obs.begin(), obs.end()) << " expected " << expect[0]);
	c.nontrivial();
}
// R02: inclusion of each position in longer streams
template<unsigned N> void uniform_positions(Ctx& c){
	Gen& g = c.g; rs_style = 0; rs_rng.reseed(g.seed());
	unsigned n = N + 1 + (unsigned)g.below(20 * N);
	u64 trials = 8000000 / n + 500;
	std::vector<double> obs(n), expect(n, (double)trials * N / n), slot(N), eslot(N);
	for(u64 t = 0; t < trials; ++t){
		ReservoirSampling<unsigned, N, RsFunc> r;
		for(unsigned i = 0; i < n; ++i){ int k = r.add(i); if(i >= N && k >= 0) slot[k]++; }
		for(unsigned i = 0; i < N; ++i) obs[r[i]]++;
	}
	// given n, inclusions are negatively correlated, which only makes the statistic smaller
	SAY(c, "reservoir of " << N << " after " << n << " elements, " << trials << " trials");
	double p = chi2_test(obs, expect);
	CHECK(p > P_MIN, "elements of a stream of " << n << " are not equally likely in a reservoir of " << N << " (p=" << p << ")");
	double total = 0, rate = 0; for(double v : slot) total += v; for(unsigned i = N; i < n; ++i) rate += (double)N / (i + 1);
	double pb = 2 * std::exp(-std::pow(total - trials * rate, 2) / (2 * (trials * rate + std::fabs(total - trials * rate) / 3)));
	CHECK(total == trials * rate || pb > P_MIN, total << " acceptances where " << trials * rate << " are expected");
	for(unsigned i = 0; i < N; ++i) eslot[i] = total / N;
	double ps = chi2_test(slot, eslot);
	CHECK(N == 1 || ps > P_MIN, "slots are not replaced equally often (p=" << ps << ") " << show_list(slot.begin(), slot.end()));
	c.nontrivial();
}
// R02: long streams, counted in windows of the stream
template<unsigned N> void uniform_long(Ctx& c){
	Gen& g = c.g; rs_style = 0; rs_rng.reseed(g.seed());
	u64 n = 70000 + g.below(c.slow ? 20000000 : 1500000); int reps = (int)std::max<u64>(1, 3000000 / n);
	std::vector<double> obs, expect; std::vector<double> pos(8), epos(8);
	for(u64 a = 64; a < n; a *= 2){ obs.push_back(0); double e = 0; u64 b = std::min<u64>(a * 2, n); for(u64 i = std::max<u64>(a, N); i < b; ++i) e += (double)N / (i + 1); expect.push_back(e * reps); }
	SAY(c, "reservoir of " << N << " over " << n << " elements, " << reps << " times");
	for(int k = 0; k < reps; ++k){
		Boxed<ReservoirSampling<unsigned, N, RsFunc>> r(0xaa);
		for(u64 i = 0; i < n; ++i){ int idx = r->add((unsigned)i); if(i >= N && i >= 64 && idx >= 0) obs[(63 - __builtin_clzll(i)) - 6]++; }
		CHECK(r->count() == n, "count " << r->count() << " after " << n << " elements");
		for(unsigned i = 0; i < N; ++i){ CHECK((*r)[i] < n, "the sample holds an element that never came"); pos[(u64)(*r)[i] * 8 / n]++; }
	}
	for(size_t i = 0; i < obs.size(); ++i){
		double d = std::fabs(obs[i] - expect[i]), p = 2 * std::exp(-d * d / (2 * (expect[i] + d / 3)));
		CHECK(d == 0 || p > P_MIN, obs[i] << " replacements between elements " << (64u << i) << " and " << (64u << i) * 2 << " where " << expect[i] << " are expected");
	}
	for(int i = 0; i < 8; ++i){ double p = binom_tail(pos[i], (double)N * reps, 1 / 8.); CHECK(p > P_MIN, "octile " << i << " of the stream has " << pos[i] << " of " << N * reps << " sampled elements"); }
	c.nontrivial();
}

// R03: exponential reservoirs
template<unsigned N> void expo_survival(Ctx& c){
	Gen& g = c.g; rs_style = 0; rs_rng.reseed(g.seed());
	unsigned n = 1 + (unsigned)g.below(6 * N + 10);
	u64 trials = 2000000 / (n + N) + 2000; bool by_index = g.flip();
	std::vector<double> age(n), level(N + 1);
	for(u64 t = 0; t < trials; ++t){
		ExponentialReservoirSampling<unsigned, N, RsFunc> r;
		for(unsigned i = 0; i < n; ++i){ if(by_index) r[r.sample_index()] = i; else r.add(i); }
		for(unsigned i = 0; i < r.count(); ++i){ unsigned v = r[i]; CHECK(v < n, "an element that was never added"); age[n - 1 - v]++; }
		level[r.count()]++;
	}
	SAY(c, "exponential reservoir of " << N << " after " << n << " elements, " << trials << " trials");
	for(unsigned m = 0; m < n; ++m){
		double s = std::pow(1 - 1.0 / N, m);
		double p = binom_tail(age[m], trials, s);
		CHECK(age[m] == trials * s || p > P_MIN, "an element followed by " << m << " others survived " << age[m] << " times of " << trials << ", " << s * trials << " expected");
	}
	// distribution of the number of used slots
	std::vector<double> d(N + 1); d[0] = 1;
	for(unsigned i = 0; i < n; ++i){ std::vector<double> q(N + 1); for(unsigned k = 0; k <= N; ++k){ q[k] += d[k] * k / N; if(k < N) q[k + 1] += d[k] * (N - k) / N; } d = q; }
	for(auto& v : d) v *= trials;
	double p = chi2_test(level, d);
	CHECK(p > P_MIN, "the number of used slots after " << n << " elements is not distributed as expected (p=" << p << ") " << show_list(level.begin(), level.end()) << " expected " << show_list(d.begin(), d.end()));
	c.nontrivial(n > 1);
}
template<unsigned N> void expo_long(Ctx& c){
	Gen& g = c.g; rs_style = 0; rs_rng.reseed(g.seed());
	u64 n = 70000 + g.below(400000);
	Boxed<ExponentialReservoirSampling<unsigned, N, RsFunc>> r(0x55);
	std::vector<double> slot(N); double ages = 0, samples = 0;
	for(u64 i = 0; i < n; ++i){
		int k = r->add((unsigned)i); CHECK(k >= 0 && k < (int)N, "index " << k);
		if(r->count() == N) slot[k]++;
		if(i > 60 * N && i % (60 * N) == 0){ for(unsigned j = 0; j < N; ++j){ ages += i - (*r)[j]; ++samples; } }
	}
	CHECK(r->count() == N, "not full after " << n << " elements");
	double tot = 0; for(double v : slot) tot += v;
	std::vector<double> e(N, tot / N);
	double p = chi2_test(slot, e);
	CHECK(N == 1 || p > P_MIN, "slots are not replaced equally often (p=" << p << ")");
	// mean age in the steady state is N - 1, geometric
	double mean = ages / samples, sd = std::sqrt((double)N * (N - 1) / samples * 4);
	CHECK(std::fabs(mean - (N - 1.0)) <= 9 * sd + 1e-9, "mean age " << mean << " where " << N - 1 << " is expected");
	SAY(c, "exponential reservoir of " << N << " over " << n << " elements, mean age " << mean);
	c.nontrivial();
}
#endif
