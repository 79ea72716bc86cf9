#ifndef H_CHAINED_HPP
#define H_CHAINED_HPP
#include "stats.hpp"
#include "chained_reservoir.hpp"
static Rng k_rng(1); static int k_style;
static u64 k_mallocs, k_bytes; static std::vector<void*> k_blocks;
static double k_random(){
	static const double edges[] = {0.0, 1.0, 0.5, 0.99999999999999989, 1e-300, 0.25};
	switch(k_style){
		case 0: return k_rng.unit();
		case 1: return edges[k_rng.below(6)];
		case 2: return 0.0;
		case 3: return 1.0;
		case 4: return 0.99999999999999989;
		case 5: return k_rng.prob(0.3) ? edges[k_rng.below(6)] : k_rng.unit();
		default: return (double)k_rng.below(32768) / 32767.0;
	}
}
struct KFunct {
	static double random(){ return k_random(); }
	static void* malloc(unsigned int size){ ++k_mallocs; k_bytes += size; void* p = std::malloc(size); memset(p, 0xa5, size); k_blocks.push_back(p); return p; }
};
struct KArena { KArena(){ k_mallocs = k_bytes = 0; k_blocks.clear(); } ~KArena(){ for(void* p : k_blocks) std::free(p); k_blocks.clear(); } };
struct KRec { unsigned id; char pad[13]; };
inline unsigned kid(unsigned const& e){ return e; }
inline unsigned kid(double const& e){ return (unsigned)e; }
inline unsigned kid(KRec const& e){ return e.id; }
inline void kmake(unsigned& e, unsigned i){ e = i; }
inline void kmake(double& e, unsigned i){ e = i + 0.25; }
inline void kmake(KRec& e, unsigned i){ memset(&e, i, sizeof e); e.id = i; }

enum { K_SLOT = 1, K_OBS = 2, K_MEM = 4 };
// Histories of additions and obsolescence. Element i (from 1) has a timestamp ts[i].
template<class E, unsigned N, int FLAGS> void chained_model(Ctx& c){
	Gen& g = c.g; KArena arena;
	k_style = (int)g.below(7); u64 seed = g.seed(); 
	typedef ChainedReservoirSampling<E, N, KFunct> R;
	unsigned char fill = gen_fill(g);
	Boxed<R> r(fill), twin((unsigned char)~fill); Rng twin_rng(0);
	k_rng.reseed(seed); twin_rng.reseed(seed);
	CHECK(k_mallocs == 0, "the constructor allocates");
	size_t ops = g.length(g.below(8) == 7 ? 1500 : 120);
	int mode = (int)g.below(4); // 0 rare obsolescence, 1 sliding window, 2 arbitrary, 3 none
	if(FLAGS & K_MEM) mode = 1;
	unsigned window = 1 + (unsigned)g.length(4 * N + 6); // live elements kept by mode 1
	unsigned every = 1 + (unsigned)g.below(g.below(3) == 2 ? 20 : 2);
	std::vector<unsigned> ts(1, 0); std::vector<unsigned> slot(N, 0);
	unsigned t = 0, horizon = 0, twin_horizon = 0; unsigned maxc = 0; int moved = 0, shifts = 0; int stamps = (int)g.below(4); // one by one, with gaps, with repeats, both
	SAY(c, "ChainedReservoirSampling<" << sizeof(E) << " bytes," << N << "> random style " << k_style << " mode " << mode << ":");
	auto at = [&](R* x, unsigned i) -> unsigned { R const* k = x; unsigned a = kid((*x)[i]), b = kid((*k)[i]); CHECK(a == b, "two reads of slot " << i << " differ"); return a; };
	for(size_t op = 0; op < ops; ++op){
		bool obs = false; unsigned upto = 0;
		if(ts.size() > 1 && mode == 1 && (ts.size() - 1) % every == 0 && ts.size() - 1 > window){ obs = true; upto = ts[ts.size() - 1 - window]; }
		else if(ts.size() > 1 && (mode == 2 ? g.below(4) == 3 : mode == 0 ? g.below(30) == 29 : false)){ obs = true; upto = g.below(3) == 2 ? ts.back() : (unsigned)g.below(ts.back() + 2); }
		unsigned have = (unsigned)std::min<size_t>(N, ts.size() - 1);
		if(obs && upto >= horizon){
			u64 before_mallocs = k_mallocs;
			SAY(c, " obsolete(" << upto << ")");
			r->obsolete(upto); horizon = std::max(horizon, upto);
			if(g.below(3) == 2){ twin->obsolete(upto); twin_horizon = upto; }
			if(FLAGS & K_OBS) CHECK(k_mallocs == before_mallocs, "obsolete allocates");
			unsigned live = 0; for(size_t i = ts.size() - 1; i >= 1 && ts[i] > upto; --i) ++live;
			for(unsigned i = 0; i < have; ++i){
				unsigned v = at(r.p, i);
				if(FLAGS & (K_OBS | K_SLOT)) CHECK(v >= 1 && v < ts.size(), "slot " << i << " holds element " << v << " that never came");
				if(FLAGS & K_OBS){
					if(ts[slot[i]] > upto) CHECK(v == slot[i], "slot " << i << " held live element " << slot[i] << " and now holds " << v);
					else if(v != slot[i]){
						CHECK(ts[v] > upto, "slot " << i << " was given element " << v << " (timestamp " << ts[v] << "), obsolete at " << upto);
						CHECK(v > slot[i], "slot " << i << ": element " << slot[i] << " was succeeded by an earlier one, " << v);
						++shifts;
					}
					if(live >= N && ts.size() - 1 >= N) CHECK(ts[v] > upto, "slot " << i << " still holds element " << v << ", obsolete at " << upto << ", although the last " << live << " elements are live");
				}
				if(v != slot[i]) ++moved;
				slot[i] = v;
			}
			continue;
		}
		// an addition
		t += stamps == 0 ? 1 : stamps == 1 ? 1 + (unsigned)g.below(4) : stamps == 2 ? (unsigned)g.below(2) : (unsigned)g.below(4); unsigned id = (unsigned)ts.size(); ts.push_back(t);
		E e; kmake(e, id);
		u64 before_mallocs = k_mallocs;
		if(id % 2) r->add(e, t); else r->add(e, t);
		if(FLAGS & K_MEM) CHECK(k_mallocs - before_mallocs <= N, "one addition made " << k_mallocs - before_mallocs << " allocations");
		std::swap(k_rng, twin_rng); u64 m = k_mallocs, bytes = k_bytes; twin->add(e, t); k_mallocs = m; k_bytes = bytes; std::swap(k_rng, twin_rng);
		SAY(c, " add(" << id << "@" << t << ")");
		unsigned changed = 0; have = (unsigned)std::min<size_t>(N, ts.size() - 1);
		for(unsigned i = 0; i < have; ++i){
			unsigned v = at(r.p, i);
			if(id <= N && i == id - 1){ if(FLAGS & K_SLOT) CHECK(v == id, "element " << id << " of an unfilled reservoir is not in slot " << i); slot[i] = v; continue; }
			if(v != slot[i]){ ++changed; if(FLAGS & K_SLOT) CHECK(v == id, "the addition of " << id << " changed slot " << i << " from " << slot[i] << " to " << v); }
			slot[i] = v;
		}
		if(FLAGS & K_SLOT) CHECK(changed <= 1 && (id > N || changed == 0), "the addition of element " << id << " changed " << changed << " slots");
		if(FLAGS & K_MEM){
			u64 bound = (u64)N * (window + every + 1);
			CHECK(k_mallocs <= bound, k_mallocs << " allocations after " << id << " additions with at most " << window + every << " live elements in a reservoir of " << N);
		}
		maxc += changed;
	}
	if((FLAGS & K_OBS) && ts.size() > 1){
		// declaring things obsolete early or late comes to the same
		unsigned upto = std::max(horizon, (unsigned)g.below(ts.back() + 1)); (void)twin_horizon;
		r->obsolete(upto); twin->obsolete(upto);
		unsigned have = (unsigned)std::min<size_t>(N, ts.size() - 1);
		for(unsigned i = 0; i < have; ++i){
			unsigned a = at(r.p, i), b = at(twin.p, i);
			bool alive = ts[a] > upto, blive = ts[b] > upto;
			CHECK(alive == blive && (!alive || a == b), "slot " << i << " holds " << a << " after obsolescence in several steps and " << b << " after a single one");
		}
	}
	c.label_if(shifts > 0, "an obsolete element was succeeded"); c.label_if(maxc > 0, "a replacement"); c.label_if(k_mallocs > 5, "more than five allocations");
	c.nontrivial(FLAGS & K_MEM ? ts.size() > window + 2 : FLAGS & K_OBS ? shifts > 0 : ts.size() > N + 1);
}
template<int FLAGS> void chained_any(Ctx& c){
	switch(c.g.below(8)){
		case 0: return chained_model<unsigned, 1, FLAGS>(c);
		case 1: return chained_model<unsigned, 2, FLAGS>(c);
		case 2: return chained_model<double, 3, FLAGS>(c);
		case 3: return chained_model<KRec, 5, FLAGS>(c);
		case 4: return chained_model<unsigned, 10, FLAGS>(c);
		case 5: return chained_model<KRec, 32, FLAGS>(c);
		case 6: return chained_model<unsigned, 100, FLAGS>(c);
		default: return chained_model<double, 7, FLAGS>(c);
	}
}
// K02: without obsolescence, a uniform sample
template<unsigned N> void chained_uniform(Ctx& c){
	Gen& g = c.g; k_style = 0; k_rng.reseed(g.seed());
	unsigned n = N + 1 + (unsigned)g.below(g.flip() ? 6 : 10 * N + 10); unsigned group = g.flip() ? 1 : 1 + (unsigned)g.below(g.flip() ? 4 : n), step = 1 + (unsigned)g.below(3); // elements that share a timestamp
	u64 trials = 1500000 / (n * (N / 4 + 1)) + 2000;
	std::vector<double> obs(n), expect(n, (double)trials * N / n), slot(N); std::vector<double> pair; double total = 0;
	for(u64 k = 0; k < trials; ++k){
		KArena arena; ChainedReservoirSampling<unsigned, N, KFunct> r;
		for(unsigned i = 0; i < n; ++i) r.add(i, (i / group) * step + 1);
		for(unsigned i = 0; i < N; ++i){ CHECK(r[i] < n, "slot " << i << " holds " << r[i]); obs[r[i]]++; if(r[i] >= N){ slot[i]++; ++total; } for(unsigned j = 0; j < i && N <= 10; ++j) CHECK(r[i] != r[j], "the sample holds an element twice"); }
	}
	SAY(c, "chained reservoir of " << N << " after " << n << " elements, " << trials << " trials, " << group << " elements for each timestamp");
	double p = chi2_test(obs, expect);
	CHECK(p > P_MIN, "elements of a stream of " << n << " are not equally likely in a chained reservoir of " << N << " (p=" << p << ") " << show_list(obs.begin(), obs.end()) << " expected " << expect[0]);
	std::vector<double> e(N, total / N); p = chi2_test(slot, e);
	CHECK(N == 1 || p > P_MIN, "slots are not replaced equally often (p=" << p << ") " << show_list(slot.begin(), slot.end()));
	c.nontrivial();
}
template<unsigned N> void chained_long(Ctx& c){
	Gen& g = c.g; k_style = 0; k_rng.reseed(g.seed()); KArena arena;
	u64 n = 70000 + g.below(60000);
	Boxed<ChainedReservoirSampling<unsigned, N, KFunct>> r(0xaa);
	std::vector<double> obs, expect; unsigned prev[N];
	for(u64 a = 64; a < n; a *= 2){ double e = 0; u64 b = std::min<u64>(a * 2, n); for(u64 i = std::max<u64>(a, N); i < b; ++i) e += (double)N / (i + 1); expect.push_back(e); obs.push_back(0); }
	bool sliding = g.flip();
	for(u64 i = 0; i < n; ++i){
		r->add((unsigned)i, (unsigned)i + 1);
		if(i >= N && i >= 64) for(unsigned j = 0; j < N; ++j) if((*r)[j] == i) obs[(63 - __builtin_clzll(i)) - 6]++;
		if(sliding && i > 2 * N){ r->obsolete((unsigned)(i - 2 * N)); if(i % 64 == 0) for(unsigned j = 0; j < N; ++j) CHECK((*r)[j] + 1 > i - 2 * N, "slot " << j << " holds an obsolete element"); }
	}
	(void)prev;
	if(!sliding) for(size_t i = 0; i < obs.size(); ++i){
		double d = std::fabs(obs[i] - expect[i]), p = 2 * std::exp(-d * d / (2 * (expect[i] + d / 3)));
		CHECK(d == 0 || p > P_MIN, obs[i] << " replacements between elements " << (64u << i) << " and " << (64u << i) * 2 << " where " << expect[i] << " are expected");
	}
	SAY(c, "chained reservoir of " << N << " over " << n << " elements" << (sliding ? ", sliding window" : "") << ", " << k_mallocs << " allocations");
	c.nontrivial();
}
// K03: distribution of what succeeds an obsolete element, against a simulation of the sampling scheme
template<unsigned N> void chained_succession(Ctx& c){
	Gen& g = c.g; k_style = 0; k_rng.reseed(g.seed()); Rng ref = g.fork();
	unsigned n = N + (unsigned)g.below(4 * N + 4), cut = n > N ? 1 + (unsigned)g.below(n - N) : 0; // elements 1..cut become obsolete, at least the last N stay
	if(g.below(4) == 3 && n > 1) cut = (unsigned)g.below(n); // or fewer than N stay
	u64 trials = 1000000 / (n * (N / 4 + 1)) + 3000;
	std::vector<double> a(n + 1), b(n + 1);
	for(u64 k = 0; k < trials; ++k){
		{ KArena arena; ChainedReservoirSampling<unsigned, N, KFunct> r;
		for(unsigned i = 1; i <= n; ++i) r.add(i, i);
		r.obsolete(cut);
		for(unsigned i = 0; i < N; ++i){ CHECK(r[i] >= 1 && r[i] <= n, "slot " << i << " holds " << r[i]); a[r[i]]++; } }
		std::vector<std::vector<unsigned>> chain(N); std::vector<unsigned> next(N);
		for(unsigned i = 1; i <= n; ++i){
			unsigned s = ~0u;
			if(i <= N) s = i - 1; else if(ref.below(i) < N) s = (unsigned)ref.below(N);
			if(s != ~0u){ chain[s].assign(1, i); next[s] = i + 1 + (unsigned)ref.below(N); }
			for(unsigned j = 0; j < N; ++j) if(j != s && !chain[j].empty() && next[j] == i){ chain[j].push_back(i); next[j] = i + 1 + (unsigned)ref.below(N); }
		}
		for(unsigned j = 0; j < N; ++j){ unsigned v = chain[j][0]; for(unsigned e : chain[j]) if(e > cut){ v = e; break; } b[v]++; }
	}
	SAY(c, "chained reservoir of " << N << ", " << n << " elements, the first " << cut << " obsolete, " << trials << " trials");
	double p = chi2_two(a, b);
	// slots of one reservoir are dependent: allow for a design effect of N
	std::vector<double> sa = a, sb = b; (void)sa; (void)sb;
	CHECK(p > P_MIN, "the elements sampled after obsolete(" << cut << ") of " << n << " are not distributed like those of the sampling scheme (p=" << p << ") " << show_list(a.begin(), a.end()) << " against " << show_list(b.begin(), b.end()));
	c.label_if(cut > 0, "obsolete elements"); c.nontrivial(cut > 0);
}
// K04: the memory of a long stream is bounded by its window, however long the stream
template<unsigned N> void chained_memory(Ctx& c){
	Gen& g = c.g; k_style = g.below(4) == 3 ? (int)g.below(7) : 0; k_rng.reseed(g.seed()); KArena arena;
	u64 n = 2000 + g.below(c.slow ? 60000 : 20000); unsigned window = 1 + (unsigned)g.below(g.flip() ? 3 : 4 * N + 6), every = 1 + (unsigned)g.below(g.flip() ? 1 : 12);
	Boxed<ChainedReservoirSampling<unsigned, N, KFunct>> r(0xaa);
	// A chain holds elements of the window only, when it is cut before each addition
	u64 bound = (u64)N * (window + every + 1);
	for(u64 i = 1; i <= n; ++i){
		if(i > window && i % every == 0) r->obsolete((unsigned)(i - window));
		r->add((unsigned)i, (unsigned)i);
		if(i % 256 == 0 || i == n) CHECK(k_mallocs <= bound, k_mallocs << " allocations after " << i << " additions with at most " << window + every << " live elements in a reservoir of " << N);
	}
	SAY(c, "chained reservoir of " << N << " over " << n << " elements, window " << window << ", cut every " << every << " additions, random style " << k_style << ": " << k_mallocs << " allocations");
	c.nontrivial();
}
static void chained_memory_any(Ctx& c){
	switch(c.g.below(5)){ case 0: return chained_memory<1>(c); case 1: return chained_memory<2>(c); case 2: return chained_memory<3>(c); case 3: return chained_memory<6>(c); default: return chained_memory<16>(c); }
}
// very long chains
static void chained_long_chain(Ctx& c){
	Gen& g = c.g; KArena arena; k_style = 2; // random() == 0: the element is always accepted and its successor is the next one... so only one slot
	Boxed<ChainedReservoirSampling<unsigned, 1, KFunct>> r(0xaa);
	// accept the first element, then never replace: the chain grows by one at each addition
	unsigned n = 10 + (unsigned)g.below(c.slow ? 6000 : 2500);
	struct Scope { ~Scope(){ k_style = 0; } } scope;
	r->add(1, 1);
	k_style = 4; // 0.999...: never replaces, successor one step ahead
	for(unsigned i = 2; i <= n; ++i){ r->add(i, i); CHECK((*r)[0] == 1 || i == 2, "element replaced"); }
	unsigned head = (*r)[0];
	unsigned cut = (unsigned)g.below(n);
	r->obsolete(cut);
	CHECK((*r)[0] == std::max(head, cut + 1), "after obsolete(" << cut << ") of " << n << " chained elements the slot holds " << (*r)[0]);
	k_style = 2; r->add(n + 1, n + 1); // replaced: the chain is cleared
	CHECK((*r)[0] == n + 1, "an accepted element is not in its slot");
	r->obsolete(n);
	CHECK((*r)[0] == n + 1, "a live element was dropped");
	SAY(c, "a chain of " << n << " elements, obsolete(" << cut << ")");
	c.nontrivial(n > 20);
}
#endif
