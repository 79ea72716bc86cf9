// X01: objects are values. A copy answers as the original would, and what happens to one of them never shows in the other.
#include "common.hpp"
#include "bloom_filter.hpp"
#include "chained_reservoir.hpp"
#include "cuckoo_filter.hpp"
#include "hoeffding_tree.hpp"
#include "ltc.hpp"
#include "mc_nn.hpp"
#include "metrics.hpp"
#include "mondrian.hpp"
#include "mondrian_coarse.hpp"
#include "mondrian_unbound.hpp"
#include "naive_bayes.hpp"
#include "perceptron.hpp"
#include "reservoir_sampling.hpp"
static Rng x_rng(1);
static std::vector<void*> x_blocks;
struct Arena { Arena(){ x_blocks.clear(); } ~Arena(){ for(void* p : x_blocks) free(p); x_blocks.clear(); } };
static const int XKEYS = 40; static unsigned x_table[4][XKEYS]; static unsigned char x_fp[XKEYS]; static unsigned x_hf[256];
struct XF {
	static double random(){ return x_rng.unit(); } static double rand_uniform(){ return x_rng.unit(); } static double log(double x){ return std::log(x); } static double log2(double x){ return std::log2(x); } static double exp(double x){ return std::exp(x); } static double sqrt(double x){ return std::sqrt(x); } static int floor(double x){ return (int)std::floor(x); } static bool isnan(double x){ return std::isnan(x); }
	static void* malloc(unsigned n){ void* p = std::malloc(n); memset(p, 0xa5, n); x_blocks.push_back(p); return p; }
	static double activation(double x){ return 1 / (1 + std::exp(-x)); } static double derivative(double y){ return y * (1 - y); }
	static unsigned char fingerprint(int const* e){ return x_fp[*e]; } static unsigned hash(int const* e){ return x_table[0][*e]; } static unsigned hash(unsigned char fp){ return x_hf[fp]; }
};
static double x_random(){ return x_rng.unit(); }
template<int K> static unsigned x_hash(int* e){ return x_table[K][*e]; }
typedef std::vector<double> Obs;

// How to build an object, to do one random step with it (the step is a function of the random numbers), and to look at all of it.
struct Bloom { typedef BloomFilter<int, 61, 3> S; static const char* name(){ return "BloomFilter<int,61,3>"; } unsigned (*h[3])(int*) = {x_hash<0>, x_hash<1>, x_hash<2>};
	Bloom(Gen& g){ Rng r(g.seed()); for(auto& t : x_table) for(auto& v : t) v = (unsigned)r.below(61); }
	S* make(void* at){ return new (at) S(h); }
	void step(S& s, Rng& r, u64, Obs&){ if(r.below(12) == 0) s.clear(); else s.add((int)r.below(XKEYS)); }
	void look(S& s, Obs& o){ for(int i = 0; i < XKEYS; ++i) o.push_back(s.lookup(i)); } };
struct Cuckoo { typedef CuckooFilter<int, 8, 4, 5, XF, x_random, 0> S; static const char* name(){ return "CuckooFilter<int,8,4,5>"; }
	Cuckoo(Gen& g){ Rng r(g.seed()); for(auto& v : x_table[0]) v = (unsigned)r.below(8); for(auto& v : x_fp) v = (unsigned char)(1 + r.below(31)); for(auto& v : x_hf) v = (unsigned)r.below(8); }
	S* make(void* at){ return new (at) S; }
	void step(S& s, Rng& r, u64, Obs& o){ int k = (int)r.below(XKEYS); u64 w = r.below(20); if(w == 0) s.clear(); else if(w < 6) s.remove(k); else o.push_back(s.add(k)); }
	void look(S& s, Obs& o){ for(int i = 0; i < XKEYS; ++i) o.push_back(s.lookup(i)); } };
struct Ltc { typedef LTC<double, double, 2> S; static const char* name(){ return "LTC<double,double,2>"; } Ltc(Gen&){}
	S* make(void* at){ return new (at) S; }
	void step(S& s, Rng& r, u64 at, Obs& o){ int out = s.add((double)at * 2 + r.unit(), (double)r.below(10)); o.push_back(out); if(out && r.below(4)){ double t, v; s.get_value_to_transmit(t, v); o.push_back(t); o.push_back(v); } }
	void look(S& s, Obs& o){} };
template<class R> struct Res { typedef R S; static const char* name(){ return "ReservoirSampling, ExponentialReservoirSampling"; } Res(Gen&){}
	S* make(void* at){ return new (at) S; }
	void step(S& s, Rng& r, u64 at, Obs& o){ o.push_back(s.add((int)r.below(1000))); }
	void look(S& s, Obs& o){ o.push_back(s.count()); for(unsigned i = 0; i < s.count() && i < 5; ++i) o.push_back(s[i]); } };
struct Chain { typedef ChainedReservoirSampling<int, 4, XF> S; static const char* name(){ return "ChainedReservoirSampling<int,4>"; } Chain(Gen&){}
	S* make(void* at){ return new (at) S; }
	void step(S& s, Rng& r, u64 at, Obs&){ s.add((int)at * 100 + (int)r.below(100), (unsigned)at); if(r.below(3) == 0) s.obsolete((unsigned)(at > 7 ? at - r.below(8) : 0)); }
	void look(S& s, Obs& o){} void ask(S& s, u64 at, Obs& o){ if(at >= 4) for(int i = 0; i < 4; ++i) o.push_back(s[i]); } };
template<class M> struct Met { typedef M S; static const char* name(){ return "ErrorMetrics, KappaMetrics"; } Met(Gen&){}
	S* make(void* at){ return new (at) S; }
	void step(S& s, Rng& r, u64, Obs&){ s.update((int)r.below(3), (int)r.below(3)); if(r.below(30) == 0) s.reset(); }
	void look(S& s, Obs& o){ o.push_back(s.score()); o.push_back(s.score(true)); } };
struct Bayes { typedef NaiveBayes<double, 3, 2, XF> S; static const char* name(){ return "NaiveBayes<double,3,2>"; } Bayes(Gen&){}
	S* make(void* at){ return new (at) S; }
	void step(S& s, Rng& r, u64, Obs&){ double x[2]; for(double& v : x) v = (double)r.below(9); s.train(x, (int)r.below(3)); }
	void look(S& s, Obs& o){ for(int i = 0; i < 3; ++i){ double x[2] = {i * 3.0, 8.0 - i}, p[3]; o.push_back(s.predict(x, p)); o.insert(o.end(), p, p + 3); } } };
struct Mlp { typedef MultiLayerPerceptron<3, 2000, XF> S; static const char* name(){ return "MultiLayerPerceptron<3,2000>"; } int size[3] = {2, 3, 2}; Mlp(Gen&){}
	S* make(void* at){ return new (at) S(size); }
	void step(S& s, Rng& r, u64, Obs& o){ double x[2] = {r.unit(), r.unit()}, y[2], want[2] = {(double)r.below(2), 0.5}; s.feed_forward(x, y); o.insert(o.end(), y, y + 2); if(r.below(8) == 0){ double w[4] = {r.unit(), r.unit(), 0.5, 0.25}; s.set_weights(2, 1, w); } else o.push_back(s.backpropagate(want)); }
	void look(S& s, Obs& o){ double* w = s.get_weights(); o.insert(o.end(), w, w + 17); } };
struct Ht { typedef HoeffdingTree<double, 2, 2, 6000, XF> S; static const char* name(){ return "HoeffdingTree<double,2,2,6000>"; } int bins[2]; double delta; Ht(Gen& g){ for(int& b : bins) b = 2 + (int)g.below(3); delta = g.flip() ? 0.9 : 0.3; }
	S* make(void* at){ return new (at) S(delta, bins); }
	void step(S& s, Rng& r, u64, Obs& o){ double x[2] = {(double)r.below(8), (double)r.below(8)}; o.push_back(s.train(x, x[0] > 3 || (x[1] > 5 && r.below(4)))); }
	void look(S& s, Obs& o){ for(int i = 0; i < 6; ++i){ double x[2] = {i * 1.5, 7.0 - i}, p[2]; o.push_back(s.predict(x, p)); o.insert(o.end(), p, p + 2); } } };
template<int METHOD> struct Nn { typedef MCNN<double, 2, 5, -1> S; static const char* name(){ return "MCNN<double,2,5,-1>"; } unsigned thr, method; Nn(Gen& g){ thr = 1 + (unsigned)g.below(4); method = (unsigned)g.below(3); }
	S* make(void* at){ return new (at) S(thr, method, 40); }
	void step(S& s, Rng& r, u64, Obs& o){ double x[2] = {(double)r.below(16), (double)r.below(16)}; o.push_back(s.train(x, (int)r.below(3))); }
	void look(S& s, Obs& o){ o.push_back(s.count_clusters()); for(int i = 0; i < 8; ++i){ double x[2] = {i * 2.0, (i * 7) % 16 + 0.5}; o.push_back(s.predict(x)); } } };
template<class F> struct Mo { typedef F S; double life; int trees, extend, trim; Mo(Gen& g){ static const double l[] = {0.1, 0.5, 1, 2}; life = l[g.below(4)]; trees = 1 + (int)g.below(3); extend = (int)g.below(6); trim = (int)g.below(4); }
	void step(S& s, Rng& r, u64, Obs& o){ double x[2] = {(double)r.below(16), (double)r.below(16) / 2}; o.push_back(s.train(x, (int)r.below(3))); }
	void look(S& s, Obs& o){ for(int i = 0; i < 5; ++i){ double x[2] = {i * 4.0, 8.0 - i}, p[3]; o.push_back(s.predict(x, p)); o.insert(o.end(), p, p + 3); } } };
struct MoB : Mo<MondrianForest<double, XF, 2, 2, 3, 4000>> { using Mo::Mo; static const char* name(){ return "MondrianForest<double,2,2,3,4000>"; } S* make(void* at){ return new (at) S(life, 0.5, 0.1); } };
struct MoU : Mo<MondrianForestUnbound<double, XF, 2, 3>> { using Mo::Mo; static const char* name(){ return "MondrianForestUnbound<double,2,3>"; } S* make(void* at){ return new (at) S(life, 0.5, 0.1, trees); } };
struct MoC : Mo<CoarseMondrianForest<double, XF, ErrorMetrics<false>, 2, 3, 4000>> { using Mo::Mo; static const char* name(){ return "CoarseMondrianForest<double,2,3,4000>"; }
	S* make(void* at){ return new (at) S(life, 0.5, 0.1, trees, COBBLE_MANAGEMENT, NODE_SIZE, 40, 0, false, 0, 0, 1.0, true, true, 1.0, 0.9, 0, extend, trim, 1.0); } };

template<class D> struct Obj { // an object in memory of its own, filled before and after its life
	typedef typename D::S S; void* raw; S* p = nullptr; u64 steps = 0; unsigned char fill;
	Obj(unsigned char f) : fill(f) { if(posix_memalign(&raw, 64, sizeof(S))) abort(); blank(); }
	void blank(){ fill_memory(raw, sizeof(S), fill); }
	void end(){ if(p){ p->~S(); p = nullptr; blank(); } }
	~Obj(){ end(); free(raw); }
	Obj(Obj const&) = delete;
};
template<class D, class = void> struct Asks { static void ask(D& d, typename D::S& s, u64, Obs& o){ d.look(s, o); } };
template<class D> struct Asks<D, decltype(&D::ask, void())> { static void ask(D& d, typename D::S& s, u64 at, Obs& o){ d.ask(s, at, o); } };
template<class D> static Obs act(D& d, Obj<D>& a, u64 seed){ Obs o; Rng r(seed); x_rng.reseed(seed ^ 0x5bd1e995); d.step(*a.p, r, ++a.steps, o); return o; }
template<class D> static Obs see(D& d, Obj<D>& a){ Obs o; Asks<D>::ask(d, *a.p, a.steps, o); return o; }
static bool same(Obs const& a, Obs const& b){ if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); ++i) if(!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) return false; return true; }
template<class S> static typename std::enable_if<std::is_copy_assignable<S>::value>::type assign(S& to, S const& from){ to = from; }
template<class S> static typename std::enable_if<!std::is_copy_assignable<S>::value>::type assign(S&, S const&){}
template<class D> static void value(Ctx& c){
	typedef typename D::S S; Gen& g = c.g; Arena arena; D d(g); u64 first = g.seed();
	Obj<D> a(gen_fill(g)), twin(gen_fill(g)), b(gen_fill(g)); x_rng.reseed(first); a.p = d.make(a.raw); x_rng.reseed(first); twin.p = d.make(twin.raw);
	size_t n = g.length(60); std::vector<u64> todo(n); for(auto& s : todo) s = g.seed(); for(u64 s : todo){ Obs x = act(d, a, s), y = act(d, twin, s); CHECK(same(x, y), "two objects with the same history differ"); }
	int how = (int)g.below(4); if(!std::is_copy_assignable<S>::value && (how == 1 || how == 2)) how = 0; size_t before = 0; SAY(c, D::name() << " after " << n << " steps, ");
	if(how == 0){ b.p = new (b.raw) S(*a.p); SAY(c, "copied"); }
	else if(how == 1){ before = g.length(40); x_rng.reseed(first + 1); b.p = d.make(b.raw); for(size_t i = 0; i < before; ++i) act(d, b, g.seed()); assign(*b.p, *a.p); SAY(c, "assigned to one with " << before << " steps"); }
	else if(how == 2){ b.p = new (b.raw) S(*a.p); S& self = *b.p; assign(*b.p, self); SAY(c, "copied, the copy assigned to itself"); }
	else { b.p = new (b.raw) S(std::move(*a.p)); SAY(c, "moved"); }
	b.steps = a.steps; bool copy = how == 3 || g.flip(); Obj<D>& kept = copy ? b : a; Obj<D>& other = copy ? a : b; SAY(c, copy ? ", the copy" : ", the original"); bool gone = how == 3 || g.below(3) == 0;
	if(gone){ other.end(); SAY(c, " outlives the other one"); } else SAY(c, " is kept while the other one changes");
	CHECK(same(see(d, kept), see(d, twin)), (copy ? "the copy" : "the original") << " differs from an object with the same history" << (gone ? " after the other one is gone" : ""));
	size_t m = 1 + g.length(60);
	for(size_t i = 0; i < m; ++i){
		u64 s = g.seed(); if(!gone){ size_t k = g.below(3); while(k--) act(d, other, g.seed()); if(g.below(20) == 19){ other.end(); gone = true; } }
		Obs x = act(d, kept, s), y = act(d, twin, s); CHECK(same(x, y), (copy ? "the copy" : "the original") << " answers differently in step " << i + 1 << ": " << show_list(x.begin(), x.end()) << " instead of " << show_list(y.begin(), y.end()));
		if(i % 4 == 3 || i + 1 == m){ x = see(d, kept), y = see(d, twin); CHECK(same(x, y), (copy ? "the copy" : "the original") << " shows after " << i + 1 << " steps " << show_list(x.begin(), x.end()) << " instead of " << show_list(y.begin(), y.end())); }
	}
	c.label(D::name()); c.nontrivial(n > 2 && m > 2);
}
static void filters(Ctx& c){ switch(c.g.below(6)){ case 0: return value<Bloom>(c); case 1: return value<Cuckoo>(c); case 2: return value<Ltc>(c); case 3: return value<Res<ReservoirSampling<int, 5, XF>>>(c); case 4: return value<Res<ExponentialReservoirSampling<int, 5, XF>>>(c); default: return value<Chain>(c); } }
static void learners(Ctx& c){ switch(c.g.below(6)){ case 0: return value<Met<ErrorMetrics<false>>>(c); case 1: return value<Met<KappaMetrics<3>>>(c); case 2: return value<Bayes>(c); case 3: return value<Mlp>(c); case 4: return value<Nn<0>>(c); default: return value<Ht>(c); } }
static void forests(Ctx& c){ switch(c.g.below(3)){ case 0: return value<MoB>(c); case 1: return value<MoU>(c); default: return value<MoC>(c); } }
FACET_FN(X01, filters, filters, 100000, 1000000, "more than two steps before and after the copy");
FACET_FN(X01, learners, learners, 100000, 1000000, "more than two steps before and after the copy");
FACET_FN(X01, forests, forests, 60000, 600000, "more than two steps before and after the copy");
