#ifndef H_HT_HPP
#define H_HT_HPP
#include "common.hpp"
#include "hoeffding_tree.hpp"
struct HtFunc { static double log(double x){ return std::log(x); } static double log2(double x){ return std::log2(x); } static bool isnan(double x){ return std::isnan(x); } static double sqrt(double x){ return std::sqrt(x); } };

// A Hoeffding tree as documented, with exact bookkeeping. It stops (ambiguous) whenever rounding could decide.
struct HtModel {
	int F, L; std::vector<int> bins; double delta; bool ambiguous = false;
	struct N { bool leaf = true; int feature = -1; double value = 0; int child[2] = {-1, -1}; std::vector<double> lo, hi, limits; std::vector<std::vector<i64>> cnt; std::vector<long double> sum; i64 n = 0; bool exact = true; };
	std::vector<N> nodes; int limits_n = 0;
	HtModel(int f, int l, std::vector<int> b, double d) : F(f), L(l), bins(b), delta(d) {
		for(int x : bins) limits_n += x - 1;
		nodes.push_back(fresh()); nodes[0].lo.assign(F, INFINITY); nodes[0].hi.assign(F, -INFINITY); nodes[0].limits.assign(limits_n, 0);
	}
	N fresh() const { N n; n.cnt.assign(L, {}); int s = 0; for(int x : bins) s += x; for(auto& c : n.cnt) c.assign(s, 0); n.sum.assign(limits_n, 0); return n; }
	static bool close(double a, double b){ return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
	int find(std::vector<double> const& x){
		int i = 0;
		while(!nodes[i].leaf){ N& n = nodes[i]; double v = x[n.feature]; if(close(v, n.value) && !(n.exact && v == n.value)) ambiguous = true; i = n.child[v <= n.value ? 0 : 1]; }
		return i;
	}
	std::vector<long double> gains(N const& n) const {
		std::vector<long double> out; long double total = (long double)n.n;
		auto H = [&](std::vector<long double> const& c){ long double s = 0, h = 0; for(auto v : c) s += v; if(s <= 0) return (long double)0; for(auto v : c) if(v > 0) h -= v / s * std::log2(v / s); return h; };
		int base = 0;
		for(int f = 0; f < F; ++f){
			std::vector<long double> all(L), left(L); for(int l = 0; l < L; ++l) for(int b = 0; b < bins[f]; ++b) all[l] += n.cnt[l][base + b];
			for(int b = 0; b + 1 < bins[f]; ++b){
				long double nl = 0; std::vector<long double> right(L);
				for(int l = 0; l < L; ++l){ left[l] += n.cnt[l][base + b]; right[l] = all[l] - left[l]; nl += left[l]; }
				out.push_back(total > 0 ? H(all) - (nl / total) * H(left) - ((total - nl) / total) * H(right) : 0);
			}
			base += bins[f];
		}
		return out;
	}
	int feature_of(int limit) const { for(int f = 0; f < F; ++f){ if(limit < bins[f] - 1) return f; limit -= bins[f] - 1; } return -1; }
	void count(N& n, std::vector<double> const& x, int label){
		++n.n; int base = 0, lim = 0;
		for(int f = 0; f < F; ++f){
			n.lo[f] = std::min(n.lo[f], x[f]); n.hi[f] = std::max(n.hi[f], x[f]);
			int b = 0; for(; b + 1 < bins[f]; ++b){ double v = n.limits[lim + b]; if(close(v, x[f]) && !(n.exact && v == x[f])) ambiguous = true; if(x[f] <= v) break; }
			n.cnt[label][base + b]++; base += bins[f]; lim += bins[f] - 1;
		}
		auto g = gains(n); for(int i = 0; i < limits_n; ++i) n.sum[i] += g[i];
	}
	// -1 no split, otherwise the limit to split on
	int wants(N const& n){
		std::vector<long double> v; for(auto s : n.sum) v.push_back(s / n.n);
		if(v.size() == 1) v.push_back(0);
		int best = 0; for(size_t i = 1; i < v.size(); ++i) if(v[i] > v[best]) best = (int)i;
		long double second = -INFINITY; for(size_t i = 0; i < v.size(); ++i) if((int)i != best) second = std::max(second, v[i]);
		long double d = v[best] - second, eps = 4 * std::log(1 / (long double)delta) / (2 * (long double)n.n);
		if(best >= limits_n){ if(std::fabs((double)d) > 1e-7) ambiguous = true; return -1; }
		if(std::fabs((double)(d * d - eps)) <= 1e-7 * (double)(1e-3L + eps + d * d)) ambiguous = true;
		if(std::fabs((double)v[best]) < 1e-9 && d * d > eps) ambiguous = true;
		return d * d > eps && v[best] > 0 ? best : -1;
	}
	void split(int i, int limit){
		int f = feature_of(limit); double value = nodes[i].limits[limit];
		for(int s = 0; s < 2; ++s){
			N c = fresh(); c.lo = nodes[i].lo; c.hi = nodes[i].hi; (s ? c.lo : c.hi)[f] = value; c.exact = nodes[i].exact;
			for(int k = 0; k < F; ++k){ double w = c.hi[k] - c.lo[k], st = w / bins[k]; bool pow2 = (bins[k] & (bins[k] - 1)) == 0; if(!pow2 && st != std::floor(st)) c.exact = false; for(int b = 1; b < bins[k]; ++b) c.limits.push_back(c.lo[k] + b * st); if(!(std::fabs(w) < 1e6)) ambiguous = true; }
			nodes[i].child[s] = (int)nodes.size(); nodes.push_back(c);
		}
		nodes[i].leaf = false; nodes[i].feature = f; nodes[i].value = value;
	}
	int leaves() const { int k = 0; for(auto& n : nodes) k += n.leaf; return k; }
	int depth(int i = 0) const { return nodes[i].leaf ? 0 : 1 + std::max(depth(nodes[i].child[0]), depth(nodes[i].child[1])); }
};

template<class T, int F, int L, int MAX> struct HtRun {
	typedef HoeffdingTree<T, F, L, MAX, HtFunc> Tree;
	struct Data { int style, noise; std::vector<double> cut, scale; std::vector<int> sense; };
	static std::vector<double> point(Gen& g, Rng* r, int style){
		std::vector<double> x(F); auto below = [&](u64 n){ return r ? r->below(n) : g.below(n); };
		for(auto& v : x){
			if(std::numeric_limits<T>::is_integer || style == 0) v = (double)below(style == 3 ? 4 : 17) - (style == 2 ? 8 : 0);
			else if(style == 1) v = (double)below(129) / 16.0 - 4;
			else v = (r ? r->unit() : g.unit()) * 8 - (style == 2 ? 6 : 0);
			v = (double)(T)v;
		}
		return x;
	}
	static int label_of(std::vector<double> const& x, std::vector<double> const& cut, int concept_){
		int k = 0;
		for(int f = 0; f < F; ++f) if((concept_ >> f & 1) || F == 1) k = k * 2 + (x[f] > cut[f]);
		if(concept_ & 256) k += (int)std::floor(std::fabs(x[0]) / 2);
		return k % L;
	}
	static std::vector<int> gen_bins(Gen& g){ std::vector<int> b(F); int total = 0; for(auto& v : b){ static const int o[] = {2, 4, 3, 8, 1, 5}; v = o[g.below(6)]; total += v - 1; } if(total < 1) b[g.below(F)] = 2; return b; }
	static void compare(Ctx& c, Tree& t, HtModel& m, std::vector<double> const& q, size_t n){
		T* x = (T*)malloc(sizeof(T) * F); for(int f = 0; f < F; ++f) x[f] = (T)q[f]; double* sc = (double*)malloc(sizeof(double) * L); for(int l = 0; l < L; ++l) sc[l] = 99;
		int leaf = m.find(q); if(m.ambiguous){ free(x); free(sc); return; }
		int a = t.predict(x, sc), b = t.predict(x); i64 tot = 0; std::vector<i64> k(L);
		for(int l = 0; l < L; ++l){ for(int i = 0; i < m.bins[0]; ++i) k[l] += m.nodes[leaf].cnt[l][i]; tot += k[l]; }
		int best = 0;
		for(int l = 0; l < L; ++l){ double e = tot ? (double)k[l] / tot : 1.0 / L; CHECK(std::fabs(sc[l] - e) < 1e-9, "after " << n << " points label " << l << " of " << show_list(q.begin(), q.end()) << " scores " << sc[l] << "; its leaf has " << k[l] << " of " << tot << " points with that label (" << m.leaves() << " leaves)"); if(k[l] > k[best]) best = l; }
		CHECK(a == b, "the label depends on whether scores are asked for"); CHECK(a >= 0 && a < L && k[a] == k[best], "label " << a << " predicted, the majority of its leaf is " << best);
		free(x); free(sc);
	}
	// H02 and, with little memory, H03
	static void model(Ctx& c, bool memory, int const* fixed_bins = nullptr){
		Gen& g = c.g; std::vector<int> bins = fixed_bins ? std::vector<int>(fixed_bins, fixed_bins + F) : gen_bins(g); static const double deltas[] = {0.9, 0.5, 0.99, 0.1, 0.01, 1e-6};
		double delta = deltas[g.below(6)]; int style = (int)g.below(4), concept_ = 1 + (int)g.below((1 << F) - 1) + 256 * (int)g.below(2); double noise = g.below(3) * 0.1;
		HtModel m(F, L, bins, delta); std::vector<double> cut(F); for(auto& v : cut) v = std::numeric_limits<T>::is_integer || style < 2 ? (double)g.below(5) : 1 + 5 * g.unit();
		if(memory){ // the root has to fit
			int sum = 0; for(int b : bins) sum += b; while((int)sizeof(typename Tree::Node) + 4 + 16 * (sum - F) + 4 * sum * L > MAX){ auto it = std::max_element(bins.begin(), bins.end()); if(*it <= 2) throw pbt::Discard(); --*it; --sum; }
			m = HtModel(F, L, bins, delta);
		}
		unsigned char fill = gen_fill(g); int* b1 = (int*)malloc(sizeof(int) * F); std::copy(bins.begin(), bins.end(), b1);
		Boxed<Tree> t(fill, delta, b1), other((unsigned char)~fill, delta, b1); free(b1);
		if(g.below(4)){ std::vector<double> lim; for(int f = 0; f < F; ++f){ std::vector<double> v; for(int k = 0; k + 1 < bins[f]; ++k) v.push_back(std::numeric_limits<T>::is_integer || style < 2 ? (double)g.below(8) - (style == 2 ? 4 : 0) : 7 * g.unit()); std::sort(v.begin(), v.end()); lim.insert(lim.end(), v.begin(), v.end()); } m.nodes[0].limits = lim; t->get_root()->set_limits(lim.data()); }
		size_t n = g.length(g.below(6) == 5 ? 1500 : 150); bool bulk = n > 150; Rng r(g.seed()); Rng* rp = bulk ? &r : nullptr;
		SAY(c, "HoeffdingTree<" << (std::numeric_limits<T>::is_integer ? "int" : "float") << sizeof(T) * 8 << "," << F << " features," << L << " labels," << MAX << " bytes> bins " << show_list(bins.begin(), bins.end()) << " delta " << delta << ", limits " << show_list(m.nodes[0].limits.begin(), m.nodes[0].limits.end()) << ":");
		bool full = false; size_t every = n > 300 ? 37 : 3; size_t seen = 0;
		for(size_t i = 0; i < n; ++i){
			std::vector<double> x = point(g, rp, style); int y = label_of(x, cut, concept_); if(noise > 0 && r.prob(noise)) y = (int)r.below(L);
			int leaf = m.find(x); if(m.ambiguous) break;
			m.count(m.nodes[leaf], x, y); int want = m.wants(m.nodes[leaf]); if(m.ambiguous) break;
			T* px = (T*)malloc(sizeof(T) * F); for(int f = 0; f < F; ++f) px[f] = (T)x[f];
			bool ok = t->train(px, y);
			for(int f = 0; f < F; ++f) CHECK(px[f] == (T)x[f], "train changed its features");
			if(i % 3 == 0) other->train(px, (y + 1) % L);
			free(px); ++seen;
			if(!bulk) SAY(c, " " << show_list(x.begin(), x.end()) << "->" << y << (want >= 0 ? ok ? " split" : " full" : ""));
			if(want < 0) CHECK(ok, "train failed although nothing had to be split, after " << i + 1 << " points");
			else if(ok){
				CHECK(!full, "a leaf was split after the memory was full");
				m.split(leaf, want); int ch = m.find(x); if(m.ambiguous) break; m.count(m.nodes[ch], x, y);
			}else{
				int sum = 0; for(int b : bins) sum += b; double block = 4 + 16 * (sum - F) + 4.0 * sum * L, used = (double)m.nodes.size() * sizeof(typename Tree::Node) + (double)m.leaves() * block;
				// With room for two whole nodes, counters included, a split is not a question of memory
				CHECK(used + 2 * (sizeof(typename Tree::Node) + block) > MAX, "a split failed with " << m.nodes.size() << " nodes, which need " << used << " of " << MAX << " bytes");
				full = true;
			}
			if(m.ambiguous) break;
			CHECK(t->get_root()->is_leaf() == m.nodes[0].leaf, "the root " << (m.nodes[0].leaf ? "was" : "was not") << " split");
			if(i % every == 0 || i + 1 == n || want >= 0){ compare(c, *t, m, x, i + 1); for(int k = 0; k < 4 && !m.ambiguous; ++k) compare(c, *t, m, point(g, bulk || n > 60 ? &r : nullptr, style), i + 1); if(m.ambiguous) break; }
		}
		c.label_if(m.nodes.size() > 1, "split"); c.label_if(m.depth() > 2, "depth above two"); c.label_if(m.ambiguous, "stopped: rounding would decide"); c.label_if(full, "memory full"); c.label_if(seen > 100, "more than 100 points");
		c.nontrivial(memory ? full : m.nodes.size() > 1);
	}
	// H01: leaves that see more points than small integers hold, one limit at a time far from even
	static void gain_many(Ctx& c){
		Gen& g = c.g; std::vector<int> bins = gen_bins(g); for(auto& b : bins) b = std::min(b, 3); HtModel m(F, L, bins, 1e-300); unsigned char fill = gen_fill(g); Boxed<Tree> t(fill, 1e-300, bins.data());
		if(m.limits_n == 0) throw pbt::Discard();
		std::vector<double> lim; for(int f = 0; f < F; ++f) for(int k = 0; k + 1 < bins[f]; ++k) lim.push_back(2 + 2 * k);
		m.nodes[0].limits = lim; t->get_root()->set_limits(lim.data()); Rng r(g.seed());
		size_t n = 33000 + g.below(g.flip() ? 3000 : 60000); double common = (double)g.below(101) / 100, purity = (double)g.below(101) / 100; auto& cnt = m.nodes[0].cnt;
		SAY(c, n << " points, bins " << show_list(bins.begin(), bins.end()) << ", " << common << " of them left of every limit, of which " << purity << " with label 0");
		T* px = (T*)malloc(sizeof(T) * F);
		for(size_t i = 0; i < n; ++i){
			bool left = r.prob(common); int base = 0, y = left ? r.prob(purity) ? 0 : (int)r.below(L) : (int)r.below(L);
			for(int f = 0; f < F; ++f){ int b = left ? 0 : (int)r.below(bins[f]); px[f] = (T)(1 + 2 * b); cnt[y][base + b]++; base += bins[f]; }
			++m.nodes[0].n; CHECK(t->train(px, y), "train failed");
		}
		free(px); CHECK(t->get_root()->is_leaf(), "the root was split against the Hoeffding bound");
		std::vector<double> out(lim.size()); t->get_root()->compute_information_gain(out.data()); auto e = m.gains(m.nodes[0]);
		for(size_t k = 0; k < lim.size(); ++k) CHECK(std::fabs(out[k] - (double)e[k]) <= 1e-9, "after " << n << " points the information gain of limit " << k << " is " << out[k] << ", by definition " << (double)e[k]);
		std::vector<double> q(F, 1.0); compare(c, *t, m, q, n);
		c.nontrivial();
	}
	// H01
	static void gain(Ctx& c){
		Gen& g = c.g; std::vector<int> bins = gen_bins(g); int style = (int)g.below(4);
		HtModel m(F, L, bins, 1e-300); unsigned char fill = gen_fill(g); Boxed<Tree> t(fill, 1e-300, bins.data());
		std::vector<double> lim; for(int f = 0; f < F; ++f){ std::vector<double> v; for(int k = 0; k + 1 < bins[f]; ++k) v.push_back(std::numeric_limits<T>::is_integer || style < 2 ? (double)g.below(12) - (style == 2 ? 6 : 0) : 8 * g.unit()); std::sort(v.begin(), v.end()); lim.insert(lim.end(), v.begin(), v.end()); }
		m.nodes[0].limits = lim; { double* l2 = (double*)malloc(sizeof(double) * lim.size()); std::copy(lim.begin(), lim.end(), l2); t->get_root()->set_limits(l2); free(l2); }
		size_t n = 1 + g.length(200); Rng r(g.seed()); SAY(c, n << " points, bins " << show_list(bins.begin(), bins.end()) << " limits " << show_list(lim.begin(), lim.end()) << ":");
		int concept_ = 1 + (int)g.below((1 << F) - 1); std::vector<double> cut(F, 3.0); bool positive = false;
		for(size_t i = 0; i < n; ++i){
			std::vector<double> x = point(g, n > 60 ? &r : nullptr, style); int y = g.below(3) ? label_of(x, cut, concept_) : (int)g.below(L);
			if(n <= 40) SAY(c, " " << show_list(x.begin(), x.end()) << "->" << y);
			T px[F]; for(int f = 0; f < F; ++f) px[f] = (T)x[f];
			m.count(m.nodes[0], x, y); CHECK(t->train(px, y), "train failed"); CHECK(t->get_root()->is_leaf(), "the root was split against the Hoeffding bound");
			if(m.ambiguous) break;
			if(i % 4 == 0 || i + 1 == n){
				double* out = (double*)malloc(sizeof(double) * lim.size()); t->get_root()->compute_information_gain(out); auto e = m.gains(m.nodes[0]);
				for(size_t k = 0; k < lim.size(); ++k){ CHECK(std::fabs(out[k] - (double)e[k]) <= 1e-9, "after " << i + 1 << " points the information gain of limit " << k << " (feature " << m.feature_of((int)k) << " at " << lim[k] << ") is " << out[k] << ", by definition " << (double)e[k]); positive |= e[k] > 1e-6; }
				free(out);
			}
		}
		c.nontrivial(positive);
	}
};
template<int WHAT> void ht_any(Ctx& c){
#define HT(T, F, L, MAX) (WHAT == 1 ? HtRun<T, F, L, MAX>::gain(c) : HtRun<T, F, L, MAX>::model(c, false))
	switch(c.g.below(8)){
		case 0: return HT(int, 1, 2, 20000); case 1: return HT(double, 2, 2, 40000); case 2: return HT(float, 3, 3, 60000); case 3: return HT(double, 2, 4, 40000);
		case 4: return HT(short, 2, 2, 30000); case 5: return HT(double, 5, 3, 100000); case 6: return HT(int, 3, 2, 50001); default: return HT(double, 1, 2, 60000);
	}
}
static void ht_many(Ctx& c){
	switch(c.g.below(4)){ case 0: return HtRun<int, 1, 2, 20000>::gain_many(c); case 1: return HtRun<double, 2, 3, 40000>::gain_many(c); case 2: return HtRun<float, 3, 2, 60000>::gain_many(c); default: return HtRun<short, 2, 5, 60000>::gain_many(c); }
}
// Trees whose memory is exactly that of NODES nodes of which LEAVES need counters (or a byte off)
template<class T, int F, int L, int BINS, int NODES, int LEAVES, int OFF> void ht_exact(Ctx& c){
	static const int bytes = NODES * (int)sizeof(typename HoeffdingTree<T, F, L, 1000, HtFunc>::Node) + LEAVES * (4 + 16 * F * (BINS - 1) + 4 * F * BINS * L) + OFF;
	int bins[F]; for(int& b : bins) b = BINS; HtRun<T, F, L, bytes>::model(c, true, bins);
}
static void ht_exact_any(Ctx& c){
	switch(c.g.below(12)){
		case 0: return ht_exact<int, 1, 2, 2, 1, 1, 0>(c); case 1: return ht_exact<double, 2, 2, 2, 3, 3, 0>(c); case 2: return ht_exact<double, 1, 2, 4, 3, 3, 0>(c); case 3: return ht_exact<float, 3, 3, 2, 5, 4, 0>(c);
		case 4: return ht_exact<int, 2, 2, 3, 5, 4, 0>(c); case 5: return ht_exact<int, 1, 2, 2, 5, 4, -1>(c); case 6: return ht_exact<double, 2, 2, 2, 3, 3, -1>(c); case 7: return ht_exact<double, 1, 2, 3, 7, 5, 0>(c);
		case 8: return ht_exact<short, 2, 3, 2, 3, 3, 1>(c); case 9: return ht_exact<double, 1, 3, 2, 3, 2, 0>(c); case 10: return ht_exact<double, 2, 2, 4, 9, 6, 0>(c); default: return ht_exact<int, 1, 2, 8, 3, 3, 0>(c);
	}
}
static void ht_memory(Ctx& c){
	switch(c.g.below(8)){
		case 0: return HtRun<int, 1, 2, 300>::model(c, true); case 1: return HtRun<double, 2, 2, 900>::model(c, true); case 2: return HtRun<float, 3, 3, 2003>::model(c, true); case 3: return HtRun<double, 2, 4, 1501>::model(c, true);
		case 4: return HtRun<short, 2, 2, 1200>::model(c, true); case 5: return HtRun<double, 5, 3, 4000>::model(c, true); case 6: return HtRun<double, 1, 2, 700>::model(c, true); default: return HtRun<double, 2, 2, 2500>::model(c, true);
	}
}
#endif
