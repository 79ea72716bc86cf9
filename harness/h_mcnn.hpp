#ifndef H_MCNN_HPP
#define H_MCNN_HPP
#include "common.hpp"
#include "mc_nn.hpp"
// Micro-Cluster Nearest Neighbour as documented. It stops (ambiguous) whenever rounding could decide.
template<class T> struct McModel {
	struct C { bool on = false, exact = true; std::vector<long double> sum, sq; long double tsum = 0, t0 = 0; i64 n = 0, err = 0; int label = 0; };
	std::vector<C> c; int F; i64 thr; int method; double perf_thr; i64 now = -1; bool ambiguous = false; double scale = 1; size_t splits = 0, evicted = 0, cleaned = 0, refused = 0, errors = 0;
	McModel(int k, int f, i64 t, int m, double p) : c(k), F(f), thr(t), method(m), perf_thr(p) {}
	bool dyadic(std::vector<T> const& x) const { for(auto v : x){ double u = (double)v / scale; if(u * 16 != std::floor(u * 16) || std::fabs(u) > 4096) return false; } return true; }
	int active() const { int k = 0; for(auto& a : c) k += a.on; return k; }
	// Centres are expressed in the feature type, as every data point is.
	long double centre(C const& a, int f, bool& bad) const {
		long double v = a.sum[f] / a.n;
		if(std::numeric_limits<T>::is_integer){ long double near = std::round(v); if(std::fabs((double)(v - near)) < 1e-6 && v != near) bad = true; return std::trunc(v); }
		return v;
	}
	// Values the feature type represents exactly
	static bool holds(long double v){ return std::numeric_limits<T>::is_integer || (long double)(T)v == v; }
	static bool fits(long double v){ return (long double)(double)v == v; } // sums and distances are doubles
	struct D { long double d; bool exact; };
	D dist(C const& a, std::vector<T> const& x, bool& bad) const {
		long double d = 0; bool whole = true; for(int f = 0; f < F; ++f){ long double m = centre(a, f, bad), e = (long double)x[f] - m; d += e * e; whole &= holds(m) && fits(e) && fits(e * e); }
		return D{d, whole && (double)d == d && a.exact && dyadic(x) && (std::numeric_limits<T>::is_integer || (a.n & (a.n - 1)) == 0)};
	}
	static double tol(){ return sizeof(T) == 4 && !std::numeric_limits<T>::is_integer ? 2e-3 : 1e-7; }
	// All the clusters of the given label (any if negative) that may be the nearest one.
	std::vector<int> nearest(std::vector<T> const& x, int label, bool& bad, D* out = nullptr) const {
		std::vector<std::pair<int, D>> v; long double m = INFINITY;
		for(int i = 0; i < (int)c.size(); ++i) if(c[i].on && (label < 0 || c[i].label == label)){ D d = dist(c[i], x, bad); v.push_back({i, d}); m = std::min(m, d.d); }
		std::vector<int> r; for(auto& p : v) if(p.second.d <= m + tol() * ((long double)scale * scale + m)) r.push_back(p.first);
		bool all_exact = true; for(auto& p : v) if(std::find(r.begin(), r.end(), p.first) != r.end()) all_exact &= p.second.exact;
		if(all_exact){ std::vector<int> r2; for(auto& p : v) if(p.second.d == m) r2.push_back(p.first); r = r2; }
		if(out) *out = D{m, all_exact};
		return r;
	}
	void start(C& a, std::vector<long double> const& x, bool exact, int label, long double t){ a.on = true; a.exact = exact; a.sum = x; a.sq.clear(); for(auto v : x) a.sq.push_back(v * v); a.tsum = a.t0 = t; a.n = 1; a.err = thr; a.label = label; }
	long double perf(C const& a) const { long double tri = ((long double)now * now + now) / 2 - (a.t0 * a.t0 + a.t0) / 2; return a.tsum * 100 / tri; }
	int lowest(){
		int b = -1; double v = 0, second = INFINITY;
		for(int i = 0; i < (int)c.size(); ++i) if(c[i].on){ long double p = perf(c[i]); if(p != p || p < 0){ ambiguous = true; return 0; } double d = (double)p; if(b < 0 || d < v){ if(b >= 0) second = std::min(second, v); b = i; v = d; } else second = std::min(second, d); }
		if(b < 0 || second - v <= 1e-9 * (1 + std::fabs(v)) || v == INFINITY) ambiguous = true;
		return b;
	}
	void add(C& a, std::vector<T> const& x){ ++a.n; a.tsum += now; a.exact &= dyadic(x); for(int f = 0; f < F; ++f){ a.sum[f] += (long double)x[f]; a.exact &= fits(a.sum[f]); a.sq[f] += (long double)x[f] * x[f]; } }
	void split(int i){
		int to = -1; for(int k = 0; k < (int)c.size() && to < 0; ++k) if(!c[k].on) to = k;
		if(to < 0){ if(method == 1){ ++refused; return; } to = lowest(); if(ambiguous) return; ++evicted; if(to == i){ ambiguous = true; return; } }
		C& a = c[i]; int best = 0; long double vb = -1, second = -1, mag = (long double)scale * scale;
		for(int f = 0; f < F; ++f){ long double m = a.sum[f] / a.n, v = std::max((long double)0, a.sq[f] / a.n - m * m); mag = std::max(mag, a.sq[f] / a.n); if(v > vb){ second = std::max(second, vb); vb = v; best = f; } else second = std::max(second, v); }
		long double slack = mag * (tol() > 1e-4 ? 1e-3 : 1e-9);
		if(F > 1 && vb - second <= slack && !(vb == 0 && second == 0 && a.exact && (a.n & (a.n - 1)) == 0)) { ambiguous = true; return; }
		if(vb > 0 && vb < 10 * slack) { ambiguous = true; return; }
		std::vector<long double> lo(F), hi(F); bool bad = false; for(int f = 0; f < F; ++f) lo[f] = hi[f] = centre(a, f, bad);
		long double w = std::sqrt(vb); lo[best] -= w; hi[best] += w;
		if(std::numeric_limits<T>::is_integer) for(auto p : {&lo[best], &hi[best]}){ if(std::fabs((double)(*p - std::round(*p))) < 1e-6 && *p != std::round(*p)) bad = true; *p = std::trunc(*p); }
		if(bad){ ambiguous = true; return; }
		bool exact = std::numeric_limits<T>::is_integer || (vb == 0 && a.exact && (a.n & (a.n - 1)) == 0);
		long double t = std::trunc(a.tsum / a.n); int label = a.label; ++splits;
		start(c[to], lo, exact, label, t); start(c[i], hi, exact, label, t);
	}
	bool train(std::vector<T> const& x, int y){
		if(method) for(auto& a : c) if(a.on && a.n > 1){ long double p = perf(a); if(std::fabs((double)(p - perf_thr)) <= 1e-9 * (1 + perf_thr) || p != p){ ambiguous = true; return true; } if(p < perf_thr){ a.on = false; ++cleaned; } }
		++now;
		D dn{0, true}, dc{0, true}; bool bad = false; std::vector<int> near = nearest(x, -1, bad, &dn), same = nearest(x, y, bad, &dc);
		if(bad){ ambiguous = true; return true; }
		std::vector<long double> lx(x.begin(), x.end());
		if(same.empty()){
			for(auto& a : c) if(!a.on){ start(a, lx, dyadic(x), y, now); return true; }
			if(method == 1){ ++refused; return false; }
			int i = lowest(); if(ambiguous) return true; ++evicted; start(c[i], lx, dyadic(x), y, now); return true;
		}
		if(same.size() != 1){ ambiguous = true; return true; }
		int s = same[0], n = near[0];
		if(near.size() > 1){ // the cluster of the point's own class wins an exact tie
			if(std::find(near.begin(), near.end(), s) != near.end() && dn.exact && dc.exact) n = s; else { ambiguous = true; return true; }
		}
		if(n == s){ ++c[s].err; add(c[s], x); return true; }
		++errors; --c[n].err; --c[s].err; add(c[s], x);
		bool ss = c[s].err <= 0, sn = c[n].err <= 0;
		if(ss && sn && active() == (int)c.size() && method != 1) { ambiguous = true; return true; }
		if(ss) split(s); if(ambiguous) return true;
		if(c[n].err <= 0) split(n);
		return true;
	}
	// Labels that a correct answer may have.
	std::set<int> predict(std::vector<T> const& x, bool& bad, int empty) const { std::set<int> r; for(int i : nearest(x, -1, bad)) r.insert(c[i].label); if(r.empty()) r.insert(empty); return r; }
};
template<class T, unsigned F, unsigned K, int EMPTY> struct McRun {
	typedef MCNN<T, F, K, EMPTY> M;
	static T value(Gen& g, Rng* r, int style, double scale = 1){
		auto below = [&](u64 n){ return r ? r->below(n) : g.below(n); }; auto unit = [&]{ return r ? r->unit() : g.unit(); };
		bool in = std::numeric_limits<T>::is_integer, sg = std::numeric_limits<T>::is_signed; double v;
		if(style == 0) v = (double)below(16); else if(style == 1) v = in ? (double)below(100) : (double)below(160) / 16; else if(style == 2) v = in ? (double)below(40) : unit() * 10; else v = (double)below(8) * 10;
		if(sg && style != 0) v -= in ? 20 : 5;
		return (T)(v * scale);
	}
	static T* copy(std::vector<T> const& x){ T* p = (T*)malloc(sizeof(T) * F); std::copy(x.begin(), x.end(), p); return p; }
	static int predict(M& m, std::vector<T> const& x){ T* p = copy(x); int r = m.predict(p); for(unsigned f = 0; f < F; ++f) CHECK(p[f] == x[f], "predict changed its features"); free(p); return r; }
	static bool train(M& m, std::vector<T> const& x, int y){ T* p = copy(x); bool r = m.train(p, y); for(unsigned f = 0; f < F; ++f) CHECK(p[f] == x[f], "train changed its features"); free(p); return r; }
	static std::string ty(){ return std::string(std::numeric_limits<T>::is_integer ? std::numeric_limits<T>::is_signed ? "int" : "uint" : "float") + std::to_string(sizeof(T) * 8); }
	static void model(Ctx& c, bool splitting){
		Gen& g = c.g; i64 thr = splitting ? 1 + (i64)g.below(4) : 1000000; int method = splitting ? (int)g.below(3) : 0; double perf = (double)g.below(12) * 10 + 0.37; int labels = 2 + (int)g.below(splitting ? 4 : std::min<u64>(K - 1, 5)), style = (int)g.below(4), first = (int)g.below(3); size_t n = g.length(splitting && g.below(4) == 3 ? 400 : 60); double noise = (double)g.below(4) * 0.1;
		if(first + labels > 100) labels = 2;
		bool in = std::numeric_limits<T>::is_integer; double scale = g.below(3) < 2 ? 1 : in ? std::ldexp(1.0, (int)g.below(sizeof(T) == 1 ? 1 : sizeof(T) == 2 ? 7 : sizeof(T) == 4 ? 22 : 30)) : std::ldexp(1.0, ((int)g.below(5) - 2) * (sizeof(T) == 4 ? 20 : 200));
		unsigned char fill = gen_fill(g); Boxed<M> m(fill, (unsigned)thr, (unsigned)method, perf), other((unsigned char)~fill, (unsigned)thr, (unsigned)method, perf); McModel<T> w(K, F, thr, method, perf); Rng r(g.seed()); Rng* rp = n > 60 ? &r : nullptr; w.scale = scale;
		CHECK(m->get_error_thr() == (unsigned)thr, "get_error_thr is " << m->get_error_thr()); CHECK(m->get_performance_thr() == (unsigned)perf, "get_performance_thr is " << m->get_performance_thr());
		SAY(c, "MCNN<" << ty() << "," << F << "," << K << "> error threshold " << thr << ", cleaning " << method << ", performance threshold " << perf << ", " << n << " points, scale " << scale << ":");
		std::vector<std::vector<T>> cut(labels, std::vector<T>(F)); for(auto& v : cut) for(auto& z : v) z = value(g, nullptr, style, scale);
		std::vector<T> x(F); size_t compared = 0;
		for(size_t i = 0; i <= n; ++i){
			if(i){
				for(auto& v : x) v = value(g, rp, style, scale);
				int y = 0; double bd = INFINITY; for(int k = 0; k < labels; ++k){ double d = 0; for(unsigned f = 0; f < F; ++f) d += std::fabs((double)x[f] - (double)cut[k][f]); if(d < bd){ bd = d; y = k; } }
				if(rp ? r.prob(noise) : g.prob(noise)) y = (int)(rp ? r.below(labels) : g.below(labels)); y += first;
				bool want = w.train(x, y); if(w.ambiguous) break;
				if(!rp) SAY(c, " " << show_list(x.begin(), x.end()) << "->" << y);
				bool ok = train(*m, x, y); if(i % 2) train(*other, x, y + 1);
				CHECK(ok == want, "train returned " << ok << " for point " << i << " (" << w.active() << " of " << K << " clusters used)");
				CHECK(m->count_clusters() == w.active(), m->count_clusters() << " clusters counted after point " << i << ", there are " << w.active());
			}
			for(int k = 0; k < 5; ++k){
				std::vector<T> q(F); for(auto& v : q) v = value(g, n > 20 ? &r : nullptr, style, scale);
				if(k == 0) q = x; if(k == 1 && i) for(unsigned f = 0; f < F; ++f) q[f] = (T)(q[f] * (in ? 3 : 100));
				bool bad = false; auto e = w.predict(q, bad, EMPTY); if(bad) continue; int p = predict(*m, q); ++compared;
				CHECK(e.count(p), "after " << i << " points " << show_list(q.begin(), q.end()) << " is given label " << p << ", the nearest cluster has " << *e.begin() << " (" << w.active() << " clusters, " << w.splits << " splits)");
				CHECK(predict(*m, q) == p, "predict changed the answer");
			}
		}
		c.label_if(w.splits, "a cluster was split"); c.label_if(w.evicted, "the weakest cluster was replaced"); c.label_if(w.cleaned, "weak clusters were cleaned"); c.label_if(w.refused, "no room"); c.label_if(w.ambiguous, "stopped: rounding would decide"); c.label_if(w.active() == (int)K, "all clusters in use");
		c.nontrivial(splitting ? w.splits + w.evicted + w.cleaned > 0 : w.active() > 1 && compared > 20);
	}
	// whatever the data: labels come from the training data, the number of clusters stays within bounds
	static void laws(Ctx& c){
		Gen& g = c.g; bool in = std::numeric_limits<T>::is_integer; int thr = 1 + (int)g.below(5), method = (int)g.below(3); double perf = (double)g.below(120); size_t n = g.length(g.below(4) == 3 ? 2000 : 100); Rng r(g.seed()); Rng* rp = n > 60 ? &r : nullptr;
		double big = in ? std::pow(10.0, (double)g.below(sizeof(T) == 2 ? 5 : sizeof(T) == 4 ? 9 : 12)) : std::pow(10.0, (double)g.below(sizeof(T) == 4 ? 18 : 140)); int labels = 1 + (int)g.below(40), mode = (int)g.below(3);
		unsigned char fill = gen_fill(g); Boxed<M> a(fill, thr, method, perf), b((unsigned char)~fill, thr, method, perf); std::set<int> seen; bool full = false; int top = 0;
		auto point = [&]{ std::vector<T> x(F); for(auto& v : x){ double u = rp ? r.unit() : g.unit(); if(mode == 0) u = std::floor(u * 8) / 8; v = (T)((std::numeric_limits<T>::is_signed ? 2 * u - 1 : u) * big); } return x; };
		SAY(c, "MCNN<" << ty() << "," << F << "," << K << "> thresholds " << thr << " " << perf << " cleaning " << method << " magnitude " << big << " " << n << " points of " << labels << " labels");
		CHECK(predict(*a, std::vector<T>(F, (T)0)) == EMPTY, "an empty model predicts " << predict(*a, std::vector<T>(F, (T)0))); CHECK(a->count_clusters() == 0, "an empty model has " << a->count_clusters() << " clusters");
		for(size_t i = 0; i < n; ++i){
			auto x = point(); int y = (int)(rp ? r.below(labels) : g.below(labels)) * 3 + 5; int before = a->count_clusters();
			bool ok = train(*a, x, y), ok2 = train(*b, x, y); int k = a->count_clusters(); top = std::max(top, k); full |= k == (int)K;
			CHECK(ok == ok2 && k == b->count_clusters(), "two models given the same " << i + 1 << " points differ: " << k << " and " << b->count_clusters() << " clusters");
			CHECK(k >= 1 && k <= (int)K, k << " clusters after " << i + 1 << " points, of " << K);
			CHECK(k - before <= 2, "one point added " << k - before << " clusters");
			if(method == 0) CHECK(k >= before, "without threshold cleaning the number of clusters fell from " << before << " to " << k);
			if(!ok) CHECK(method == 1 && k == (int)K && before <= (int)K, "point " << i + 1 << " was refused with " << k << " of " << K << " clusters in use, cleaning " << method);
			else if(!seen.count(y) && labels > 1 && i && big < 1e100){ // its cluster is exactly the point
				int p = predict(*a, x); CHECK(seen.count(p) || p == y, "label " << p << " was never trained");
			}
			if(ok) seen.insert(y);
			if(i == 0){ CHECK(predict(*a, x) == y, "after one point labelled " << y << " its features are given " << predict(*a, x)); }
			auto q = point(); int p = predict(*a, q), p2 = predict(*b, q); CHECK(seen.count(p), "label " << p << " predicted after " << i + 1 << " points, never accepted in training"); CHECK(p == p2, "two models given the same points predict " << p << " and " << p2);
		}
		c.label_if(full, "all clusters in use"); c.label_if(!in && big > 1e9, "far apart data"); c.nontrivial(top > 1 && n > 3);
	}
};
template<int WHAT> void mc_any(Ctx& c){
#define MC(...) (WHAT == 3 ? McRun<__VA_ARGS__>::laws(c) : McRun<__VA_ARGS__>::model(c, WHAT == 2))
	switch(c.g.below(10)){
		case 0: return MC(double, 2, 10, -1); case 1: return MC(int, 2, 6, -1); case 2: return MC(double, 1, 3, -7); case 3: return MC(float, 3, 25, -1);
		case 4: return MC(double, 5, 40, -1); case 5: return MC(i64, 3, 12, -2); case 6: if(WHAT == 1) return MC(unsigned, 2, 5, -1); return MC(float, 2, 5, -1); case 7: return MC(short, 2, 8, -1); case 8: if(WHAT == 1) return MC(unsigned char, 3, 8, -1); return MC(int, 3, 7, -1); default: return MC(double, 3, 6, -1);
	}
}
#endif
