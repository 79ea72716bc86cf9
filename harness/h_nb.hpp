#ifndef H_NB_HPP
#define H_NB_HPP
#include "common.hpp"
#include "naive_bayes.hpp"
struct NbLn { static double log(double x){ return std::log(x); } static double sqrt(double x){ return std::sqrt(x); } static double base(){ return 1; } };
struct NbLog2 { static double log(double x){ return std::log2(x); } static double sqrt(double x){ return std::sqrt(x); } static double base(){ return std::log(2.0); } };
struct NbLog10 { static double log(double x){ return std::log10(x); } static double sqrt(double x){ return std::sqrt(x); } static double base(){ return std::log(10.0); } };

struct NbPoint { std::vector<double> x; int label; double w; };
// data: every label and feature has its own location and scale
template<class T> std::vector<NbPoint> nb_data(Ctx& c, int labels, int features, int max_points, bool integer_weights){
	Gen& g = c.g;
	int style = (int)g.below(6); // small integers, reals, clusters, constants, far offsets, lattice
	int n = 1 + (int)g.length(max_points); int wstyle = (int)g.below(3);
	std::vector<double> loc(labels * features), sc(labels * features);
	for(auto& v : loc) v = style == 4 ? (double)g.centered(2000) : (double)g.centered(20) / 2;
	for(auto& v : sc) v = style == 3 ? (g.flip() ? 0.0 : 1.0) : 0.25 * (double)(1 + g.below(12));
	std::vector<NbPoint> d(n);
	for(auto& p : d){
		p.label = (int)g.below(labels); p.x.resize(features);
		p.w = wstyle == 0 ? 1 : integer_weights || wstyle == 1 ? (double)(1 + g.below(4)) : 0.25 * (double)(1 + g.below(12));
		for(int f = 0; f < features; ++f){
			int k = p.label * features + f; double v;
			if(style == 0 || style == 5) v = (double)g.below(style == 0 ? 4 : 2);
			else if(style == 1) v = 10 * g.unit() - 5;
			else v = loc[k] + sc[k] * (g.below(33) / 8.0 - 2);
			p.x[f] = (double)(T)v;
		}
	}
	return d;
}
struct NbRef { // two-pass Gaussian naive Bayes in long double
	int L, F; std::vector<long double> w, mean, var; long double total; std::vector<double> span; std::vector<int> ambiguous;
	NbRef(std::vector<NbPoint> const& d, int labels, int features) : L(labels), F(features), w(labels), mean(labels * features), var(labels * features), total(0), span(labels * features), ambiguous(labels * features) {
		for(auto& p : d){ w[p.label] += p.w; total += p.w; for(int f = 0; f < F; ++f) mean[p.label * F + f] += (long double)p.w * p.x[f]; }
		for(int l = 0; l < L; ++l) for(int f = 0; f < F; ++f) if(w[l] > 0) mean[l * F + f] /= w[l];
		std::vector<double> lo(L * F, INFINITY), hi(L * F, -INFINITY);
		for(auto& p : d) for(int f = 0; f < F; ++f){ int k = p.label * F + f; long double e = p.x[f] - mean[k]; var[k] += p.w * e * e; lo[k] = std::min(lo[k], p.x[f]); hi[k] = std::max(hi[k], p.x[f]); span[k] = std::max(span[k], std::fabs(p.x[f])); }
		for(int k = 0; k < L * F; ++k){
			if(lo[k] == hi[k]){ var[k] = 0; mean[k] = lo[k]; }
			else if(w[k / F] > 1) var[k] /= w[k / F] - 1; else { var[k] = 0; ambiguous[k] = 1; } // the mean is not exact
			if(var[k] > 0 && std::sqrt((double)var[k]) < 1e-5 * span[k]) ambiguous[k] = 1;
			if(w[k / F] > 1 && w[k / F] < 1 + 1e-9) ambiguous[k] = 1;
		}
	}
	// ln score; `fuzzy` when rounding or underflow decides
	long double score(std::vector<double> const& x, int l, bool& fuzzy) const {
		fuzzy = false;
		if(w[l] <= 0) return -INFINITY;
		long double s = std::log((double)(w[l] / total));
		for(int f = 0; f < F; ++f){
			int k = l * F + f; if(ambiguous[k]) fuzzy = true;
			if(var[k] <= 0){ if(x[f] == (double)mean[k]) continue; return -INFINITY; }
			long double e = x[f] - mean[k], q = -e * e / (2 * var[k]) - 0.5L * std::log(2 * 3.14159265358979323846L * var[k]);
			if(-e * e / (2 * var[k]) < -690) fuzzy = true;
			s += q;
		}
		return s;
	}
};
template<class M> std::vector<double> nb_scores(M& m, std::vector<double> const& x, int L, int F, int& label);
template<class T, int L, int F, class FN> struct NbRun {
	typedef NaiveBayes<T, L, F, FN> M;
	static void train(M& m, NbPoint const& p){
		T* x = (T*)malloc(sizeof(T) * F); for(int f = 0; f < F; ++f) x[f] = (T)p.x[f];
		bool ok = p.w == 1 ? m.train(x, p.label) : m.train(x, p.label, p.w);
		for(int f = 0; f < F; ++f) CHECK(x[f] == (T)p.x[f], "train changed its features");
		free(x); CHECK(ok, "train returned false");
	}
	static int predict(M& m, std::vector<double> const& v, std::vector<double>& s, bool with_scores = true){
		T* x = (T*)malloc(sizeof(T) * F); for(int f = 0; f < F; ++f) x[f] = (T)v[f];
		double* sc = (double*)malloc(sizeof(double) * L); for(int l = 0; l < L; ++l) sc[l] = 777;
		int a = with_scores ? m.predict(x, sc) : m.predict(x);
		for(int f = 0; f < F; ++f) CHECK(x[f] == (T)v[f], "predict changed its features");
		s.assign(sc, sc + L); free(x); free(sc); return a;
	}
	// N01
	static void reference(Ctx& c){
		Gen& g = c.g; auto d = nb_data<T>(c, L, F, g.below(6) == 5 ? 300 : 40, false); NbRef* ref = nullptr;
		unsigned char fill = gen_fill(g); Boxed<M> m(fill), other((unsigned char)~fill, g.unit());
		SAY(c, "NaiveBayes<" << (sizeof(T) == 4 ? "float" : "double") << "," << L << "," << F << ">, " << d.size() << " points:");
		for(auto& p : d) SAY(c, " " << show_list(p.x.begin(), p.x.end()) << "->" << p.label << (p.w != 1 ? "*" + show(p.w) : ""));
		size_t at = 0; int compared = 0;
		while(at < d.size()){
			size_t chunk = 1 + g.below(d.size() - at);
			for(size_t i = 0; i < chunk; ++i, ++at){ train(*m, d[at]); NbPoint q = d[at]; q.label = L - 1 - q.label; if(i % 3 == 0) train(*other, q); }
			NbRef r(std::vector<NbPoint>(d.begin(), d.begin() + at), L, F); ref = &r;
			for(int k = 0; k < 3; ++k){
				std::vector<double> q = d[g.below(at)].x; if(g.flip()) for(auto& v : q) v = (double)(T)(v + g.centered(4) / 2.0);
				std::vector<double> s, s2; int a = predict(*m, q, s), b = predict(*m, q, s2, false);
				CHECK(a == b, "the label depends on whether scores are asked for");
				CHECK(a >= 0 && a < L, "label " << a);
				bool any_fuzzy = false; long double best = -INFINITY;
				std::vector<long double> e(L);
				for(int l = 0; l < L; ++l){
					bool fuzzy; e[l] = ref->score(q, l, fuzzy); any_fuzzy |= fuzzy; if(fuzzy) continue;
					++compared; best = std::max(best, e[l]);
					double got = s[l] * FN::base(), tol = 2e-5 * F + (sizeof(T) == 4 ? 1e-6 : 1e-6) * std::fabs((double)(std::isfinite((double)e[l]) ? e[l] : 0));
					CHECK((double)e[l] == got || std::fabs((double)e[l] - got) <= tol, "after " << at << " points, label " << l << " of " << show_list(q.begin(), q.end()) << " scores " << got << " (natural log), the reference " << (double)e[l]);
				}
				if(!any_fuzzy && std::isfinite((double)best)) CHECK(e[a] >= best - 5e-5 * F - 2e-6 * std::fabs((double)best), "the answer is " << a << " whose reference score " << (double)e[a] << " is below " << (double)best);
			}
		}
		c.nontrivial(compared > 0 && d.size() >= 3);
	}
	static void compare(std::vector<double> const& a, std::vector<double> const& b, std::vector<long double> const& shift, std::vector<bool> const& skip, double scale, const char* what){
		for(int l = 0; l < L; ++l){
			if(skip[l]) continue;
			double e = a[l] - (double)shift[l];
			bool inf = !std::isfinite(a[l]) || !std::isfinite(b[l]);
			CHECK(inf ? a[l] == b[l] : std::fabs(e - b[l]) <= scale * (1 + std::fabs(e)), what << ": label " << l << " scores " << b[l] << " instead of " << e);
		}
	}
	// N02: laws
	static void laws(Ctx& c){
		Gen& g = c.g; auto d = nb_data<T>(c, L, F, 40, true); NbRef r(d, L, F);
		Boxed<M> m(gen_fill(g)); for(auto& p : d) train(*m, p);
		std::vector<double> q = d[g.below(d.size())].x; if(g.flip()) for(auto& v : q) v = (double)(T)(v + g.centered(4) / 2.0);
		std::vector<double> s; int a = predict(*m, q, s);
		std::vector<bool> skip(L); std::vector<long double> zero(L); for(int l = 0; l < L; ++l){ bool fz; r.score(q, l, fz); skip[l] = fz; }
		// predicting changes nothing
		{ std::vector<double> t; std::vector<double> q2 = d[0].x; predict(*m, q2, t); int b = predict(*m, q, t); CHECK(a == b && s == t, "the same question got two answers"); }
		Boxed<M> o(gen_fill(g)); std::vector<double> t; std::vector<NbPoint> e = d; int b; int law = (int)g.below(6);
		static const char* names[] = {"another order", "labels renamed", "weights as repetitions", "features reordered", "features shifted and scaled", "a second copy of the data"};
		SAY(c, names[law] << ": " << d.size() << " points, " << L << " labels, " << F << " features");
		std::vector<int> perm(std::max(L, F)); 
		switch(law){
			case 0: for(size_t i = e.size(); i > 1; --i) std::swap(e[i - 1], e[g.below(i)]); for(auto& p : e) train(*o, p); b = predict(*o, q, t); compare(s, t, zero, skip, 1e-6, names[law]); break;
			case 1: { for(int i = 0; i < L; ++i) perm[i] = i; for(int i = L; i > 1; --i) std::swap(perm[i - 1], perm[g.below(i)]); for(auto& p : e){ p.label = perm[p.label]; train(*o, p); } b = predict(*o, q, t); std::vector<double> u(L); for(int l = 0; l < L; ++l) u[l] = t[perm[l]]; compare(s, u, zero, skip, 1e-9, names[law]); break; }
			case 2: for(auto& p : e){ int k = (int)p.w; p.w = 1; for(int i = 0; i < k; ++i) train(*o, p); } b = predict(*o, q, t); compare(s, t, zero, skip, 1e-6, names[law]); break;
			case 3: { for(int i = 0; i < F; ++i) perm[i] = i; for(int i = F; i > 1; --i) std::swap(perm[i - 1], perm[g.below(i)]); auto per = [&](std::vector<double> v){ std::vector<double> w(F); for(int f = 0; f < F; ++f) w[perm[f]] = v[f]; return w; }; for(auto& p : e){ p.x = per(p.x); train(*o, p); } b = predict(*o, per(q), t); compare(s, t, zero, skip, 1e-6, names[law]); break; }
			case 4: { std::vector<double> sc(F), sh(F); std::vector<long double> shift(L); for(int f = 0; f < F; ++f){ sc[f] = std::ldexp(1.0, (int)g.below(7) - 3) * (g.flip() ? -1 : 1); sh[f] = (double)g.centered(8); for(int l = 0; l < L; ++l) if(r.var[l * F + f] > 0) shift[l] += std::log(std::fabs(sc[f])) / FN::base(); }
				auto tr = [&](std::vector<double> v){ for(int f = 0; f < F; ++f) v[f] = (double)(T)(v[f] * sc[f] + sh[f]); return v; };
				bool exact = true; auto ok = [&](std::vector<double> const& v){ for(int f = 0; f < F; ++f) exact = exact && (tr(v)[f] - sh[f]) / sc[f] == v[f]; }; ok(q); for(auto& p : e) ok(p.x);
				if(!exact) break;
				for(auto& p : e){ p.x = tr(p.x); train(*o, p); } b = predict(*o, tr(q), t); compare(s, t, shift, skip, 1e-5, names[law]); break; }
			default: { // other data of other labels does not change how labels compare among themselves
				for(auto& p : e) train(*o, p); for(auto& p : e) if(p.label == L - 1) train(*o, p); b = predict(*o, q, t);
				std::vector<long double> shift(L); for(int l = 0; l + 1 < L; ++l) shift[l] = std::log((double)((r.total + r.w[L - 1]) / r.total)) / FN::base(); skip[L - 1] = true;
				compare(s, t, shift, skip, 1e-6, names[law]); }
		}
		c.label(names[law]); c.nontrivial(d.size() >= 3);
	}
};
template<int WHAT> void nb_any(Ctx& c){
#define NB(T, L, F, FN) (WHAT == 0 ? NbRun<T, L, F, FN>::reference(c) : NbRun<T, L, F, FN>::laws(c))
	switch(c.g.below(8)){
		case 0: return NB(double, 2, 1, NbLn); case 1: return NB(double, 2, 4, NbLn); case 2: return NB(double, 3, 3, NbLn); case 3: return NB(float, 3, 2, NbLn);
		case 4: return NB(double, 5, 6, NbLog2); case 5: return NB(float, 2, 5, NbLog10); case 6: return NB(double, 1, 2, NbLn); default: return NB(double, 10, 2, NbLn);
	}
}
#endif
