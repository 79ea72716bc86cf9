#include "common.hpp"
#include "metrics.hpp"
template<int LC> struct KModel {
	i64 m[LC][LC]; i64 total;
	KModel(){ reset(); }
	void reset(){ memset(m, 0, sizeof m); total = 0; }
	bool kappa(long double& k) const {
		long double po = 0, pe = 0;
		if(total == 0) return false;
		for(int i = 0; i < LC; ++i){ long double row = 0, col = 0; for(int j = 0; j < LC; ++j){ row += m[i][j]; col += m[j][i]; } po += m[i][i]; pe += row * col; }
		po /= total; pe /= (long double)total * total;
		if(1 - pe < 1e-9L) return false; // one label only: kappa is 0 / 0
		k = (po - pe) / (1 - pe); return true;
	}
};
template<int LC, bool RATIO> void kappa_metrics(Ctx& c){
	Gen& g = c.g; typedef KappaMetrics<LC, RATIO> M;
	unsigned char fill = gen_fill(g);
	Boxed<M> a(fill), b((unsigned char)~fill); M* m[2] = {a.p, b.p}; KModel<LC> k[2];
	size_t ops = g.length(g.below(12) == 11 ? 70000 : 80); bool bulk = ops > 500; Rng r(g.seed());
	double right = g.unit(); int skew = (int)g.below(3);
	SAY(c, "KappaMetrics<" << LC << "," << RATIO << ">:");
	int defined = 0;
	auto verify = [&](int w){
		long double x;
		if(!k[w].kappa(x)) return;
		++defined;
		int size = 1 + (int)r.below(r.prob(0.5) ? 500 : INT_MAX / 2);
		double got = m[w]->kappa(); long double tol = 1e-9L;
		CHECK(std::fabs((double)(got - x)) <= tol, "kappa is " << got << ", the confusion matrix makes " << (double)x);
		CHECK(got <= 1 + 1e-9 && got >= -1 - 1e-9, "kappa " << got << " out of [-1,1]");
		long double good = (x + 1) / 2, bad = (1 - x) / 2;
		long double xs = RATIO ? bad * size : bad, xt = RATIO ? good / size : good;
		double s = m[w]->score(false, size), t = m[w]->score(true, size);
		CHECK(std::fabs((double)(s - xs)) <= 1e-9L * (1 + size), "score is " << s << ", kappa " << (double)x << " with size " << size << " makes " << (double)xs);
		CHECK(std::fabs((double)(t - xt)) <= 1e-9L, "inverted score is " << t << ", kappa " << (double)x << " with size " << size << " makes " << (double)xt);
	};
	CHECK(a->ratio() == RATIO, "ratio()");
	for(size_t i = 0; i < ops; ++i){
		int w = bulk ? (int)r.below(2) : (int)g.below(2); u64 op = bulk ? r.below(3000) : g.below(40) * 75;
		if(op < 2400 || (bulk && op > 4)){
			int t = bulk ? (int)r.below(LC) : (int)g.below(LC); if(skew == 1 && r.prob(0.8)) t = 0; if(skew == 2) t = (int)((i / 20) % LC);
			int p = r.prob(right) ? t : bulk ? (int)r.below(LC) : (int)g.below(LC);
			m[w]->update(t, p); k[w].m[t][p]++; k[w].total++;
			if(!bulk) SAY(c, " update" << w << "(" << t << "," << p << ")");
		}else{
			u64 q = r.below(4);
			if(q == 0){ int n = 1 + (int)r.below(5); if(n == 1) m[w]->increase_error(); else m[w]->increase_error(n); k[w].m[0][1] += n; k[w].total += n; SAY(c, " increase_error" << w << "(" << n << ")"); }
			else if(q == 1){ if(!bulk || r.below(3) == 0){ m[w]->reset(); k[w].reset(); SAY(c, " reset" << w); } }
			else if(q == 2){ *m[w] = *m[1 - w]; k[w] = k[1 - w]; SAY(c, " copy" << w); }
			else *m[w] = *m[w];
		}
		if(!bulk || i % 4096 == 0 || i + 1 == ops){ verify(0); verify(1); }
	}
	c.nontrivial(defined > 0);
}
// Long streams in blocks of equal pairs, up to the largest count an int holds.
template<int LC, bool RATIO> void kappa_long(Ctx& c){
	Gen& g = c.g; typedef KappaMetrics<LC, RATIO> M; Boxed<M> m(gen_fill(g)); KModel<LC> k; int defined = 0;
	SAY(c, "KappaMetrics<" << LC << "," << RATIO << "> in blocks:");
	for(size_t b = 2 + g.below(8); b-- > 0; ){
		i64 n = (i64)1 << g.below(18); n += (i64)g.below((u64)n); int t = (int)g.below(LC), p = g.flip() ? t : (int)g.below(LC);
		if(g.below(5) == 0){ n = 1 + (i64)g.below((u64)(g.flip() ? 1 << 20 : INT_MAX)); n = std::min<i64>(n, INT_MAX - k.total); if(n > 0) m->increase_error((int)n); k.m[0][1] += n; SAY(c, " increase_error(" << n << ")"); }
		else{ n = std::min<i64>(n, INT_MAX - k.total); for(i64 i = 0; i < n; ++i) m->update(t, p); k.m[t][p] += n; SAY(c, " " << n << " of (" << t << "," << p << ")"); }
		k.total += n;
		long double x; if(!k.kappa(x)) continue;
		++defined; double got = m->kappa(); int size = 1 + (int)g.below(g.flip() ? 500 : INT_MAX / 2);
		// a stream of nearly one label only: 1 - pe is the difference of two numbers near 1
		long double pe = 0; for(int i = 0; i < LC; ++i){ long double row = 0, col = 0; for(int j = 0; j < LC; ++j){ row += k.m[i][j]; col += k.m[j][i]; } pe += row * col; } pe /= (long double)k.total * k.total;
		long double tol = 1e-12L + 2e-14L / (1 - pe) / (1 - pe);
		if(tol > 1e-3L) continue;
		CHECK(std::fabs((double)(got - x)) <= tol, "kappa is " << got << ", the confusion matrix of " << k.total << " updates makes " << (double)x);
		long double xs = (1 - x) / 2 * (RATIO ? size : 1), xt = (1 + x) / 2 / (RATIO ? size : 1); double s = m->score(false, size), u = m->score(true, size);
		CHECK(std::fabs((double)(s - xs)) <= tol * (RATIO ? size : 1), "score is " << s << ", kappa " << (double)x << " makes " << (double)xs);
		CHECK(std::fabs((double)(u - xt)) <= tol, "inverted score is " << u << ", kappa " << (double)x << " makes " << (double)xt);
	}
	c.label_if(k.total > 1 << 18, "more than 262144 updates"); c.nontrivial(defined > 0);
}
static void any_long(Ctx& c){ switch(c.g.below(4)){ case 0: return kappa_long<2, false>(c); case 1: return kappa_long<3, true>(c); case 2: return kappa_long<5, false>(c); default: return kappa_long<4, true>(c); } }
static void any(Ctx& c){ switch(c.g.below(8)){ case 0: return kappa_metrics<2, false>(c); case 1: return kappa_metrics<2, true>(c); case 2: return kappa_metrics<3, false>(c); case 3: return kappa_metrics<3, true>(c); case 4: return kappa_metrics<5, false>(c); case 5: return kappa_metrics<7, true>(c); case 6: return kappa_metrics<17, false>(c); default: if(c.g.below(600) == 599) return kappa_metrics<260, true>(c); return kappa_metrics<4, true>(c); } }
FACET_FN(E02, histories, any, 200000, 800000, "kappa is defined at least once");
FACET_FN(E02, long, any_long, 2000, 8000, "kappa is defined at least once");
