#include "common.hpp"
#include "metrics.hpp"
// Histories of updates, counted errors, resets and copies over two metrics against plain counters.
template<bool RATIO> void error_metrics(Ctx& c){
	Gen& g = c.g; typedef ErrorMetrics<RATIO> M;
	unsigned char fill = gen_fill(g);
	Boxed<M> a(fill), b((unsigned char)~fill); M* m[2] = {a.p, b.p}; i64 n[2] = {0, 0}, e[2] = {0, 0};
	size_t ops = g.length(g.below(10) == 9 ? 100000 : 80); bool bulk = ops > 500; Rng r(bulk ? g.seed() : 0);
	SAY(c, "ErrorMetrics<" << RATIO << ">:");
	CHECK(a->ratio() == RATIO, "ratio() is " << a->ratio());
	auto verify = [&](int w){
		if(n[w] == 0) return;
		int size = 1 + (int)g.below(g.flip() ? 5 : g.flip() ? 5000 : INT_MAX / 2);
		double er = (double)e[w] / n[w], ac = (double)(n[w] - e[w]) / n[w];
		double s = m[w]->score(false, size), t = m[w]->score(true, size), xs = RATIO ? er * size : er, xt = RATIO ? ac / size : ac;
		CHECK(std::fabs(s - xs) <= 1e-12 * (1 + std::fabs(xs)), "score is " << s << " and " << e[w] << " errors of " << n[w] << " with size " << size << " make " << xs);
		CHECK(std::fabs(t - xt) <= 1e-12 * (1 + std::fabs(xt)), "inverted score is " << t << " and " << n[w] - e[w] << " right of " << n[w] << " with size " << size << " make " << xt);
		if(!RATIO){ double d = m[w]->score(), d2 = m[w]->score(true); CHECK(std::fabs(d + d2 - 1) < 1e-12, "error and accuracy sum to " << d + d2); CHECK(d >= 0 && d <= 1, "error rate " << d); }
		if(RATIO){ CHECK(m[w]->score(false, 2 * size) >= s, "a larger tree has a better score"); }
	};
	for(size_t i = 0; i < ops; ++i){
		int w = bulk ? (int)r.below(2) : (int)g.below(2); u64 op = bulk ? r.below(2000) + 0 : g.below(40);
		if(bulk ? op > 4 : op < 30){
			int lc = 2 + (bulk ? (int)r.below(6) : (int)g.below(6)); int t = bulk ? (int)r.below(lc) : (int)g.below(lc), p = bulk ? (int)r.below(lc) : (int)g.below(lc);
			if((bulk ? r.below(10) : g.below(10)) == 9) p = -1; // no answer
			if(!bulk && g.below(6) == 5){ static const int far[] = {1 << 16, 65537, 1 << 24, (1 << 24) + 1, INT_MAX, INT_MAX - 1, INT_MIN, 256, 257, 32768, -32768}; t = far[g.below(11)]; p = g.flip() ? far[g.below(11)] : g.flip() ? t : t ^ (1 << g.below(31)); } // labels are any int
			m[w]->update(t, p); ++n[w]; e[w] += t != p;
			if(!bulk) SAY(c, " update" << w << "(" << t << "," << p << ")");
		}else if(bulk ? op == 0 : op < 34){ int k = 1 + (bulk ? (int)r.below(9) : (int)g.below(9)); if(k == 1) m[w]->increase_error(); else m[w]->increase_error(k); n[w] += k; e[w] += k; SAY(c, " increase_error" << w << "(" << k << ")"); }
		else if(bulk ? op == 1 && r.below(30) == 0 : op < 36){ m[w]->reset(); n[w] = e[w] = 0; SAY(c, " reset" << w); }
		else if(bulk ? op == 2 : op < 38){ *m[w] = *m[1 - w]; n[w] = n[1 - w]; e[w] = e[1 - w]; SAY(c, " copy" << w); }
		else if(!bulk) verify(w);
		if(!bulk || i % 4096 == 0 || i + 1 == ops){ verify(0); verify(1); }
	}
	NoMetrics none; none.update(0, 1); none.increase_error(2); none.reset();
	CHECK(none.score() == 0 && none.score(true, 3) == 0 && !none.ratio(), "NoMetrics has a score");
	c.nontrivial(n[0] + n[1] >= 2 && e[0] + e[1] >= 1);
}
// Long streams: blocks of predictions of one kind, and errors counted thousands at a time, up to the largest count an int holds.
template<bool RATIO> void error_long(Ctx& c){
	Gen& g = c.g; typedef ErrorMetrics<RATIO> M; Boxed<M> m(gen_fill(g)); i64 n = 0, e = 0;
	SAY(c, "ErrorMetrics<" << RATIO << "> in blocks:");
	for(size_t b = 1 + g.below(6); b-- > 0; ){
		i64 k = (i64)1 << g.below(18); k += (i64)g.below((u64)k); bool wrong = g.flip(), big = g.below(3) == 0;
		if(big){ k = 1 + (i64)g.below((u64)(g.flip() ? 1 << 20 : INT_MAX)); if(k > INT_MAX - n) k = INT_MAX - n; if(k > 0) m->increase_error((int)k); e += k; SAY(c, " increase_error(" << k << ")"); }
		else{ if(k > INT_MAX - n) k = INT_MAX - n; for(i64 i = 0; i < k; ++i) m->update(1, wrong ? 0 : 1); if(wrong) e += k; SAY(c, " " << k << (wrong ? " wrong" : " right")); }
		n += k;
		int size = 1 + (int)g.below(g.flip() ? 1000 : INT_MAX / 2); double xs = (double)e / n * (RATIO ? size : 1), xt = (double)(n - e) / n / (RATIO ? size : 1), s = m->score(false, size), t = m->score(true, size);
		CHECK(std::fabs(s - xs) <= 1e-12 * (1 + xs), "score is " << s << " and " << e << " errors of " << n << " with size " << size << " make " << xs);
		CHECK(std::fabs(t - xt) <= 1e-12 * (1 + xt), "inverted score is " << t << " and " << n - e << " right of " << n << " with size " << size << " make " << xt);
		if(g.below(12) == 11){ m->reset(); n = e = 0; }
	}
	c.label_if(e > 65535, "more than 65535 errors"); c.nontrivial(n >= 2 && e > 0);
}
static void any_long(Ctx& c){ if(c.g.flip()) error_long<true>(c); else error_long<false>(c); }
static void any(Ctx& c){ if(c.g.flip()) error_metrics<true>(c); else error_metrics<false>(c); }
FACET_FN(E01, histories, any, 300000, 1500000, "at least two predictions, one of them wrong");
FACET_FN(E01, long, any_long, 3000, 12000, "at least two predictions, one of them wrong");
