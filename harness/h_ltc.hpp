#ifndef H_LTC_HPP
#define H_LTC_HPP
#include "common.hpp"
#include "ltc.hpp"
enum { LTC_ERR = 1, LTC_PARS = 2, LTC_SANE = 4 };

struct LSample { long double t, v; };
// generate a series of samples in [lo, hi]
template<class E, class T> std::vector<std::pair<T, E>> ltc_series(Ctx& c, double lo, double hi, int eps){
	Gen& g = c.g;
	std::vector<std::pair<T, E>> s;
	size_t n = g.length(g.below(8) == 7 ? 3000 : 120) + 1;
	bool bulk = n > 200;
	Rng r(bulk ? g.seed() : 0);
	auto below = [&](u64 k) -> u64 { return bulk ? r.below(k) : g.below(k); };
	auto unit = [&]() -> double { return bulk ? r.unit() : g.unit(); };
	static const double starts[] = {0, 1, 1000, 1600000000, 50, 7};
	double t = starts[g.below(6)]; const bool wide = sizeof(T) == 8;
	if(wide && g.below(4) == 3) t = g.flip() || !std::numeric_limits<T>::is_integer ? 1.6e12 : 1.6e15; // milliseconds or microseconds since 1970
	if(std::numeric_limits<T>::is_signed && g.below(5) == 4) t = -t;
	int gaps = (int)g.below(4); // regular, small irregular, large irregular, long silences
	int style = (int)g.below(7);
	double mid = g.below(4) == 3 ? lo + (hi - lo) * unit() : std::max(lo, std::min(hi, 0.0));
	double amp = std::min((hi - lo) / 2, (eps + 1) * (double)(1 + below(g.below(3) == 2 ? 200 : 6)));
	double v = mid, slope = 0, phase = 0;
	for(size_t i = 0; i < n; ++i){
		switch(style){
			case 0: v = mid + amp * (2 * unit() - 1); break; // noise
			case 1: v += (eps + 1) * (2 * unit() - 1); break; // random walk
			case 2: if(below(12) == 0) slope = (eps + 1) * (2 * unit() - 1); v += slope + eps * 0.4 * (2 * unit() - 1); break; // noisy line pieces
			case 3: if(below(9) == 0) v = mid + amp * (2 * unit() - 1); break; // steps
			case 4: phase += 0.05 + 0.3 * unit(); v = mid + amp * std::sin(phase); break;
			case 5: v = below(6) == 0 ? (below(2) ? hi : lo) : (below(2) ? hi - eps * unit() : v); break; // at the limits
			default: v += (double)(i64)below(2 * eps + 3) - eps - 1; break; // integers near the margin
		}
		v = std::max(lo, std::min(hi, v));
		E e = std::numeric_limits<E>::is_integer ? (E)std::floor(v) : (E)v;
		if((double)e > hi) e = (E)hi;
		if((double)e < lo) e = (E)lo;
		s.push_back({(T)t, e});
		double step = 1;
		if(gaps == 1) step = 1 + below(4);
		else if(gaps == 2) step = 1 + below(1000);
		else if(gaps == 3) step = below(10) == 0 ? 100000 : 1 + below(3);
		if(!std::numeric_limits<T>::is_integer && below(2)) step *= 0.125;
		t += step;
		if(t > 2.1e9 && !wide) break;
	}
	return s;
}

template<class E, class T, int EPS, int MAXV, int MINV, int TUD, int FLAGS> void ltc_case(Ctx& c){
	Gen& g = c.g;
	typedef LTC<E, T, EPS, MAXV, MINV, TUD> L;
	double lo = MINV, hi = MAXV;
	lo = std::max(lo, (double)std::numeric_limits<E>::lowest()); hi = std::min(hi, (double)std::numeric_limits<E>::max());
	auto s = ltc_series<E, T>(c, lo, hi, EPS);
	unsigned char fill = gen_fill(g);
	Boxed<L> f(fill), other((unsigned char)~fill); // two compressors whose additions interleave
	Rng orng = g.fork(); bool interleave = g.flip();
	SAY(c, "LTC<" << (std::numeric_limits<E>::is_integer ? "int" : "float") << sizeof(E) * 8 << "," << (std::numeric_limits<T>::is_integer ? "int" : "float") << sizeof(T) * 8 << ",eps=" << EPS << ",max=" << MAXV << ",min=" << MINV << ",tud=" << TUD << ">:");
	std::vector<LSample> out; std::vector<size_t> trig;
	const long double floaty = sizeof(E) == 4 && !std::numeric_limits<E>::is_integer ? 1 : 0;
	long double big = std::max(std::fabs(lo), std::fabs(hi)); long double m = 0; for(auto& p : s) m = std::max(m, (long double)std::fabs((double)p.second)); (void)big;
	const long double tol = floaty ? (m + EPS) * 5e-7L + 1e-6L : (m + EPS) * 1e-10L + 1e-8L;
	T ot = 0;
	for(size_t i = 0; i < s.size(); ++i){
		int r = f->add(s[i].first, s[i].second);
		if(i < 60) SAY(c, " (" << (double)s[i].first << "," << (double)s[i].second << ")" << (r ? "!" : ""));
		if(FLAGS & LTC_SANE){
			CHECK(r == 0 || r == 1, "add returned " << r);
			CHECK(i >= 2 || !r, "a transmission at sample " << i << ", before there is anything to approximate");
		}
		if(interleave){ ot += 1; other->add(ot, (E)(lo + (hi - lo) * orng.unit())); }
		if(r){
			T t = 0; E v = 0; f->get_value_to_transmit(t, v);
			T t2 = 0; E v2 = 0; f->get_value_to_transmit(t2, v2);
			if(FLAGS & LTC_SANE){
				CHECK(t == t2 && v == v2, "reading the transmission twice gives two answers");
				CHECK((long double)v <= hi + tol && (long double)v >= lo - tol, "transmitted value " << (double)v << " outside [" << lo << "," << hi << "]");
				if(trig.empty()) CHECK(t == s[0].first && v == s[0].second, "the first transmission is (" << (double)t << "," << (double)v << ") and not the first sample (" << (double)s[0].first << "," << (double)s[0].second << ")");
				else CHECK(t == s[trig.back() - 1].first, "transmission " << trig.size() << " is dated " << (double)t << " and not " << (double)s[trig.back() - 1].first << ", the last sample its segment stands for");
				if(!out.empty()) CHECK((long double)t > out.back().t, "transmissions are not in order");
			}
			out.push_back({(long double)t, (long double)v}); trig.push_back(i);
		}else if((FLAGS & LTC_SANE) && !trig.empty() && g.mode != Gen::BYTES && (i % 7) == 0){
			T t = 0; E v = 0; f->get_value_to_transmit(t, v); // still the last one
			CHECK((long double)t == out.back().t && (long double)v == out.back().v, "the transmission changed without a new one");
		}
	}
	const long double round_err = std::numeric_limits<E>::is_integer ? 1 : 0;
	if(FLAGS & LTC_ERR){
		size_t seg = 0;
		for(size_t i = 0; i < s.size() && out.size() >= 2; ++i){
			long double t = (long double)s[i].first, v = (long double)s[i].second;
			if(t > out.back().t) break;
			while(seg + 2 < out.size() && t > out[seg + 1].t) ++seg;
			long double w = (t - out[seg].t) / (out[seg + 1].t - out[seg].t);
			long double rec = out[seg].v + (out[seg + 1].v - out[seg].v) * w;
			CHECK(std::fabs((double)(rec - v)) <= EPS + round_err + tol, "sample " << i << " (" << (double)t << "," << (double)v << ") is reconstructed as " << (double)rec << ", further than " << EPS << " from it");
		}
	}
	if(FLAGS & LTC_PARS){
		// from each transmitted point: the samples after it, until the next transmission
		for(size_t k = 0; k < out.size(); ++k){
			// segment k starts at out[k]; its samples run from `from` to trig[k], where it ended
			size_t from = k == 0 ? 1 : trig[k - 1];
			long double up = INFINITY, low = -INFINITY;
			for(size_t i = from; i <= trig[k]; ++i){
				long double dt = (long double)s[i].first - out[k].t;
				long double u = (std::min((long double)s[i].second + EPS, (long double)MAXV) - out[k].v) / dt, l = (std::max((long double)s[i].second - EPS, (long double)MINV) - out[k].v) / dt;
				long double slack = 1e-9L * (1 + m + EPS) / dt + 1e-13L * (std::fabs((double)up) < 1e300 ? std::fabs((double)up) + std::fabs((double)low) : 0);
				bool empty_surely = u < low - slack || l > up + slack, open_surely = !(u < low + slack || l > up - slack);
				if(i > from){
					if(i == trig[k]) CHECK(!open_surely, "a transmission at sample " << i << " although the line from (" << (double)out[k].t << "," << (double)out[k].v << ") still fits all samples");
					else CHECK(!empty_surely, "no transmission at sample " << i << " although no line from (" << (double)out[k].t << "," << (double)out[k].v << ") fits all samples");
				}
				up = std::min(up, u); low = std::max(low, l);
			}
		}
		// samples after the last transmission: if even one-segment feasibility from any start is impossible nothing can be said; skipped
		if(out.empty() && s.size() > 1){ // never transmitted: one line from the first sample fits all
			long double up = INFINITY, low = -INFINITY;
			for(size_t i = 1; i < s.size(); ++i){
				long double dt = (long double)s[i].first - (long double)s[0].first, v0 = (long double)s[0].second;
				up = std::min(up, (std::min((long double)s[i].second + EPS, (long double)MAXV) - v0) / dt);
				low = std::max(low, (std::max((long double)s[i].second - EPS, (long double)MINV) - v0) / dt);
				CHECK(low <= up + 1e-9L * (1 + m + EPS) / dt + 1e-9L, "no transmission until sample " << i << " although no line from the first sample fits");
			}
		}
	}
	c.label_if(out.size() >= 2, "at least one whole segment"); c.label_if(out.size() >= 10, "ten transmissions");
	c.nontrivial(out.size() >= 2 || (out.size() == 0 && s.size() > 10));
}
template<int FLAGS> void ltc_any(Ctx& c){
	switch(c.g.below(18)){
		case 0: return ltc_case<int, int, 3, 32767, -32768, 1, FLAGS>(c);
		case 1: return ltc_case<double, int, 3, 32767, -32768, 1, FLAGS>(c);
		case 2: return ltc_case<double, double, 1, 32767, -32768, 1, FLAGS>(c);
		case 3: return ltc_case<float, int, 2, 32767, -32768, 1, FLAGS>(c);
		case 4: return ltc_case<int, unsigned, 1, 32767, -32768, 1, FLAGS>(c);
		case 5: return ltc_case<double, unsigned long, 10, 1000, -1000, 1, FLAGS>(c);
		case 6: return ltc_case<int, int, 5, 100, 0, 1, FLAGS>(c);
		case 7: return ltc_case<double, int, 5, 100, 0, 60, FLAGS>(c);
		case 8: return ltc_case<int, int, 3, 32767, -32768, 1000, FLAGS>(c);
		case 9: return ltc_case<short, int, 7, 32767, -32768, 1, FLAGS>(c);
		case 10: return ltc_case<double, long, 50, 1000000000, -1000000000, 1, FLAGS>(c);
		case 11: return ltc_case<int, long, 1000, 1000000000, -1000000000, 3, FLAGS>(c);
		case 12: return ltc_case<unsigned char, int, 4, 255, 0, 1, FLAGS>(c);
		case 13: return ltc_case<double, int, 0, 32767, -32768, 1, FLAGS>(c);
		case 14: return ltc_case<float, double, 4, 500, -500, 2, FLAGS>(c);
		case 15: return ltc_case<int, int, 2, 10, -10, 1, FLAGS>(c);
		case 16: return ltc_case<double, int, 1, -50, -5000, 1, FLAGS>(c);
		default: return ltc_case<unsigned int, int, 3, 60000, 0, 7, FLAGS>(c);
	}
}
// One segment whose samples are 1, 2, 4, 8.. time steps after its start and whose values are small multiples of 1/8 (or integers):
// slopes and limits are dyadic numbers and every computation is exact, so "fits" and "does not fit" are decided even when a limit just touches.
template<class E, class T, int EPS, int MAXV, int MINV, int TUD> void ltc_exact_case(Ctx& c){
	Gen& g = c.g;
	const bool integer = std::numeric_limits<E>::is_integer;
	const long double unit = integer ? 1 : 0.125L;
	const long double hi = std::min((long double)MAXV, (long double)std::numeric_limits<E>::max()), lo = std::max((long double)MINV, (long double)std::numeric_limits<E>::lowest());
	unsigned char fill = gen_fill(g);
	Boxed<LTC<E, T, EPS, MAXV, MINV, TUD>> f(fill);
	static const long double t0s[] = {0, 64, 4096};
	long double t0 = t0s[g.below(3)], step = std::numeric_limits<T>::is_integer ? 1 : (g.flip() ? 0.25L : 1);
	long double span = std::min((hi - lo) / 2, 40.0L);
	long double v0 = g.below(5) == 4 ? (g.flip() ? hi : lo) : std::floor((lo + hi) / 2) + (long double)((i64)g.below(41) - 20) * span / 40;
	v0 = std::max(lo, std::min(hi, std::floor(v0 / unit) * unit));
	size_t n = 2 + g.below(11);
	SAY(c, "LTC<" << (integer ? "int" : "float") << sizeof(E) * 8 << ",eps=" << EPS << ",max=" << MAXV << ",min=" << MINV << ",tud=" << TUD << ">: (" << (double)t0 << "," << (double)v0 << ")");
	CHECK(f->add((T)t0, (E)v0) == 0, "a transmission with the first sample");
	long double up = 0, low = 0; size_t touches = 0;
	for(size_t i = 0; i < n; ++i){
		long double dt = std::ldexp(step, (int)i), v;
		if(i == 0) v = v0 + (long double)((i64)g.below(6 * EPS + 9) - 3 * EPS - 4) * unit;
		else{
			switch(g.below(7)){
				case 0: v = v0 + up * dt + EPS; break; // its lower limit is on the upper line
				case 1: v = v0 + low * dt - EPS; break;
				case 2: v = v0 + up * dt + EPS + unit; break; // one step too far
				case 3: v = v0 + low * dt - EPS - unit; break;
				case 4: v = v0 + up * dt + EPS - unit; break;
				case 5: v = v0 + low * dt - EPS + unit; break;
				default: v = v0 + (up + low) / 2 * dt; // somewhere in the middle
			}
		}
		v = std::max(lo, std::min(hi, std::floor(v / unit) * unit));
		long double u = (std::min(v + EPS, (long double)MAXV) - v0) / dt, l = (std::max(v - EPS, (long double)MINV) - v0) / dt;
		int r = f->add((T)(t0 + dt), (E)v);
		SAY(c, " (" << (double)(t0 + dt) << "," << (double)v << ")" << (r ? "!" : ""));
		if(i == 0){ CHECK(!r, "a transmission with the second sample"); up = u; low = l; continue; }
		bool fits = !(u < low || l > up);
		if(u == low || l == up) ++touches;
		CHECK(fits == !r, (fits ? "a transmission although a line still fits all samples (it just touches a limit)" : "no transmission although no line fits any more"));
		if(r) break;
		up = std::min(up, u); low = std::max(low, l);
		if(std::ldexp(up, 30) != std::floor(std::ldexp(up, 30)) || std::fabs((double)up) > 1e6) break; // keep everything exact
	}
	c.label_if(touches, "a limit that just touches the line");
	c.nontrivial(touches > 0);
}
inline void ltc_exact(Ctx& c){
	switch(c.g.below(9)){
		case 0: return ltc_exact_case<int, int, 3, 32767, -32768, 1>(c);
		case 1: return ltc_exact_case<double, int, 3, 32767, -32768, 1>(c);
		case 2: return ltc_exact_case<double, double, 1, 32767, -32768, 1>(c);
		case 3: return ltc_exact_case<int, unsigned, 1, 32767, -32768, 1>(c);
		case 4: return ltc_exact_case<double, long, 5, 100, 0, 4>(c);
		case 5: return ltc_exact_case<int, int, 2, 10, -10, 1>(c);
		case 6: return ltc_exact_case<short, int, 7, 32767, -32768, 16>(c);
		case 7: return ltc_exact_case<double, int, 0, 32767, -32768, 1>(c);
		default: return ltc_exact_case<unsigned char, int, 4, 255, 0, 1>(c);
	}
}
#endif
