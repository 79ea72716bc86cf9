#ifndef H_MLP_HPP
#define H_MLP_HPP
#include "common.hpp"
#include "perceptron.hpp"
static Rng p_rng(1); static u64 p_random_calls;
struct ActSig { static double random(){ ++p_random_calls; return p_rng.unit(); } static double activation(double x){ return 1 / (1 + std::exp(-x)); } static double derivative(double y){ return y * (1 - y); } };
struct ActTanh { static double random(){ ++p_random_calls; return p_rng.unit(); } static double activation(double x){ return std::tanh(x); } static double derivative(double y){ return 1 - y * y; } };
struct ActId { static double random(){ ++p_random_calls; return p_rng.unit(); } static double activation(double x){ return x; } static double derivative(double){ return 1; } };
struct ActRelu { static double random(){ ++p_random_calls; return p_rng.unit(); } static double activation(double x){ return x > 0 ? x : 0.125 * x; } static double derivative(double y){ return y > 0 ? 1 : 0.125; } };

template<class FN> struct MlpRef {
	std::vector<int> size; std::vector<long double> w; long double lr; std::vector<std::vector<long double>> out;
	int base(int layer) const { int b = 0; for(int l = 1; l < layer; ++l) b += (size[l - 1] + 1) * size[l]; return b; }
	int count() const { return base((int)size.size()); }
	std::vector<long double> forward(std::vector<double> const& in){
		out.assign(1, std::vector<long double>(in.begin(), in.end()));
		for(size_t l = 1; l < size.size(); ++l){
			std::vector<long double> o(size[l]);
			for(int n = 0; n < size[l]; ++n){
				int b = base((int)l) + n * (size[l - 1] + 1); long double s = w[b + size[l - 1]];
				for(int i = 0; i < size[l - 1]; ++i) s += w[b + i] * out[l - 1][i];
				o[n] = FN::activation((double)s);
			}
			out.push_back(o);
		}
		return out.back();
	}
	long double back(std::vector<double> const& expected){
		int L = (int)size.size(); std::vector<std::vector<long double>> delta(L); long double e2 = 0;
		for(int l = L - 1; l >= 1; --l){
			delta[l].resize(size[l]);
			for(int n = 0; n < size[l]; ++n){
				long double e = 0;
				if(l == L - 1){ e = out[l][n] - expected[n]; e2 += e * e; }
				else for(int k = 0; k < size[l + 1]; ++k) e += delta[l + 1][k] * w[base(l + 1) + k * (size[l] + 1) + n];
				delta[l][n] = e * FN::derivative((double)out[l][n]);
			}
		}
		for(int l = 1; l < L; ++l) for(int n = 0; n < size[l]; ++n){ int b = base(l) + n * (size[l - 1] + 1); for(int i = 0; i < size[l - 1]; ++i) w[b + i] -= lr * out[l - 1][i] * delta[l][n]; w[b + size[l - 1]] -= lr * delta[l][n]; }
		return e2 / size[L - 1];
	}
};
enum { P_FORWARD = 1, P_BACK = 2, P_ACCESS = 4, P_GRAD = 8 };
template<int LAYERS, int MAX, class FN, int FLAGS> void mlp_case(Ctx& c){
	Gen& g = c.g; typedef MultiLayerPerceptron<LAYERS, MAX, FN> M; const int cap = MAX / 16; // doubles that each of the two arrays holds at least
	MlpRef<FN> ref; ref.size.resize(LAYERS); int widest = MAX >= 16000 ? 12 : 5;
	for(auto& s : ref.size) s = 1 + (int)g.below(widest);
	for(;;){ int units = 0; for(int s : ref.size) units += s; if(ref.count() <= cap && units <= cap) break; auto it = std::max_element(ref.size.begin(), ref.size.end()); if(*it == 1) throw pbt::Discard(); --*it; }
	int W = ref.count(); ref.lr = 0.01 * (double)(1 + g.below(60)); bool default_lr = g.below(5) == 4; if(default_lr) ref.lr = 0.1;
	p_rng.reseed(g.seed()); p_random_calls = 0;
	std::vector<int> shape = ref.size;
	unsigned char fill = gen_fill(g);
	std::unique_ptr<Boxed<M>> mp(default_lr ? new Boxed<M>(fill, shape.data()) : new Boxed<M>(fill, shape.data(), (double)ref.lr));
	M& m = **mp; std::fill(shape.begin(), shape.end(), 0); // the array is the caller's
	if(FLAGS & P_ACCESS) CHECK(sizeof(M) <= MAX + 8 + 8 + 4 * LAYERS + 8, "a network of at most " << MAX << " bytes takes " << sizeof(M));
	SAY(c, "MultiLayerPerceptron<" << LAYERS << "," << MAX << "> " << show_list(ref.size.begin(), ref.size.end()) << " rate " << (double)ref.lr << ":");
	for(int i = 0; i < W; ++i) CHECK(m.get_weights()[i] >= 0 && m.get_weights()[i] < 1, "initial weight " << i << " is " << m.get_weights()[i] << ", the random function gives values in [0,1[");
	ref.w.resize(W); for(int i = 0; i < W; ++i) ref.w[i] = m.get_weights()[i];
	auto number = [&]{ return g.centered(24) / 8.0; };
	auto weights_agree = [&](const char* after, double tol){ for(int i = 0; i < W; ++i){ double got = m.get_weights()[i]; CHECK(std::fabs((double)(got - ref.w[i])) <= tol * (1 + std::fabs((double)ref.w[i])), "after " << after << " weight " << i << " of " << W << " is " << got << ", " << (double)ref.w[i] << " expected"); } };
	std::vector<double> in(ref.size[0]); double* xin = (double*)malloc(sizeof(double) * ref.size[0]); double* xout = (double*)malloc(sizeof(double) * ref.size[LAYERS - 1]); double* xexp = (double*)malloc(sizeof(double) * ref.size[LAYERS - 1]);
	struct Free { double *a, *b, *c; ~Free(){ free(a); free(b); free(c); } } fr{xin, xout, xexp};
	// NaN-free random start
	int steps = 1 + (int)g.below(10), backs = 0, sets = 0; bool diverged = false;
	for(int st = 0; st < steps && !diverged; ++st){
		if(g.below(3) == 2 || st == 0){
			int how = (int)g.below(4); ++sets;
			std::vector<double> nw;
			if(how == 0){ nw.resize(W); for(auto& v : nw) v = number(); m.set_weights(nw.data()); for(int i = 0; i < W; ++i) ref.w[i] = nw[i]; SAY(c, " set_all"); }
			else if(how == 1){ int l = 1 + (int)g.below(LAYERS - 1); nw.resize((ref.size[l - 1] + 1) * ref.size[l]); for(auto& v : nw) v = number(); m.set_weights(l, nw.data()); for(size_t i = 0; i < nw.size(); ++i) ref.w[ref.base(l) + i] = nw[i]; SAY(c, " set_layer(" << l << ")"); }
			else if(how == 2){ int l = 1 + (int)g.below(LAYERS - 1), n = (int)g.below(ref.size[l]); nw.resize(ref.size[l - 1] + 1); for(auto& v : nw) v = number(); m.set_weights(l, n, nw.data()); for(size_t i = 0; i < nw.size(); ++i) ref.w[ref.base(l) + n * (ref.size[l - 1] + 1) + i] = nw[i]; SAY(c, " set_neuron(" << l << "," << n << ")"); }
			else { int i = (int)g.below(W); double v = number(); m.get_weights()[i] = v; ref.w[i] = v; SAY(c, " weight[" << i << "]=" << v); }
			if(FLAGS & P_ACCESS) weights_agree("setting weights", 0);
		}
		for(auto& v : in) v = number();
		for(size_t i = 0; i < in.size(); ++i) xin[i] = in[i];
		m.feed_forward(xin, xout);
		SAY(c, " feed" << show_list(in.begin(), in.end()));
		std::vector<long double> e = ref.forward(in); long double scale = 1; for(auto& o : ref.out) for(auto v : o) scale = std::max(scale, (long double)std::fabs((double)v)); if(scale > 1e6){ diverged = true; break; }
		if(FLAGS & P_FORWARD){
			for(size_t i = 0; i < in.size(); ++i) CHECK(xin[i] == in[i], "feed_forward changed its input");
			for(int i = 0; i < ref.size[LAYERS - 1]; ++i) CHECK(std::fabs((double)(xout[i] - e[i])) <= 1e-9 * (double)scale, "output " << i << " is " << xout[i] << ", " << (double)e[i] << " expected");
			for(int i = 0; i < ref.size[LAYERS - 1]; ++i) xout[i] = 99;
			m.feed_forward(xin, xout);
			for(int i = 0; i < ref.size[LAYERS - 1]; ++i) CHECK(std::fabs((double)(xout[i] - e[i])) <= 1e-9 * (double)scale, "the second time output " << i << " is " << xout[i] << ", " << (double)e[i] << " expected");
		}
		if(FLAGS & P_ACCESS) weights_agree("feed_forward", 0);
		if((FLAGS & (P_BACK | P_GRAD)) || g.below(3) == 2){
			std::vector<double> want(ref.size[LAYERS - 1]); for(auto& v : want) v = number(); for(size_t i = 0; i < want.size(); ++i) xexp[i] = want[i];
			std::vector<long double> grad;
			if(FLAGS & P_GRAD){ // numeric gradient of half the squared error
				for(int i = 0; i < W; ++i){
					long double keep = ref.w[i], h = 1e-4L, e2[2];
					for(int s = 0; s < 2; ++s){ ref.w[i] = keep + (s ? h : -h); auto o = ref.forward(in); long double t = 0; for(size_t k = 0; k < o.size(); ++k) t += (o[k] - want[k]) * (o[k] - want[k]); e2[s] = t / 2; }
					ref.w[i] = keep; grad.push_back((e2[1] - e2[0]) / (2 * h));
				}
				ref.forward(in);
			}
			std::vector<long double> before = ref.w;
			double err = m.backpropagate(xexp); long double want_err = ref.back(want); ++backs;
			SAY(c, " back" << show_list(want.begin(), want.end()) << "=" << err);
			long double mx = 1; for(auto v : ref.w) mx = std::max(mx, (long double)std::fabs((double)v)); if(mx > 1e5){ diverged = true; break; }
			if(FLAGS & P_BACK){
				for(size_t i = 0; i < want.size(); ++i) CHECK(xexp[i] == want[i], "backpropagate changed its argument");
				CHECK(std::fabs((double)(err - want_err)) <= 1e-9 * (1 + (double)want_err), "backpropagate returns " << err << ", the mean squared error was " << (double)want_err);
				weights_agree("backpropagate", 1e-8 * (double)(scale * scale));
			}
			if(FLAGS & P_GRAD){
				for(int i = 0; i < W; ++i){ double moved = m.get_weights()[i] - (double)before[i], expect = (double)(-ref.lr * grad[i]); CHECK(std::fabs(moved - expect) <= 1e-5 * (double)(scale * scale) * (1 + std::fabs(expect)), "weight " << i << " moved by " << moved << ", the gradient makes " << expect); }
			}
			for(int i = 0; i < W; ++i) ref.w[i] = m.get_weights()[i]; // no drift between steps
		}
	}
	c.label_if(backs > 0, "backpropagation"); c.label_if(LAYERS > 2, "hidden layers");
	c.nontrivial(FLAGS & (P_BACK | P_GRAD) ? backs > 0 && W > 2 : W > 2);
}
template<int FLAGS> void mlp_any(Ctx& c){
	switch(c.g.below(FLAGS == P_GRAD ? 6 : 9)){
		case 0: return mlp_case<2, 4000, ActSig, FLAGS>(c);
		case 1: return mlp_case<3, 4000, ActSig, FLAGS>(c);
		case 2: return mlp_case<3, 1004, ActTanh, FLAGS>(c);
		case 3: return mlp_case<4, 4001, ActTanh, FLAGS>(c);
		case 4: return mlp_case<3, 2000, ActId, FLAGS>(c);
		case 5: return mlp_case<5, 6007, ActSig, FLAGS>(c);
		case 6: return mlp_case<3, 16000, ActRelu, FLAGS>(c);
		case 7: return mlp_case<2, 777, ActId, FLAGS>(c);
		default: return mlp_case<4, 20000, ActTanh, FLAGS>(c);
	}
}
#endif
