#ifndef H_MONDRIAN_HPP
#define H_MONDRIAN_HPP
#include "common.hpp"
#include "stats.hpp"
#include <map>
#include <numeric>
#include <vector>
#include "mondrian.hpp"
#include "mondrian_coarse.hpp"
#include "mondrian_unbound.hpp"

// The random numbers the forests draw: a stream, or one number for a whole call.
struct MoRand { static Rng& rng(){ static Rng r(1); return r; } static double& fixed(){ static double v = -1; return v; } };
struct MoFunc {
	static double exp(double x){ return std::exp(x); } static double log(double x){ return std::log(x); }
	static double rand_uniform(){ double f = MoRand::fixed(); return f >= 0 ? f : MoRand::rng().unit(); }
};
template<class T> std::string mo_type(){ return std::string(!std::numeric_limits<T>::is_integer ? "float" : std::numeric_limits<T>::is_signed ? "int" : "uint") + std::to_string(sizeof(T) * 8); }
// What the type can hold of a value
template<class T> T mo_clip(double v){ if(!std::numeric_limits<T>::is_integer) return (T)v; return (T)std::min((double)std::numeric_limits<T>::max(), std::max((double)std::numeric_limits<T>::lowest(), std::floor(v))); }
// Data with integer or sixteenth coordinates, a few shapes.
template<class T, int F> struct MoData {
	int style, labels, grown = 0; double noise, ratio = 2; std::vector<std::vector<double>> centre;
	MoData(Gen& g, int L, bool deep = false) : style((int)g.below(5)), labels(2 + (int)g.below(std::max(1, L - 1))), noise((double)g.below(3) * 0.1) { labels = std::min(labels, L); centre.assign(labels, std::vector<double>(F)); for(auto& c : centre) for(auto& v : c) v = (double)g.below(20) * (style == 3 ? 50 : 1) - 5; if(deep && g.below(4)){ style = 5; ratio = sizeof(T) == 4 ? 1.3 + 0.7 * g.unit() : 3 + 10 * g.unit(); } if(std::numeric_limits<T>::is_integer && (sizeof(T) < 4 || g.below(3) == 2)) style = 6; }
	// Style 6: anything the integer type holds, its limits often.
	// Style 5: every point is farther away than all before, which gives a level more to most trees. The trees are deeper than a hundred.
	bool deep() const { return style == 5; } int most() const { return (int)((sizeof(T) == 4 ? 80 : 600) / std::log(ratio)); }
	template<class G> size_t points(G& g, size_t n) const { return deep() ? 90 + g.below(200) : n; }
	template<class G> void point(G& g, std::vector<T>& x, int& y){
		y = (int)g.below(labels); x.resize(F); double far = style == 5 ? std::pow(ratio, (grown < most() ? ++grown : (int)g.below(grown)) - 8) : 0;
		for(int f = 0; f < F; ++f){ if(style == 6){ double lo = (double)std::numeric_limits<T>::lowest(), hi = (double)std::numeric_limits<T>::max(); u64 k = g.below(8); x[f] = mo_clip<T>(k == 0 ? lo : k == 1 ? hi : k < 4 ? (double)g.below(6) * 20 : lo + std::floor(g.unit() * (hi - lo + 1))); continue; } double v = style == 5 ? far * (1 + g.unit() * 0.2) * (f % 2 ? -1 : 1) : style == 0 ? (double)g.below(8) : style == 1 ? (double)g.below(160) / 16 - 5 : style == 4 ? g.unit() * 12 - 6 : centre[y][f] + (double)g.below(33) / 8 - 2; x[f] = mo_clip<T>(v); }
		if(noise > 0 && g.prob(noise)) y = (int)g.below(labels);
	}
};
template<class T> T* mo_copy(std::vector<T> const& x){ T* p = (T*)malloc(sizeof(T) * x.size()); std::copy(x.begin(), x.end(), p); return p; }
template<class M, class T> bool mo_train(M& m, std::vector<T> const& x, int y){ T* p = mo_copy(x); bool r = m.train(p, y); for(size_t i = 0; i < x.size(); ++i) CHECK(p[i] == x[i], "train changed its features"); free(p); return r; }
template<class M, class T> int mo_predict(M& m, std::vector<T> const& x, std::vector<double>* sc, int labels){
	T* p = mo_copy(x); double* s = sc ? (double*)malloc(sizeof(double) * labels) : nullptr; if(s) std::fill(s, s + labels, -99.0);
	int r = sc ? m.predict(p, s) : m.predict(p); for(size_t i = 0; i < x.size(); ++i) CHECK(p[i] == x[i], "predict changed its features"); free(p);
	if(sc){ sc->assign(s, s + labels); free(s); } return r;
}
enum { ET_NONE = 0, ET_ORIGINAL = 1, ET_GHOST = 2, ET_PARTIAL = 3, ET_COUNTER = 4, ET_BARY = 5 };
inline const char* et_name(int e){ static const char* n[] = {"NONE", "ORIGINAL", "GHOST", "PARTIAL_UPDATE", "COUNTER_NO_UPDATE", "BARYCENTER"}; return n[e]; }

template<class T, int F, int L, int MAX> struct Coarse {
	typedef CoarseMondrianForest<T, MoFunc, ErrorMetrics<false>, F, L, MAX> Forest; typedef MondrianNode<F, L> Node; typedef typename Forest::TreeBase Base;
	struct Cfg { double lifetime, base, discount; int trees, limit, extend, trim; int manage = COBBLE_MANAGEMENT, size = NODE_SIZE, give = 0, trigger = 0, helper = 0; double grow = 1, fade = 1, most = 1; bool print = false; };
	static const bool DEEP = MAX >= 30000 && !std::numeric_limits<T>::is_integer; // room for trees of many levels
	static int nodes_of(int trees){ return (int)((MAX - trees * (long)sizeof(Base)) / (long)sizeof(Node)); }
	static Cfg gen(Gen& g, int et){ static const double lt[] = {0.1, 0.5, 1, 2, 5, 0.02, 50}; Cfg c; c.lifetime = lt[g.below(7)]; c.base = g.below(2) ? 0.5 : 0.0; c.discount = g.below(2) ? 0.1 : 0.9; c.trees = 1 + (int)g.below(4); c.limit = g.below(3) ? -1 : 1 + (int)g.below(8); c.extend = et; c.trim = 0; return c; }
	struct Box { Boxed<Forest> b; static unsigned char enough(unsigned char fill, Cfg const& c){
#ifdef DEBUG
		if(nodes_of(c.trees) < c.trees) throw pbt::Discard(); // refused by the debug build
#endif
		return fill; }
		Box(unsigned char fill, Cfg const& c) : b(enough(fill, c), c.lifetime, c.base, c.discount, c.trees, c.manage, c.size, c.limit, 0, c.print, c.give, c.trigger, 1.0, true, true, c.grow, c.fade, c.helper, c.extend, c.trim, c.most) {} Forest& operator*(){ return *b; } Forest* operator->(){ return &*b; } };
	// the options that split existing nodes (they matter when trimming made room again)
	static void options(Gen& g, Cfg& c){ static const double gr[] = {1, 1, 1, 0.5, 0, 0.9}, fa[] = {1, 0.9, 0.5}; c.extend = g.below(8) ? (int)ET_BARY : (int)g.below(5); c.trigger = (int)g.below(4); c.give = (int)g.below(4); c.helper = (int)g.below(3); c.grow = gr[g.below(6)]; c.fade = fa[g.below(3)]; }
	static std::string show_options(Cfg const& c){ std::ostringstream o; o << et_name(c.extend) << " trim " << c.trim << " trigger " << c.trigger << " distribution " << c.give << " helper " << c.helper << " parameter " << c.grow << " fading " << c.fade << " management " << c.manage << " most " << c.most; return o.str(); }
	struct Tree { std::vector<int> nodes, leaves; int depth = 0, root = -1; };
	// Walks one tree and checks what holds whatever the options are.
	static Tree walk(Forest& f, int t, Cfg const& c, std::vector<char>& seen, bool nested, const char* when){
		Node* n = f.get_nodes(); int count = nodes_of(c.trees); Tree out; out.root = f.get_bases()[t].root; if(out.root == -1) return out;
		CHECK(out.root >= 0 && out.root < count, when << ": the root of tree " << t << " is node " << out.root << " of " << count);
		CHECK(n[out.root].parent == -1, when << ": the root of tree " << t << " has parent " << n[out.root].parent);
		std::vector<std::pair<int, int>> todo{{out.root, 1}};
		while(!todo.empty()){
			int i = todo.back().first, d = todo.back().second; todo.pop_back(); out.depth = std::max(out.depth, d); CHECK(!seen[i], when << ": node " << i << " belongs to two places"); seen[i] = 1; out.nodes.push_back(i); Node& a = n[i];
			CHECK(!a.available(), when << ": node " << i << " of tree " << t << " is marked as available");
			for(int l = 0; l < L; ++l) CHECK(a.counters[l] >= 0, when << ": negative counter");
			for(int k = 0; k < F; ++k) CHECK(a.bound_lower[k] <= a.bound_upper[k], when << ": the box of node " << i << " is inverted");
			if(a.is_leaf()){ out.leaves.push_back(i); CHECK(a.child_left == -1 && a.child_right == -1, when << ": leaf " << i << " has children"); CHECK(a.tau == c.lifetime, when << ": leaf " << i << " has lifetime " << a.tau); continue; }
			CHECK(a.split_dimension >= 0 && a.split_dimension < F, when << ": node " << i << " splits on feature " << a.split_dimension << " of " << F);
			double pt = a.parent >= 0 ? n[a.parent].tau : 0; CHECK(a.tau >= pt && (a.tau < c.lifetime || (c.helper && a.tau == c.lifetime)), when << ": node " << i << " splits at time " << a.tau << ", its parent at " << pt << ", the lifetime is " << c.lifetime);
			if(c.grow == 1) CHECK(a.split_value >= a.bound_lower[a.split_dimension] && a.split_value <= a.bound_upper[a.split_dimension], when << ": node " << i << " is split at " << a.split_value << " outside of its box [" << a.bound_lower[a.split_dimension] << ", " << a.bound_upper[a.split_dimension] << "]");
			for(int s = 0; s < 2; ++s){
				int ch = s ? a.child_right : a.child_left; CHECK(ch >= 0 && ch < count && ch != i, when << ": child " << ch << " of node " << i); Node& b = n[ch]; CHECK(b.parent == i, when << ": node " << ch << " is a child of " << i << " and has parent " << b.parent);
				if(nested){ for(int k = 0; k < F; ++k) CHECK(b.bound_lower[k] >= a.bound_lower[k] && b.bound_upper[k] <= a.bound_upper[k], when << ": the box of node " << ch << " exceeds the box of its parent " << i);
					if(s) CHECK(b.bound_lower[a.split_dimension] >= a.split_value, when << ": the right child of node " << i << " crosses its split"); else CHECK(b.bound_upper[a.split_dimension] <= a.split_value, when << ": the left child of node " << i << " crosses its split"); }
				todo.push_back({ch, d + 1});
			}
		}
		return out;
	}
	static std::vector<Tree> walk_all(Forest& f, Cfg const& c, bool nested, const char* when){
		int count = nodes_of(c.trees); std::vector<char> seen(count); std::vector<Tree> out; for(int t = 0; t < c.trees; ++t) out.push_back(walk(f, t, c, seen, nested, when));
		for(int i = 0; i < count; ++i) CHECK(seen[i] || f.get_nodes()[i].available(), when << ": node " << i << " is used and belongs to no tree");
		return out;
	}
	static int route(Forest& f, int t, std::vector<T> const& x){ Node* n = f.get_nodes(); int i = f.get_bases()[t].root; while(!n[i].is_leaf()) i = x[n[i].split_dimension] <= n[i].split_value ? n[i].child_left : n[i].child_right; return i; }
	struct Point { std::vector<T> x; int y; };
	// every leaf holds exactly the points that belong to it, in the smallest box
	static void exact(Forest& f, int t, Tree const& tr, std::vector<Point> const& pts, int tight, const char* when, double eps = 0){ // tight: 0 no box, 1 the leaves, 2 all
		Node* n = f.get_nodes(); std::map<int, std::vector<int>> cnt; std::map<int, std::vector<double>> lo, hi;
		for(auto& p : pts){
			int i = f.get_bases()[t].root;
			for(;;){
				auto& a = lo[i]; auto& b = hi[i]; if(a.empty()){ a.assign(F, INFINITY); b.assign(F, -INFINITY); } for(int k = 0; k < F; ++k){ a[k] = std::min(a[k], (double)p.x[k]); b[k] = std::max(b[k], (double)p.x[k]); }
				if(n[i].is_leaf()) break; i = p.x[n[i].split_dimension] <= n[i].split_value ? n[i].child_left : n[i].child_right;
			}
			auto& c = cnt[i]; c.resize(L); c[p.y]++;
		}
		for(int i : tr.leaves){ auto& c = cnt[i]; c.resize(L); for(int l = 0; l < L; ++l) CHECK(n[i].counters[l] == c[l], when << ": a leaf of tree " << t << " counts " << n[i].counters[l] << " points of label " << l << ", " << c[l] << " of the " << pts.size() << " points it was trained with belong there"); }
		for(int i : tr.nodes){ if(lo[i].empty()) { CHECK(tight < 2, when << ": a node of tree " << t << " holds no point"); continue; }
			for(int k = 0; k < F; ++k){
				if(tight == 2 || (tight && n[i].is_leaf())) CHECK(std::fabs(n[i].bound_lower[k] - lo[i][k]) <= eps && std::fabs(n[i].bound_upper[k] - hi[i][k]) <= eps, when << ": the box of a node of tree " << t << " spans [" << n[i].bound_lower[k] << ", " << n[i].bound_upper[k] << "] on feature " << k << ", its points span [" << lo[i][k] << ", " << hi[i][k] << "]");
				else CHECK(n[i].bound_lower[k] <= lo[i][k] && n[i].bound_upper[k] >= hi[i][k], when << ": a point of a node of tree " << t << " is outside of its box"); } }
	}
	static i64 mass(Node const& n){ i64 s = 0; for(int l = 0; l < L; ++l) s += n.counters[l]; return s; }
	static i64 leaf_mass(Forest& f, Tree const& t){ i64 s = 0; for(int i : t.leaves) s += mass(f.get_nodes()[i]); return s; }
	static int max_depth(std::vector<Tree> const& v){ int d = 0; for(auto& t : v) d = std::max(d, t.depth); return d; }

	// F01: structure, counts and boxes after every point
	static void structure(Ctx& c){
		Gen& g = c.g; static const int ets[] = {ET_ORIGINAL, ET_NONE, ET_GHOST, ET_PARTIAL, ET_COUNTER, ET_BARY}; Cfg cfg = gen(g, ets[g.below(6)]); int count = nodes_of(cfg.trees); if(count < 1) throw pbt::Discard();
		size_t n = g.length(g.below(4) == 3 ? 250 : 60); MoData<T, F> data(g, L, DEEP); n = data.points(g, n); if(data.deep()) cfg.lifetime = 50; MoRand::rng() = Rng(g.seed()); MoRand::fixed() = -1; Rng r(g.seed()); bool bulk = n > 40; int deepest = 0; double big = 1;
		static const char* modes[] = {"COBBLE", "OPTIMISTIC_COBBLE", "ROBUR", "PHOENIX", "PAUSING_PHOENIX"}; if(g.below(2)){ cfg.manage = (int)g.below(5); cfg.size = g.below(4) ? NODE_SIZE : DEPTH_SIZE; if(cfg.manage == ROBUR_MANAGEMENT && cfg.limit > 0 && g.flip()) cfg.limit *= 4; }
		bool cobble = cfg.manage <= OPTIMISTIC_COBBLE_MANAGEMENT, robur = cfg.manage == ROBUR_MANAGEMENT; int most_depth = cobble && cfg.limit > 0 ? cfg.limit : INT_MAX, most_nodes = INT_MAX; // what one tree may have
		if(robur){ int m = cfg.limit > 0 ? cfg.limit : count / cfg.trees; m -= m % 2 == 0; m = std::max(1, m); (cfg.size == NODE_SIZE ? most_nodes : most_depth) = m; }
		SAY(c, "CoarseMondrianForest<" << mo_type<T>() << "," << F << "," << L << "," << MAX << "> " << cfg.trees << " trees, " << count << " nodes, lifetime " << cfg.lifetime << ", " << modes[cfg.manage] << (cfg.size == NODE_SIZE ? "" : " by depth") << " limit " << cfg.limit << ", " << et_name(cfg.extend) << ":");
		Cfg free_cfg = cfg; free_cfg.manage = COBBLE_MANAGEMENT; free_cfg.limit = -1; bool twin = most_depth < INT_MAX || most_nodes < INT_MAX || !cobble, paused = false; u64 seed = g.seed(); Box unlimited(gen_fill(g), free_cfg);
		Box f(gen_fill(g), cfg), other(gen_fill(g), cfg); std::vector<std::vector<Point>> pts(cfg.trees); std::vector<i64> before(cfg.trees); std::vector<Tree> trees; bool full = false; int splits = 0; size_t total = 0; std::string when;
		int used = 0; bool nested = cfg.extend == ET_ORIGINAL || cfg.extend == ET_NONE;
		std::vector<int> size(cfg.trees);
		for(size_t i = 0; i < n; ++i){
			std::vector<T> x; int y; if(bulk) data.point(r, x, y); else data.point(g, x, y); if(!bulk) SAY(c, " " << show_list(x.begin(), x.end()) << "->" << y);
			MoRand::rng() = Rng(seed + i); bool ok = mo_train(*f, x, y); ++total; if(twin){ MoRand::rng() = Rng(seed + i); mo_train(*unlimited, x, y); } if(i % 3 == 0) mo_train(*other, x, y);
			when = "after " + std::to_string(i + 1) + " points"; trees = walk_all(*f, cfg, nested, when.c_str());
			if(i % 5 == 2) mo_predict(*f, x, nullptr, L);
			bool all = true; int now = 0; for(auto& t : trees) now += (int)t.nodes.size(); deepest = std::max(deepest, max_depth(trees)); bool look = !data.deep() || i % 40 == 39 || i + 1 == n; if(data.deep()) for(auto v : x) big = std::max(big, std::fabs((double)v));
			for(int t = 0; t < cfg.trees; ++t){
				bool grew = (int)trees[t].nodes.size() > size[t]; int added = (int)trees[t].nodes.size() - size[t]; splits += size[t] && grew;
				CHECK(added == 0 || added == 2 || (added == 1 && size[t] == 0), when << ": one point added " << added << " nodes to tree " << t); size[t] = (int)trees[t].nodes.size();
				if(trees[t].root == -1){ all = false; CHECK(now == count, when << ": tree " << t << " has no root although there are " << count - now << " free nodes"); continue; }
				i64 m = leaf_mass(*f, trees[t]); Node& root = f->get_nodes()[trees[t].root];
				CHECK(trees[t].depth <= most_depth, when << ": tree " << t << " has " << trees[t].depth << " levels, the limit is " << most_depth); CHECK((int)trees[t].nodes.size() <= most_nodes, when << ": tree " << t << " has " << trees[t].nodes.size() << " nodes, the limit is " << most_nodes);
				if(cfg.extend == ET_ORIGINAL || cfg.extend == ET_BARY || cfg.extend == ET_COUNTER){ CHECK(m == before[t] + 1, when << ": the leaves of tree " << t << " count " << m << " points, they counted " << before[t] << " before one more was trained"); pts[t].push_back({x, y}); }
				else if(cfg.extend == ET_GHOST){
					if(!(i % 5 == 2)) CHECK(mass(root) == before[t] + 1, when << ": the root of tree " << t << " counts " << mass(root) << " points, it counted " << before[t] << " before one more was trained");
					for(int k : trees[t].nodes){ Node& a = f->get_nodes()[k]; if(!a.is_leaf()) for(int l = 0; l < L; ++l) CHECK(a.counters[l] >= f->get_nodes()[a.child_left].counters[l] + f->get_nodes()[a.child_right].counters[l], when << ": the children of node " << k << " count more points than the node itself"); }
					m = mass(root); pts[t].push_back({x, y});
				}else{
					CHECK(m == before[t] || m == before[t] + 1, when << ": the leaves of tree " << t << " count " << m << " points, they counted " << before[t] << " before one more was trained");
					if(m > before[t]) pts[t].push_back({x, y}); else if(cfg.extend == ET_NONE) all = false;
					if(cfg.extend == ET_NONE && m == before[t]) CHECK(count - used <= 2 + 2 * 0 || count - now <= 2, when << ": tree " << t << " dropped a point with " << count - now << " free nodes");
				}
				before[t] = m;
				if(!look); else if(cfg.extend == ET_ORIGINAL || cfg.extend == ET_BARY || cfg.extend == ET_NONE) exact(*f, t, trees[t], pts[t], 2, when.c_str(), cfg.extend == ET_BARY ? 1e-9 * big : 0);
				else if(cfg.extend == ET_PARTIAL) exact(*f, t, trees[t], pts[t], 1, when.c_str());
			}
			CHECK(ok == all, when << ": train returned " << ok << " although " << (all ? "every tree took" : "some tree did not take") << " the point");
			used = now; full |= count - now < 2;
			if(twin){ // no tree is held back before it needs to be
				auto v = walk_all(*unlimited, free_cfg, nested, when.c_str());
				for(auto& u : v) paused |= u.depth > most_depth || (int)u.nodes.size() > most_nodes || (robur && cfg.size == DEPTH_SIZE && u.depth >= most_depth);
				if(paused) twin = false; else for(int t = 0; t < cfg.trees; ++t) CHECK(trees[t].nodes.size() == v[t].nodes.size() && trees[t].depth == v[t].depth, when << ": tree " << t << " has " << trees[t].nodes.size() << " nodes in " << trees[t].depth << " levels, " << v[t].nodes.size() << " in " << v[t].depth << " without a limit");
			}
		}
		c.label_if(full, "memory full"); c.label_if(deepest > 100, "deeper than a hundred levels"); c.label_if(paused, "a limit was reached"); c.label(modes[cfg.manage]); c.label(et_name(cfg.extend)); c.label_if(splits > 5, "more than five splits"); c.nontrivial(splits > 1 && total > 3);
	}
	// F06: trimming removes one leaf of each tree, the one with the fewest points
	static void trim(Ctx& c){
		Gen& g = c.g; Cfg cfg = gen(g, ET_ORIGINAL); static const int tt[] = {TRIM_COUNT, TRIM_COUNT, TRIM_FADING, TRIM_RANDOM}; cfg.trim = tt[g.below(4)]; cfg.limit = -1; static const double mo[] = {1, 1, 1, 0.3, 0.1, 0.02}; cfg.most = mo[g.below(6)]; int count = nodes_of(cfg.trees); if(count < cfg.trees) throw pbt::Discard();
		bool direct = g.below(2); size_t n = direct ? 1 + g.length(60) : 100 + g.below(150); MoData<T, F> data(g, L, DEEP); n = data.points(g, n); if(data.deep()) cfg.lifetime = 50; MoRand::rng() = Rng(g.seed()); MoRand::fixed() = -1; Rng r(g.seed()); bool bulk = n > 40;
		SAY(c, "CoarseMondrianForest<" << mo_type<T>() << "," << F << "," << L << "," << MAX << "> " << cfg.trees << " trees, " << count << " nodes, lifetime " << cfg.lifetime << (cfg.trim == TRIM_COUNT ? " TRIM_COUNT " : cfg.trim == TRIM_FADING ? " TRIM_FADING " : " TRIM_RANDOM ") << "at most " << cfg.most << " " << n << " points");
		Box f(gen_fill(g), cfg); std::vector<std::vector<Point>> pts(cfg.trees); std::vector<Tree> trees = walk_all(*f, cfg, true, "at first"); bool trimmed = false, uneven = false; size_t trained = 0; int deepest = 0;
		for(size_t i = 0; i < n; ++i){
			std::vector<T> x; int y; if(bulk) data.point(r, x, y); else data.point(g, x, y); if(!bulk) SAY(c, " " << show_list(x.begin(), x.end()) << "->" << y);
			int used = 0; for(auto& t : trees) used += (int)t.nodes.size();
			bool now_direct = direct && g.below(4) == 3, expect = now_direct || (trained % 100 == 0 && count - used <= 1); trained += !now_direct; std::vector<std::vector<i64>> lm(cfg.trees); std::vector<std::map<int, double>> score(cfg.trees); std::vector<bool> keeps(cfg.trees);
			for(int t = 0; t < cfg.trees; ++t){
				double sum = 0, least = INFINITY; for(int l : trees[t].leaves){ lm[t].push_back(mass(f->get_nodes()[l])); double v = f->get_nodes()[l].fading_score; score[t][l] = v; CHECK(v >= 0, "a leaf has score " << v); if(cfg.trim == TRIM_COUNT) v = (double)lm[t].back(); sum += v; least = std::min(least, v); }
				if(cfg.trim != TRIM_RANDOM && trees[t].leaves.size()){ keeps[t] = sum > 0 && least / sum > cfg.most; if(sum > 0 && std::fabs(least / sum - cfg.most) < 1e-9) throw pbt::Discard(); } // too many points for a trim
			}
			// the points of every leaf before
			std::vector<std::map<int, std::vector<Point>>> parts(cfg.trees); if(expect) for(int t = 0; t < cfg.trees; ++t) if(trees[t].root >= 0) for(auto& p : pts[t]) parts[t][route(*f, t, p.x)].push_back(p);
			std::string when = "after " + std::to_string(i + 1) + " points"; std::vector<Tree> after;
			if(now_direct){ f->tree_trim(); after = walk_all(*f, cfg, true, (when + " and trimming").c_str()); if(!bulk) SAY(c, " trim"); }
			else { mo_train(*f, x, y); after = walk_all(*f, cfg, true, when.c_str()); }
			for(int t = 0; t < cfg.trees; ++t){
				bool had = trees[t].root >= 0; if(after[t].root < 0){ CHECK(!had, when << ": tree " << t << " lost its root"); continue; }
				bool cut = expect && had && trees[t].nodes.size() > 1 && !keeps[t]; i64 m = leaf_mass(*f, after[t]), old = 0; for(auto v : lm[t]) old += v; int delta = now_direct ? 0 : 1;
				if(!cut){ CHECK(m == old + delta, when << ": the leaves of tree " << t << " count " << m << " points instead of " << old + delta); if(!now_direct) pts[t].push_back({x, y}); }
				else{
					trimmed = true; i64 lost = old + delta - m; auto mn = *std::min_element(lm[t].begin(), lm[t].end()), mx = *std::max_element(lm[t].begin(), lm[t].end()); uneven |= mn < mx;
					if(now_direct) CHECK(after[t].nodes.size() + 2 == trees[t].nodes.size(), when << ": trimming tree " << t << " changed its size from " << trees[t].nodes.size() << " to " << after[t].nodes.size());
					else CHECK(after[t].nodes.size() + 2 == trees[t].nodes.size() || after[t].nodes.size() == trees[t].nodes.size(), when << ": trimming and training tree " << t << " changed its size from " << trees[t].nodes.size() << " to " << after[t].nodes.size());
					if(cfg.trim == TRIM_COUNT) CHECK(lost == mn, when << ": trimming tree " << t << " lost " << lost << " points, its smallest leaf held " << mn);
					// one leaf of that size went, with exactly its points
					bool found = false; std::vector<Point> keep; double least = INFINITY; for(auto& s : score[t]) least = std::min(least, s.second);
					for(auto& part : parts[t]) if((i64)part.second.size() == lost && !found && (cfg.trim != TRIM_FADING || score[t][part.first] <= least + 1e-12)){
						keep.clear(); for(auto& other : parts[t]) if(other.first != part.first) keep.insert(keep.end(), other.second.begin(), other.second.end()); if(!now_direct) keep.push_back({x, y});
						std::map<int, std::vector<int>> cnt; for(auto& p : keep){ auto& v = cnt[route(*f, t, p.x)]; v.resize(L); v[p.y]++; } bool good = true; std::map<int, std::vector<double>> lo, hi; for(auto& p : keep){ int q = route(*f, t, p.x); auto& a = lo[q]; auto& b = hi[q]; if(a.empty()){ a.assign(F, INFINITY); b.assign(F, -INFINITY); } for(int k = 0; k < F; ++k){ a[k] = std::min(a[k], (double)p.x[k]); b[k] = std::max(b[k], (double)p.x[k]); } }
						for(int l : after[t].leaves){ Node& nd = f->get_nodes()[l]; if(lo[l].empty()){ good = false; break; } for(int k = 0; k < F; ++k) good &= nd.bound_lower[k] == lo[l][k] && nd.bound_upper[k] == hi[l][k]; auto& v = cnt[l]; v.resize(L); for(int k = 0; k < L; ++k) good &= f->get_nodes()[l].counters[k] == v[k]; }
						if(good){ found = true; pts[t] = keep; }
					}
					CHECK(found, when << ": trimming tree " << t << " removed " << lost << " points that were not one leaf" << (cfg.trim == TRIM_FADING ? " of the lowest score" : ""));
				}
				exact(*f, t, after[t], pts[t], 1, when.c_str());
				if(cfg.trim == TRIM_FADING && !now_direct && !cut && had){ // scores fade alike, and grow by the new point
					double factor = -1; int q = route(*f, t, x); for(int l : after[t].leaves){ auto s = score[t].find(l); double v = f->get_nodes()[l].fading_score; if(s == score[t].end() || s->second == 0) continue; double k = (v - (l == q ? 1 : 0)) / s->second; if(factor < 0) factor = k; CHECK(k > 0 && k < 1 && std::fabs(k - factor) < 1e-9, when << ": the score of a leaf went from " << s->second << " to " << v << " while others were multiplied by " << factor); }
				}
			}
			trees = after; deepest = std::max(deepest, max_depth(trees));
		}
		c.label_if(deepest > 100, "deeper than a hundred levels"); c.label_if(trimmed && !direct, "trimmed by train"); c.label_if(uneven, "leaves of different sizes"); c.nontrivial(trimmed);
	}
};
template<int WHAT> void coarse_any(Ctx& c){
#define CO(...) (WHAT == 1 ? Coarse<__VA_ARGS__>::structure(c) : Coarse<__VA_ARGS__>::trim(c))
	switch(c.g.below(9)){
		case 7: if(c.g.flip()) return CO(signed char, 3, 2, 3000); return CO(short, 2, 3, 5000); case 0: return CO(double, 2, 2, 3000); case 1: return CO(double, 1, 3, 900); case 2: return CO(float, 3, 3, 5001); case 3: return CO(int, 2, 4, 2000);
		case 4: if(c.g.below(8) == 7){ if(c.g.flip()) return CO(double, 1, 2, 50000); return CO(float, 2, 3, 60000); } return CO(double, 5, 2, 8000); case 5: return CO(double, 2, 2, 1200); case 6: return CO(float, 1, 2, 700); default: return CO(double, 3, 3, 12000);
	}
}

inline bool mo_same(double a, double b){ return a == b || (a != a && b != b) || std::fabs(a - b) <= 1e-9 * (1e-3 + std::fabs(a) + std::fabs(b)); }
template<class A, class B, class T> void mo_compare(A& a, B& b, std::vector<T> const& q, int L, std::string const& when, const char* na, const char* nb){
	std::vector<double> sa, sb; int la = mo_predict(a, q, &sa, L), lb = mo_predict(b, q, &sb, L); bool tie = false;
	for(int l = 0; l < L; ++l){ CHECK(mo_same(sa[l], sb[l]), when << ": label " << l << " of " << show_list(q.begin(), q.end()) << " scores " << sa[l] << " in the " << na << " forest and " << sb[l] << " in the " << nb << " one"); if(l != la && mo_same(sa[l], sa[la])) tie = true; }
	CHECK(tie || la == lb, when << ": the " << na << " forest predicts " << la << ", the " << nb << " one " << lb);
}
// The number of nodes a bounded forest holds, from the sizes of its class.
template<class T, int TREES, int F, int L> struct BoundedSizes {
	template<int M> using B = MondrianForest<T, MoFunc, TREES, F, L, M>;
	template<size_t... I> static std::vector<size_t> table(std::index_sequence<I...>){ return std::vector<size_t>{sizeof(B<(int)(8 * (I + 1))>)...}; }
	// bytes of one node: the smallest memory (a multiple of 8) that makes the class larger
	static int node(){ static int v = []{ auto t = table(std::make_index_sequence<48>()); for(size_t i = 1; i < t.size(); ++i) if(t[i] > t[0]) return (int)(t[i] - t[0]); return 0; }(); return v; }
	template<int M> static int nodes(){ int k = node(); return k ? (int)((sizeof(B<M>) - sizeof(B<8>)) / k) : -1; }
};
// F03 and F02: the three forests are one algorithm under three memory policies
template<class T, int F, int L, int TREES, int MAX> struct Three {
	typedef MondrianForest<T, MoFunc, TREES, F, L, MAX> Bounded; typedef MondrianForestUnbound<T, MoFunc, F, L> Unbound; typedef BoundedSizes<T, TREES, F, L> Sizes;
	typedef Coarse<T, F, L, MAX + TREES * 200 + 4096> C;
	struct Setup { double lifetime, base, discount; MoData<T, F> data; size_t n; bool bulk; Rng r; unsigned char f1, f2; Setup(Gen& g) : data(g, L, C::DEEP && g.below(32) == 31), r(1) { static const double lt[] = {0.1, 0.5, 1, 2, 5, 0.02}; lifetime = lt[g.below(6)]; base = g.below(2) ? 0.5 : 0.0; static const double d[] = {0.1, 0.9, 0.01, 0.5}; discount = d[g.below(4)]; n = data.points(g, g.length(g.below(4) == 3 ? 120 : 40)); if(data.deep()) lifetime = 50; bulk = n > 30; r = Rng(g.seed()); f1 = gen_fill(g); f2 = gen_fill(g); } };
	static void next(Gen& g, Setup& s, std::vector<T>& x, int& y){ if(s.bulk) s.data.point(s.r, x, y); else s.data.point(g, x, y); static const double special[] = {0, 0.5, 1 - 1e-9, 1e-9, 0.25, 0.75, 0.5, 0.5}; MoRand::fixed() = s.r.below(3) ? s.r.unit() * (1 - 1e-9) : special[s.r.below(8)]; }
	template<class X, class Y> static void queries(Setup& s, X& a, Y& b, std::vector<T> const& x, std::string const& when, const char* na, const char* nb){
		for(int k = 0; k < 4; ++k){ std::vector<T> q = x; int y; if(k) s.data.point(s.r, q, y); if(k == 2) for(auto& v : q) v = mo_clip<T>((double)v * 3); mo_compare(a, b, q, L, when, na, nb); }
	}
	static std::string name(){ return mo_type<T>() + "," + std::to_string(F) + " features," + std::to_string(L) + " labels," + std::to_string(TREES) + " trees"; }
	// with enough memory
	static void same(Ctx& c){
		Gen& g = c.g; Setup s(g); int room = Sizes::template nodes<MAX>();
		typename C::Cfg cfg{s.lifetime, s.base, s.discount, TREES, -1, (int)(g.below(3) ? ET_ORIGINAL : g.below(2) ? ET_BARY : ET_COUNTER), 0};
		if(s.data.deep()) cfg.extend = ET_ORIGINAL; Boxed<Bounded> b(s.f1, s.lifetime, s.base, s.discount); Boxed<Unbound> u(s.f2, s.lifetime, s.base, s.discount, TREES); typename C::Box k(s.f2, cfg); bool splits = false; int deepest = 0;
		SAY(c, name() << " " << et_name(cfg.extend) << " lifetime " << s.lifetime << " base " << s.base << " discount " << s.discount << ":");
		for(size_t i = 0; i < s.n; ++i){
			std::vector<T> x; int y; next(g, s, x, y); if(cfg.extend != ET_ORIGINAL) MoRand::fixed() = 1e-6 + s.r.unit() * 0.99; /* no two split times are equal; the box of ET_BARY is extended by a sum that may round, never split there */ double fixed = MoRand::fixed(); if(!s.bulk) SAY(c, " " << show_list(x.begin(), x.end()) << "->" << y << " (" << fixed << ")");
			bool a = mo_train(*b, x, y), d = mo_train(*u, x, y), e = mo_train(*k, x, y);
			auto trees = C::walk_all(*k, cfg, false, "training"); int used = 0; for(auto& t : trees) used += (int)t.nodes.size(); splits |= used > TREES; deepest = std::max(deepest, C::max_depth(trees));
			if((room > 0 && used + 2 > room) || used + 2 > C::nodes_of(TREES)) break; // the memory may have been short
			CHECK(a && d && e, "train failed with memory left, after " << i + 1 << " points: " << a << d << e);
			std::string when = "after " + std::to_string(i + 1) + " points";
			queries(s, *k, *b, x, when, "coarse", "memory-bounded"); queries(s, *k, *u, x, when, "coarse", "unbounded");
		}
		MoRand::fixed() = -1; c.label_if(splits, "split"); c.label_if(deepest > 100, "deeper than a hundred levels"); c.nontrivial(splits && s.n > 3);
	}
	// with the same, small, number of nodes
	template<int N> static void bounded(Ctx& c){
		constexpr int CMAX = N * (int)sizeof(MondrianNode<F, L>) + TREES * (int)sizeof(typename Coarse<T, F, L, 100000>::Base); typedef Coarse<T, F, L, CMAX> K;
		Gen& g = c.g; Setup s(g); typename K::Cfg cfg{s.lifetime, s.base, s.discount, TREES, -1, ET_ORIGINAL, 0}; int room = Sizes::template nodes<MAX>();
		CHECK(sizeof(Bounded) <= (size_t)MAX + 8 * TREES + 128, "a forest that may use " << MAX << " bytes has " << sizeof(Bounded)); CHECK(room < 0 || room * Sizes::node() <= MAX, "the nodes take more than " << MAX << " bytes");
		if(room != N || K::nodes_of(TREES) != N) throw pbt::Discard();
		Boxed<Bounded> b(s.f1, s.lifetime, s.base, s.discount), other(s.f2, s.lifetime, s.base, s.discount); typename K::Box k(s.f2, cfg); bool full = false;
		SAY(c, name() << " sharing " << N << " nodes, lifetime " << s.lifetime << " base " << s.base << " discount " << s.discount << ":");
		for(size_t i = 0; i < s.n; ++i){
			std::vector<T> x; int y; next(g, s, x, y); if(!s.bulk) SAY(c, " " << show_list(x.begin(), x.end()) << "->" << y << " (" << MoRand::fixed() << ")");
			bool a = mo_train(*b, x, y), e = mo_train(*k, x, y); if(i % 2) mo_train(*other, x, y);
			auto trees = K::walk_all(*k, cfg, false, "training"); int used = 0; for(auto& t : trees) used += (int)t.nodes.size(); full |= used + 1 >= N;
			bool rooted = true; for(auto& t : trees) rooted &= t.root >= 0;
			CHECK(a == rooted && e == rooted, "after " << i + 1 << " points train returned " << a << " and " << e << ", every tree has " << (rooted ? "a root" : "no root"));
			queries(s, *k, *b, x, "after " + std::to_string(i + 1) + " points, " + std::to_string(used) + " of " + std::to_string(N) + " nodes used", "coarse", "memory-bounded");
		}
		MoRand::fixed() = -1; c.label_if(full, "memory full"); c.nontrivial(full);
	}
	// whatever the memory
	static void survives(Ctx& c){
		Gen& g = c.g; Setup s(g); MoRand::fixed() = -1; MoRand::rng() = Rng(g.seed()); s.n *= 3; Boxed<Bounded> b(s.f1, s.lifetime, s.base, s.discount); bool ok0 = true; int room = Sizes::template nodes<MAX>();
		SAY(c, name() << " in " << MAX << " bytes, lifetime " << s.lifetime << ", " << s.n << " points");
		for(size_t i = 0; i < s.n; ++i){
			std::vector<T> x; int y; s.data.point(s.r, x, y); bool ok = mo_train(*b, x, y); if(i == 0) ok0 = ok; if(room > 0) CHECK(ok == (room >= TREES), "train returned " << ok << " for point " << i + 1 << " of a forest with " << room << " nodes for " << TREES << " trees"); if(i) CHECK(ok == ok0, "train returned " << ok << " for point " << i + 1);
			std::vector<double> sc; int l = mo_predict(*b, x, &sc, L); CHECK(l >= 0 && l < L, "label " << l << " predicted"); for(double v : sc) CHECK(std::isfinite(v), "score " << v);
		}
		c.nontrivial(s.n > 5);
	}
};

// F04: predictions change nothing and are well formed
template<class T, int F, int L> struct Pure {
	template<class M> static void run(Ctx& c, M& a, M& b, double base, std::string const& name, bool* learned){
		Gen& g = c.g; MoData<T, F> data(g, L); size_t n = g.length(g.below(4) == 3 ? 150 : 40); Rng r(g.seed()); bool bulk = n > 30; MoRand::fixed() = -1; SAY(c, name << ":"); std::vector<std::vector<T>> qs;
		for(size_t i = 0; i <= n; ++i){
			std::vector<T> x; int y; if(bulk) data.point(r, x, y); else data.point(g, x, y);
			if(i){ u64 s = r.next(); MoRand::rng() = Rng(s); bool o1 = mo_train(a, x, y); MoRand::rng() = Rng(s); bool o2 = mo_train(b, x, y); CHECK(o1 == o2, "train returned " << o1 << " for a forest that was asked for predictions in between, " << o2 << " for one that was not"); if(!bulk) SAY(c, " " << show_list(x.begin(), x.end()) << "->" << y); }
			int k = (int)r.below(4);
			for(int j = 0; j < k || i == 0; ++j){
				std::vector<T> q; int z; data.point(r, q, z); if(j == 0) q = x; if(j == 2) for(auto& v : q) v = mo_clip<T>((double)v * 50); std::vector<double> s1, s2; int l1 = mo_predict(a, q, &s1, L), l2 = mo_predict(a, q, nullptr, L), l3 = mo_predict(a, q, &s2, L); qs.push_back(q);
				CHECK(l1 >= 0 && l1 < L, "label " << l1 << " predicted after " << i << " points"); CHECK(l1 == l2 && l1 == l3, "the same features are given labels " << l1 << ", " << l2 << " and " << l3 << " in a row");
				for(int l = 0; l < L; ++l){ CHECK(std::isfinite(s1[l]), "label " << l << " scores " << s1[l] << " after " << i << " points"); CHECK(s1[l] == s2[l], "the same features score " << s1[l] << " and " << s2[l] << " in a row"); CHECK(s1[l] <= s1[l1], "label " << l1 << " with score " << s1[l1] << " is predicted, label " << l << " scores " << s1[l]); }
				if(i == 0){ for(int l = 0; l < L; ++l) CHECK(mo_same(s1[l], base), "an untrained forest gives label " << l << " score " << s1[l] << ", its base measure is " << base); break; }
			}
		}
		for(auto& q : qs) mo_compare(a, b, q, L, "after " + std::to_string(n) + " points", "often asked", "never asked");
		*learned = n > 2 && qs.size() > 3;
	}
};
template<class T, int F, int L, int TREES, int MAX> void mo_purity(Ctx& c){
	Gen& g = c.g; static const double lt[] = {0.1, 0.5, 1, 2, 5, 0.02}; double lifetime = lt[g.below(6)], base = g.below(2) ? 0.5 : 0.0, discount = g.below(2) ? 0.1 : 0.9; unsigned char f1 = gen_fill(g), f2 = gen_fill(g); bool ok = false; std::string what = mo_type<T>() + "," + std::to_string(F) + "," + std::to_string(L);
	switch(g.below(4)){
		case 0: { typedef MondrianForest<T, MoFunc, TREES, F, L, MAX> M; Boxed<M> a(f1, lifetime, base, discount), b(f2, lifetime, base, discount); Pure<T, F, L>::run(c, *a, *b, base, "MondrianForest<" + what + "," + std::to_string(MAX) + ">", &ok); break; }
		case 1: { typedef MondrianForestUnbound<T, MoFunc, F, L> M; Boxed<M> a(f1, lifetime, base, discount, TREES), b(f2, lifetime, base, discount, TREES); Pure<T, F, L>::run(c, *a, *b, base, "MondrianForestUnbound<" + what + ">", &ok); break; }
		default: { typedef Coarse<T, F, L, MAX> K; typename K::Cfg cfg = K::gen(g, (int)g.below(6)); cfg.lifetime = std::min(lifetime, 2.0); cfg.base = base; cfg.discount = discount; cfg.trees = TREES; if(g.below(3) == 2){ cfg.trim = 1 + (int)g.below(3); K::options(g, cfg); } if(cfg.limit < 0) cfg.limit = 60; if(K::nodes_of(TREES) < 1) throw pbt::Discard(); typename K::Box a(f1, cfg), b(f2, cfg); c.label(et_name(cfg.extend)); Pure<T, F, L>::run(c, *a, *b, base, "CoarseMondrianForest<" + what + "," + std::to_string(MAX) + "> " + K::show_options(cfg), &ok); }
	}
	c.nontrivial(ok);
}
// F07: a tree is a sample of the Mondrian process on its data
template<class T, int F, int MAX> void mo_process(Ctx& c){
	typedef Coarse<T, F, 2, MAX> K; Gen& g = c.g; static const double lt[] = {0.5, 1, 2, 0.1, 5}; typename K::Cfg cfg{lt[g.below(5)], 0.5, 0.1, 1, -1, (int)(g.below(3) ? ET_ORIGINAL : ET_BARY), 0}; int n = 2 + (int)g.below(5); std::vector<std::vector<T>> pts; double unit = std::pow(2.0, -(double)g.below(4));
	std::vector<double> lo(F, INFINITY), hi(F, -INFINITY); MoData<T, F> data(g, 2); bool wide = data.style == 6;
	for(int i = 0; i < n; ++i){ std::vector<T> x(F); int y; if(wide) data.point(g, x, y); for(int f = 0; f < F; ++f){ if(!wide) x[f] = (T)((double)g.below(9) * (std::numeric_limits<T>::is_integer ? 1 : unit) - (g.below(2) ? 2 : 0)); lo[f] = std::min(lo[f], (double)x[f]); hi[f] = std::max(hi[f], (double)x[f]); } pts.push_back(x); }
	double W = 0; for(int f = 0; f < F; ++f) W += hi[f] - lo[f]; if(W == 0) throw pbt::Discard();
	if(!std::numeric_limits<T>::is_integer || g.below(2)) cfg.lifetime = cfg.lifetime / W * 2;
	SAY(c, "one tree of lifetime " << cfg.lifetime << " trained " << (c.slow ? 40000 : 8000) << " times with"); for(auto& x : pts) SAY(c, " " << show_list(x.begin(), x.end()));
	int reps = c.slow ? 40000 : 8000; MoRand::rng() = Rng(g.seed()); MoRand::fixed() = -1; std::vector<std::vector<double>> split(F); int none = 0; std::vector<double> when; std::vector<double> dims(F), expect(F);
	for(int k = 0; k < reps; ++k){
		typename K::Box f(0, cfg); for(auto& x : pts) mo_train(*f, x, 0); auto* nd = f->get_nodes(); auto& root = nd[f->get_bases()[0].root];
		if(root.is_leaf()) ++none; else { int d = root.split_dimension; CHECK(d >= 0 && d < F, "splits on feature " << d); CHECK(hi[d] > lo[d], "splits on feature " << d << " on which all points agree"); dims[d]++; split[d].push_back((root.split_value - lo[d]) / (hi[d] - lo[d])); when.push_back(root.tau); }
	}
	double p0 = std::exp(-cfg.lifetime * W); CHECK(binom_tail(none, reps, p0) > P_MIN, none << " of " << reps << " trees have no split, " << p0 * reps << " are expected");
	double ns = reps - none; for(int f = 0; f < F; ++f) expect[f] = ns * (hi[f] - lo[f]) / W; for(int f = 0; f < F; ++f) CHECK(binom_tail(dims[f], ns, expect[f] / ns) > P_MIN, dims[f] << " of " << ns << " first splits are on feature " << f << ", " << expect[f] << " are expected");
	for(int f = 0; f < F; ++f){ auto& v = split[f]; std::sort(v.begin(), v.end()); double d = 0; for(size_t i = 0; i < v.size(); ++i) d = std::max(d, std::max(std::fabs(v[i] - (double)i / v.size()), std::fabs((i + 1.0) / v.size() - v[i]))); CHECK(v.empty() || dkw(d, (double)v.size()) > P_MIN, "the first splits on feature " << f << " are not uniform over the range of its data (distance " << d << " over " << v.size() << " splits)"); }
	std::sort(when.begin(), when.end()); double d = 0, z = 1 - p0; for(size_t i = 0; i < when.size(); ++i){ double q = (1 - std::exp(-when[i] * W)) / z; d = std::max(d, std::max(std::fabs(q - (double)i / when.size()), std::fabs((i + 1.0) / when.size() - q))); }
	CHECK(when.empty() || dkw(d, (double)when.size()) > P_MIN, "the times of the first splits do not follow an exponential law of rate " << W << " (distance " << d << " over " << when.size() << " splits)");
	c.label_if(n > 2, "more than two points"); c.nontrivial(ns > 200);
}
// the forests whose trees cannot be seen predict like the one whose trees can
template<class T, int F, int MAX> void mo_law(Ctx& c){
	typedef Coarse<T, F, 2, MAX> K; Gen& g = c.g; static const double lt[] = {0.5, 1, 2, 0.2}; typename K::Cfg cfg{lt[g.below(4)], 0.5, 0.1, 1, -1, ET_ORIGINAL, 0}; int n = 2 + (int)g.below(5); std::vector<std::vector<T>> pts; std::vector<int> ys; double W = 0;
	for(int i = 0; i < n; ++i){ std::vector<T> x(F); for(int f = 0; f < F; ++f){ x[f] = (T)g.below(9); W = std::max(W, std::fabs((double)x[f] - (double)pts.empty() * 0)); } pts.push_back(x); ys.push_back(i < 2 ? i : (int)g.below(2)); }
	cfg.lifetime /= std::max(1.0, W / 3); std::vector<T> q(F); for(auto& v : q) v = (T)g.below(10); int reps = c.slow ? 20000 : 3000; u64 seed = g.seed();
	SAY(c, "one tree of lifetime " << cfg.lifetime << " trained " << reps << " times with"); for(int i = 0; i < n; ++i) SAY(c, " " << show_list(pts[i].begin(), pts[i].end()) << "->" << ys[i]); SAY(c, ", asked for " << show_list(q.begin(), q.end()));
	std::vector<double> out[3]; std::vector<double> label[3]; MoRand::fixed() = -1;
	auto one = [&](auto& m, int w){ for(int i = 0; i < n; ++i) mo_train(m, pts[i], ys[i]); std::vector<double> s; int l = mo_predict(m, q, &s, 2); out[w].push_back(s[0]); label[w].push_back(l); };
	MoRand::rng() = Rng(seed); for(int k = 0; k < reps; ++k){ typename K::Box f(0, cfg); one(*f, 0); }
	for(int k = 0; k < reps; ++k){ MondrianForest<T, MoFunc, 1, F, 2, MAX> f(cfg.lifetime, cfg.base, cfg.discount); one(f, 1); }
	for(int k = 0; k < reps; ++k){ MondrianForestUnbound<T, MoFunc, F, 2> f(cfg.lifetime, cfg.base, cfg.discount, 1); one(f, 2); }
	std::sort(out[0].begin(), out[0].end()); double spread = out[0].back() - out[0][0];
	for(int w = 1; w < 3; ++w){
		std::sort(out[w].begin(), out[w].end()); double d = 0; size_t j = 0, i = 0; // two-sample distance
		while(i < out[0].size() && j < out[w].size()){ double v = std::min(out[0][i], out[w][j]); while(i < out[0].size() && out[0][i] <= v + 1e-12) ++i; while(j < out[w].size() && out[w][j] <= v + 1e-12) ++j; d = std::max(d, std::fabs((double)i / out[0].size() - (double)j / out[w].size())); }
		CHECK(dkw(d / 2, reps) > P_MIN / 2, "the scores of the " << (w == 1 ? "memory-bounded" : "unbounded") << " forest are distributed unlike those of the coarse one (distance " << d << " over " << reps << " trees)");
	}
	c.nontrivial(spread > 1e-6);
}
// F08: the scores are the posterior means of the trees
template<class T, int F, int L, int MAX> struct Scores {
	typedef Coarse<T, F, L, MAX> K; typedef typename K::Node Node;
	// the posterior mean of one tree, from its splits, boxes and the counts of its leaves
	static std::vector<long double> tree(typename K::Forest& f, int t, typename K::Cfg const& c, std::vector<T> const& q, bool ghost, bool& outside){
		Node* n = f.get_nodes(); std::vector<long double> mean(L, c.base), out(L, 0); int i = f.get_bases()[t].root; if(i < 0) return mean;
		std::map<int, std::vector<long double>> count; std::vector<std::pair<int, bool>> todo{{i, false}};
		while(!todo.empty()){ // children before their parents
			auto [k, done] = todo.back(); todo.pop_back(); Node& a = n[k];
			if(a.is_leaf() || ghost){ count[k].assign(a.counters, a.counters + L); if(a.is_leaf()) continue; }
			if(!done){ todo.push_back({k, true}); todo.push_back({a.child_left, false}); todo.push_back({a.child_right, false}); continue; }
			if(ghost) continue; auto& v = count[k]; v.assign(L, 0); for(int l = 0; l < L; ++l) v[l] = (count[a.child_left][l] > 0) + (count[a.child_right][l] > 0);
		}
		long double before = 0, reach = 1; // the time of the parent, the probability that the query has not branched off
		for(;;){
			Node& a = n[i]; auto& m = count[i]; long double delta = (long double)a.tau - before, eta = 0, sum = 0, tab = 0; for(int l = 0; l < L; ++l){ sum += m[l]; tab += m[l] > 0; }
			for(int k = 0; k < F; ++k){ if((double)q[k] > a.bound_upper[k]) eta += (long double)q[k] - a.bound_upper[k]; if((double)q[k] < a.bound_lower[k]) eta += (long double)a.bound_lower[k] - q[k]; }
			long double branch = -std::expm1(-delta * eta);
			if(branch > 0){ outside = true; long double d = eta / (eta + c.discount) * std::expm1(-(eta + c.discount) * delta) / std::expm1(-eta * delta); for(int l = 0; l < L; ++l) out[l] += reach * branch * (sum > 0 ? (m[l] > 0) / tab * (1 - d) + d * mean[l] : mean[l]); }
			long double d = std::exp(-(long double)c.discount * delta); for(int l = 0; l < L; ++l) if(m[l] > 0) mean[l] = (m[l] - d + d * tab * mean[l]) / sum;
			if(a.is_leaf()){ for(int l = 0; l < L; ++l) out[l] += reach * (1 - branch) * mean[l]; return out; }
			reach *= 1 - branch; before = a.tau; i = q[a.split_dimension] <= a.split_value ? a.child_left : a.child_right;
		}
	}
	template<class M> static void in_range(M& m, std::vector<T> const& q, int only, double base, std::string const& when){
		std::vector<double> s; int p = mo_predict(m, q, &s, L); for(int l = 0; l < L; ++l){ CHECK(s[l] >= -1e-9 && s[l] <= 1 + 1e-9, when << ": label " << l << " of " << show_list(q.begin(), q.end()) << " scores " << s[l]); if(only >= 0){ CHECK(s[l] <= s[only] + 1e-9, when << " of label " << only << " only, label " << l << " scores " << s[l] << ", label " << only << " scores " << s[only]); if(l != only) CHECK(std::fabs(s[l] - base) < 1e-9 || s[l] < base, when << ": label " << l << ", of which there is no point, scores " << s[l] << ", the base measure is " << base); } }
		if(only >= 0) for(int l = 0; l < L; ++l) CHECK(s[p] >= s[l] - 1e-12, when << ": label " << p << " is predicted");
	}
	static void run(Ctx& c){
		Gen& g = c.g; typename K::Cfg cfg = K::gen(g, (int)g.below(6)); cfg.trim = g.below(4) ? 0 : 1 + (int)g.below(3); if(cfg.trim) K::options(g, cfg);
#ifdef UNBOUND_OPTIMIZE
		cfg.trim = 0; // not supported by that build
#endif
		if(cfg.limit < 0) cfg.limit = 60; static const double bases[] = {0, 0.5, 1.0 / L, 1, 0.9, 0.0001}; cfg.base = bases[g.below(6)]; static const double ds[] = {0, 0.1, 0.9, 5, 0.01, 40}; cfg.discount = ds[g.below(6)];
		if(K::nodes_of(cfg.trees) < 1) throw pbt::Discard();
		size_t n = g.length(g.below(4) == 3 ? 150 : 40); MoData<T, F> data(g, L, K::DEEP); n = data.points(g, n); if(data.deep()) cfg.lifetime = 50; MoRand::rng() = Rng(g.seed()); MoRand::fixed() = -1; Rng r(g.seed()); bool bulk = n > 30, out = false, split = false; int only = g.below(5) == 4 ? (int)g.below(L) : -1;
		SAY(c, "CoarseMondrianForest<" << mo_type<T>() << "," << F << "," << L << "," << MAX << "> " << cfg.trees << " trees, lifetime " << cfg.lifetime << ", base " << cfg.base << ", discount " << cfg.discount << ", " << K::show_options(cfg) << ":");
		typename K::Box f(gen_fill(g), cfg); bool ghost = cfg.extend == ET_GHOST; size_t queries = 0;
		for(size_t i = 0; i < n; ++i){
			std::vector<T> x; int y; if(bulk) data.point(r, x, y); else data.point(g, x, y); if(only >= 0) y = only; if(!bulk) SAY(c, " " << show_list(x.begin(), x.end()) << "->" << y);
			mo_train(*f, x, y); if(cfg.trim && r.below(6) == 0) f->tree_trim(); auto trees = K::walk_all(*f, cfg, false, "training"); for(auto& t : trees) split |= t.nodes.size() > 1;
			std::string when = "after " + std::to_string(i + 1) + " points"; size_t k = i % 3 ? 1 : 3;
			while(k--){
				std::vector<T> q = x; int z; if(r.below(3)) data.point(r, q, z); if(r.below(3) == 0) for(auto& v : q) v = mo_clip<T>((double)v * 1.5 + 1); if(r.below(10) == 0) for(auto& v : q) v = mo_clip<T>((double)v * 100);
				std::vector<double> s; mo_predict(*f, q, &s, L); std::vector<long double> want(L, 0); for(int t = 0; t < cfg.trees; ++t){ auto v = tree(*f, t, cfg, q, ghost, out); for(int l = 0; l < L; ++l) want[l] += v[l] / cfg.trees; }
				if(!bulk) SAY(c, " ask " << show_list(q.begin(), q.end())); ++queries;
				if(r.below(4) == 0){ // the first trees only
					int use = 1 + (int)r.below(cfg.trees); std::vector<long double> first(L, 0); std::vector<double> some(L, -99); for(int t = 0; t < use; ++t){ auto v = tree(*f, t, cfg, q, ghost, out); for(int l = 0; l < L; ++l) first[l] += v[l] / use; }
					int p = f->predict(q.data(), some.data(), use); for(int l = 0; l < L; ++l){ CHECK(std::fabs(some[l] - first[l]) <= 1e-8, when << ": label " << l << " of " << show_list(q.begin(), q.end()) << " scores " << some[l] << " in the first " << use << " trees, the mean of its posterior means there is " << (double)first[l]); CHECK(some[p] >= some[l], when << ": the first " << use << " trees predict label " << p); }
				}
				for(int l = 0; l < L; ++l) CHECK(std::fabs(s[l] - want[l]) <= 1e-8, when << ": label " << l << " of " << show_list(q.begin(), q.end()) << " scores " << s[l] << ", the mean of its posterior means in the trees is " << (double)want[l]);
				in_range(*f, q, ghost ? -1 : only, cfg.base, when);
			}
		}
		c.label(et_name(cfg.extend)); c.label_if(only >= 0, "one label only"); c.label_if(out, "a query outside of a box"); c.nontrivial(split && queries > 3);
	}
	// the forests whose trees cannot be seen: a coarse forest with the same random numbers shows what their trees are
	template<int TREES, int SMALL> static void hidden(Ctx& c){
		Gen& g = c.g; static const double lt[] = {0.1, 0.5, 1, 2, 5, 0.02, 20}; double lifetime = lt[g.below(7)]; static const double bases[] = {0, 0.5, 1.0 / L, 1, 0.9, 0.0001}; double base = bases[g.below(6)]; static const double ds[] = {0, 0.1, 0.9, 5, 0.01, 40}; double discount = ds[g.below(6)];
		typedef Coarse<T, F, L, SMALL + TREES * 200 + 4096> Big; typename Big::Cfg cfg{lifetime, base, discount, TREES, -1, ET_ORIGINAL, 0}; int room = BoundedSizes<T, TREES, F, L>::template nodes<SMALL>();
		size_t n = g.length(60); MoData<T, F> data(g, L); u64 seed = g.seed(); Rng r(g.seed()); int only = g.below(3) == 2 ? (int)g.below(L) : -1, numbers = (int)g.below(4); bool unbound = g.below(2), twin = only < 0 || g.flip(), split = false, out = false; c.label(unbound ? "unbounded" : "memory-bounded"); c.label_if(only >= 0, "one label only");
		SAY(c, (unbound ? "MondrianForestUnbound<" : "MondrianForest<") << mo_type<T>() << "," << F << "," << L << "> " << TREES << " trees, lifetime " << lifetime << ", base " << base << ", discount " << discount << (numbers == 3 ? ", random:" : ":"));
		Boxed<MondrianForest<T, MoFunc, TREES, F, L, SMALL>> b(gen_fill(g), lifetime, base, discount); Boxed<MondrianForestUnbound<T, MoFunc, F, L>> u(gen_fill(g), lifetime, base, discount, TREES); typename Big::Box k(gen_fill(g), cfg);
		static const double dyadic[] = {0.5, 0.25, 0.75, 0, 0.5, 0.125, 0.875, 0.5};
		for(size_t i = 0; i < n; ++i){
			std::vector<T> x; int y; data.point(g, x, y); if(only >= 0) y = only; double fixed = numbers == 3 ? -1 : numbers == 2 ? r.unit() * (1 - 1e-9) : dyadic[r.below(8)]; MoRand::fixed() = fixed;
			SAY(c, " " << show_list(x.begin(), x.end()) << "->" << y); if(fixed >= 0) SAY(c, " (" << fixed << ")");
			MoRand::rng() = Rng(seed + i); if(unbound) mo_train(*u, x, y); else mo_train(*b, x, y); std::string when = "after " + std::to_string(i + 1) + " points";
			if(twin){
				MoRand::rng() = Rng(seed + i); mo_train(*k, x, y); auto trees = Big::walk_all(*k, cfg, false, "training"); int used = 0; for(auto& t : trees){ used += (int)t.nodes.size(); split |= t.nodes.size() > 1; }
				if(used + 2 > Big::nodes_of(TREES) || (!unbound && (room <= 0 || used + 2 > room))) twin = false; // the memory may have been short from here
			}
			for(int j = 0; j < 2; ++j){
				std::vector<T> q = x; int z; if(j) data.point(r, q, z); if(r.below(3) == 0) for(auto& v : q) v = mo_clip<T>((double)v * 1.5 + 1); if(unbound) in_range(*u, q, only, base, when); else in_range(*b, q, only, base, when);
				if(!twin) continue;
				std::vector<double> s; if(unbound) mo_predict(*u, q, &s, L); else mo_predict(*b, q, &s, L); std::vector<long double> want(L, 0); for(int t = 0; t < TREES; ++t){ auto v = Scores<T, F, L, SMALL + TREES * 200 + 4096>::tree(*k, t, cfg, q, false, out); for(int l = 0; l < L; ++l) want[l] += v[l] / TREES; }
				for(int l = 0; l < L; ++l) CHECK(std::fabs(s[l] - want[l]) <= 1e-8, when << ": label " << l << " of " << show_list(q.begin(), q.end()) << " scores " << s[l] << ", the mean of its posterior means in the trees is " << (double)want[l]);
			}
		}
		MoRand::fixed() = -1; c.label_if(split, "a split tree compared"); c.label_if(out, "a query outside of a box"); c.nontrivial(n > 3);
	}
};
#endif
