#ifndef H_COARSE_HPP
#define H_COARSE_HPP
#include "h_mondrian.hpp"

// F09: splitting and trimming existing trees keeps their points
template<class T, int F, int L, int MAX> struct Splits {
	typedef Coarse<T, F, L, MAX> K; typedef typename K::Cfg Cfg;
	static void run(Ctx& c){
		Gen& g = c.g; Cfg cfg = K::gen(g, ET_BARY); cfg.limit = g.below(5) ? -1 : 2 + (int)g.below(8); K::options(g, cfg); cfg.extend = g.below(8) ? (int)ET_BARY : (int)ET_COUNTER; cfg.trim = 1 + (int)g.below(3); if(g.below(4) == 3) cfg.manage = (int)g.below(5); if(g.below(6) == 5) cfg.most = 0.3;
		int count = K::nodes_of(cfg.trees); if(count < 3) throw pbt::Discard();
		size_t n = g.length(g.below(3) == 2 ? 400 : 120); MoData<T, F> data(g, L, K::DEEP); n = data.points(g, n); if(data.deep()) cfg.lifetime = 50; Rng r(g.seed()); bool bulk = n > 40, special = g.below(3) == 2; MoRand::rng() = Rng(g.seed()); MoRand::fixed() = -1; int direct = 2 + (int)g.below(20); bool again = g.flip();
		SAY(c, "CoarseMondrianForest<" << mo_type<T>() << "," << F << "," << L << "," << MAX << "> " << cfg.trees << " trees, " << count << " nodes, lifetime " << cfg.lifetime << ", limit " << cfg.limit << ", " << K::show_options(cfg) << ":");
		typename K::Box f(gen_fill(g), cfg); std::vector<typename K::Tree> trees = K::walk_all(*f, cfg, false, "at first"); bool trimmed = false, late = false; int full = 0, deepest = 0; static const double sp[] = {0, 0.5, 0.25, 0.75, 1e-9, 1 - 1e-9};
		auto masses = [&](std::vector<typename K::Tree> const& v){ std::vector<std::vector<i64>> m(cfg.trees); for(int t = 0; t < cfg.trees; ++t) for(int l : v[t].leaves) m[t].push_back(K::mass(f->get_nodes()[l])); return m; };
		auto per_label = [&](typename K::Tree const& v){ std::vector<i64> m(L); for(int i : v.leaves) for(int l = 0; l < L; ++l) m[l] += f->get_nodes()[i].counters[l]; return m; };
		for(size_t i = 0; i < n; ++i){
			std::vector<T> x; int y; if(bulk) data.point(r, x, y); else data.point(g, x, y); if(again && r.below(3) == 0) for(auto& v : x) v = mo_clip<T>((double)v * 2 + 3);
			auto before = masses(trees); std::vector<std::vector<i64>> labels; for(auto& t : trees) labels.push_back(per_label(t)); int used = 0; for(auto& t : trees) used += (int)t.nodes.size();
			if(special) MoRand::fixed() = r.below(3) ? r.unit() * (1 - 1e-9) : sp[r.below(6)];
			bool cut = r.below(direct) == 0, train_cuts = !cut && i % 100 == 0; std::string when = "after " + std::to_string(i + 1) + " points"; bool ok = true;
			if(cut){ f->tree_trim(); when += " and trimming"; --i; --n; if(!bulk) SAY(c, " trim"); }
			else { ok = mo_train(*f, x, y); if(!bulk) SAY(c, " " << show_list(x.begin(), x.end()) << "->" << y); }
			auto after = K::walk_all(*f, cfg, false, when.c_str()); auto m = masses(after); int now = 0; for(auto& t : after) now += (int)t.nodes.size(); full += now + 1 >= count;
			late |= full > 0 && !cut && !train_cuts && now > used;
			for(int t = 0; t < cfg.trees; ++t){
				CHECK(after[t].root >= 0 || trees[t].root < 0, when << ": tree " << t << " lost its root"); if(after[t].root < 0){ CHECK(cut || !ok, when << ": train returned true, tree " << t << " has no root"); continue; }
				i64 a = std::accumulate(before[t].begin(), before[t].end(), (i64)0) + !cut, b = std::accumulate(m[t].begin(), m[t].end(), (i64)0); auto lb = per_label(after[t]); if(!cut) labels[t][y]++;
				if(!cut && !train_cuts){ CHECK(a == b, when << ": the leaves of tree " << t << " count " << b << " points, they counted " << a - 1 << " before one more was trained"); for(int l = 0; l < L; ++l) CHECK(lb[l] == labels[t][l], when << ": the leaves of tree " << t << " count " << lb[l] << " points of label " << l << " instead of " << labels[t][l]); }
				else if(a != b){ CHECK(std::find(before[t].begin(), before[t].end(), a - b) != before[t].end(), when << ": trimming tree " << t << " lost " << a - b << " points, none of its leaves held that many"); trimmed = true; for(int l = 0; l < L; ++l) CHECK(lb[l] <= labels[t][l], when << ": trimming tree " << t << " added points of label " << l); }
			}
			trees = after; deepest = std::max(deepest, K::max_depth(trees));
			if(i % 3 == 0){
				std::vector<T> q = x; int z; if(r.below(2)) data.point(r, q, z); if(r.below(3) == 0) for(auto& v : q) v = mo_clip<T>((double)v * 3 + 1); std::vector<double> s; int p = mo_predict(*f, q, &s, L); CHECK(p >= 0 && p < L, when << ": label " << p << " predicted");
				for(int l = 0; l < L; ++l) CHECK(std::isfinite(s[l]) && s[l] >= -1e-9 && s[l] <= 1 + 1e-9, when << ": label " << l << " of " << show_list(q.begin(), q.end()) << " scores " << s[l]);
			}
			if(n > 5000) break;
		}
		// no node was lost: points far away use up what is left
		int used = 0; for(auto& t : trees) used += (int)t.nodes.size(); int left = count - used; bool limited = cfg.limit > 0 || cfg.manage == ROBUR_MANAGEMENT, rooted = true; for(auto& t : trees) rooted &= t.root >= 0;
		if(cfg.extend == ET_BARY && left >= 2 && left <= 50 && rooted && !limited){
			MoRand::fixed() = 1e-13; int steps = 0; double last = 500;
			while(used + 1 < count && steps < 40){ double far = 2 * last; for(int t = 0; t < cfg.trees; ++t){ int root = trees[t].root; for(int d = 0; d < F; ++d) far = std::max(far, 2 * (double)f->get_nodes()[root].bound_upper[d]); } if(far > 1e8) break; ++steps; last = far + 1000; std::vector<T> x(F, (T)last); mo_train(*f, x, 0); auto v = K::walk_all(*f, cfg, false, "when filling up"); int now = 0; for(auto& t : v) now += (int)t.nodes.size(); bool cut = now < used; CHECK(now > used || cut || cfg.trigger, "a point far away added no node although " << count - used << " of " << count << " are free"); if(now <= used) break; used = now; trees = v; }
			c.label("filled up again");
		}
		MoRand::fixed() = -1; c.label_if(trimmed, "trimmed"); c.label_if(deepest > 100, "deeper than a hundred levels"); c.label_if(late, "grown again after the memory was full"); c.label_if(full > 20, "long full"); c.nontrivial(trimmed && late);
	}
};

// F10: what the forest tells about its trees
template<class T, int F, int L, int MAX> struct Reports {
	typedef Coarse<T, F, L, MAX> K; typedef typename K::Cfg Cfg; typedef typename K::Forest Forest; typedef typename K::Node Node;
	static void leaves_below(Forest& f, int i, std::vector<int>& out){ Node* n = f.get_nodes(); std::vector<int> todo{i}; while(!todo.empty()){ int k = todo.back(); todo.pop_back(); if(n[k].is_leaf()) out.push_back(k); else { todo.push_back(n[k].child_left); todo.push_back(n[k].child_right); } } }
	static void counts(Ctx& c){
		Gen& g = c.g; Cfg cfg = K::gen(g, (int)g.below(6)); if(g.below(3) == 2){ cfg.trim = 1 + (int)g.below(3); K::options(g, cfg); } if(cfg.limit < 0) cfg.limit = 60;
		int count = K::nodes_of(cfg.trees); if(count < 1) throw pbt::Discard(); size_t n = g.length(g.below(3) == 2 ? 300 : 60); MoData<T, F> data(g, L, K::DEEP); n = data.points(g, n); if(data.deep()) cfg.lifetime = 50; Rng r(g.seed()); bool bulk = n > 40; MoRand::rng() = Rng(g.seed()); MoRand::fixed() = -1; bool deep = false, mixed = false;
		SAY(c, "CoarseMondrianForest<" << mo_type<T>() << "," << F << "," << L << "," << MAX << "> " << cfg.trees << " trees, " << count << " nodes, lifetime " << cfg.lifetime << ", limit " << cfg.limit << ", " << K::show_options(cfg) << ":");
		typename K::Box f(gen_fill(g), cfg); Node* nd = f->get_nodes();
		for(size_t i = 0; i < n; ++i){
			std::vector<T> x; int y; if(bulk) data.point(r, x, y); else data.point(g, x, y); if(!bulk) SAY(c, " " << show_list(x.begin(), x.end()) << "->" << y);
			mo_train(*f, x, y); if(cfg.trim && r.below(10) == 0) f->tree_trim(); if(r.below(4) && i + 1 < n) continue;
			std::string when = "after " + std::to_string(i + 1) + " points"; auto trees = K::walk_all(*f, cfg, false, when.c_str());
			for(int t = 0; t < cfg.trees; ++t){
				auto& tr = trees[t]; if(tr.root < 0){ CHECK(f->count_data_point_tree(t) == 0 && f->count_dead_supply_tree(t) == 0, when << ": tree " << t << " is empty and reports points"); continue; } deep |= tr.depth > 2;
				i64 m = K::leaf_mass(*f, tr); CHECK(f->count_data_point_tree(t) == m, when << ": tree " << t << " reports " << f->count_data_point_tree(t) << " points, its leaves count " << m);
				int dead = 0; for(int l : tr.leaves) dead += K::mass(nd[l]) < 50; mixed |= dead && dead < (int)tr.leaves.size(); CHECK(f->count_dead_supply_tree(t) == dead, when << ": tree " << t << " reports " << f->count_dead_supply_tree(t) << " leaves with fewer than 50 points, it has " << dead);
				double* avg = (double*)malloc(sizeof(double) * F); int rc = f->find_barycenter(tr.root, avg); CHECK(rc == 0, when << ": find_barycenter returned " << rc);
				for(int k = 0; k < F; ++k){ long double s = 0, w = 0, big = 0; for(int l : tr.leaves){ long double a = K::mass(nd[l]), mid = ((long double)nd[l].bound_lower[k] + nd[l].bound_upper[k]) / 2; s += a * mid; w += a; big += a * std::fabs(mid); } if(w > 0) CHECK(std::fabs((double)(avg[k] - s / w)) <= 1e-9 * (1 + (double)(big / w)), when << ": the barycentre of tree " << t << " is " << avg[k] << " on feature " << k << ", its leaves have " << (double)(s / w)); }
				free(avg);
				for(int k = 0; k < 3; ++k){
					int i2 = tr.nodes[r.below(tr.nodes.size())]; std::vector<int> lv; leaves_below(*f, i2, lv); i64 s = 0; for(int l : lv) s += K::mass(nd[l]); CHECK(f->count_data_point_node(i2) == s, when << ": a node of tree " << t << " reports " << f->count_data_point_node(i2) << " points, the leaves below count " << s);
					CHECK(f->count_dead_supply(i2) == std::count_if(lv.begin(), lv.end(), [&](int l){ return K::mass(nd[l]) < 50; }), when << ": a node of tree " << t << " reports " << f->count_dead_supply(i2) << " leaves with fewer than 50 points");
					int d = (int)r.below(F); Node& some = nd[lv[r.below(lv.size())]]; double v = r.below(3) == 0 ? some.bound_lower[d] : r.below(2) ? some.bound_upper[d] : some.bound_lower[d] + (some.bound_upper[d] - some.bound_lower[d]) * r.unit(); if(r.below(4) == 0) v = r.unit() * 20 - 10;
					int left = 0, right = 0; f->count_sides(i2, d, v, left, right); CHECK(left + right == s, when << ": at " << v << " on feature " << d << " there are " << left << " points on the left and " << right << " on the right of " << s);
					double least = 0, share = 0, cuts = 0; for(int l : lv){ double a = (double)K::mass(nd[l]), lo = nd[l].bound_lower[d], hi = nd[l].bound_upper[d]; if(hi <= v) least += a; else if(lo < v){ ++cuts; share += a * (v - lo) / (hi - lo); } }
					CHECK(std::fabs(left - least - share) <= cuts * (1 + 1e-9) + 1e-9, when << ": at " << v << " on feature " << d << " there are " << left << " points on the left, " << least << " in leaves that are on the left and " << share << " shares of leaves that are cut");
				}
				int fe = 0, at = tr.root; for(;;){ fe += nd[at].forced_extend; if(nd[at].is_leaf()) break; at = x[nd[at].split_dimension] <= nd[at].split_value ? nd[at].child_left : nd[at].child_right; } CHECK(f->count_fe_down(tr.root, x.data()) == fe, when << ": " << f->count_fe_down(tr.root, x.data()) << " forced extensions reported on the way of a point, there are " << fe);
			}
			std::vector<double> s(L); for(auto& v : s) v = r.below(3) ? r.unit() : (double)r.below(3) / 2; int y2 = (int)r.below(L); double best = -INFINITY; for(int l = 0; l < L; ++l) if(l != y2) best = std::max(best, s[l]);
			CHECK(std::fabs(f->eval_scores(s.data(), y2) - (s[y2] - best)) < 1e-12, "the margin of label " << y2 << " in " << show_list(s.begin(), s.end()) << " is reported as " << f->eval_scores(s.data(), y2));
		}
		c.label_if(deep, "more than two levels"); c.label_if(mixed, "leaves above and below 50 points"); c.nontrivial(deep);
	}
	// the printed trace
	struct Catch { std::ostringstream o; std::streambuf* old; Catch() : old(std::cout.rdbuf(o.rdbuf())) {} ~Catch(){ std::cout.rdbuf(old); } };
	static std::vector<std::string> cells(std::string const& s){ std::vector<std::string> v; std::string x; for(char ch : s) if(ch == ',' || ch == ':'){ v.push_back(x); x.clear(); } else x += ch; if(!x.empty()) v.push_back(x); return v; }
	static bool near(std::string const& a, double b){ double v = std::atof(a.c_str()); return std::fabs(v - b) <= 2e-5 * std::fabs(b) + 1e-9; }
	static void trace(Ctx& c){
		Gen& g = c.g; Cfg cfg = K::gen(g, (int)g.below(6)); if(g.below(4) == 3){ cfg.trim = 1 + (int)g.below(3); K::options(g, cfg); } if(cfg.limit < 0) cfg.limit = 60; 
		if(K::nodes_of(cfg.trees) < 1) throw pbt::Discard(); size_t n = g.length(40); MoData<T, F> data(g, L, K::DEEP); n = data.points(g, n); if(data.deep()) cfg.lifetime = 50; Cfg loud = cfg; loud.print = true; MoRand::fixed() = -1; u64 seed = g.seed(); bool split = false, empty = false; size_t nodes = 0;
		SAY(c, "CoarseMondrianForest<" << mo_type<T>() << "," << F << "," << L << "," << MAX << "> " << cfg.trees << " trees, lifetime " << cfg.lifetime << ", " << K::show_options(cfg) << ":");
		typename K::Box a(gen_fill(g), cfg), b(gen_fill(g), loud);
		for(size_t i = 0; i < n; ++i){
			std::vector<T> x; int y; data.point(g, x, y); SAY(c, " " << show_list(x.begin(), x.end()) << "->" << y); std::string when = "at point " + std::to_string(i + 1);
			std::vector<std::vector<double>> each; for(int t = 1; t <= cfg.trees; ++t){ std::vector<double> s(L); a->predict(x.data(), s.data(), t); each.push_back(s); } int guess = a->predict(x.data());
			MoRand::rng() = Rng(seed + i); bool ok = mo_train(*a, x, y); std::string text; { Catch k; MoRand::rng() = Rng(seed + i); bool ok2 = mo_train(*b, x, y); text = k.o.str(); CHECK(ok == ok2, when << ": train returned " << ok << ", and " << ok2 << " when printing"); }
			auto ta = K::walk_all(*a, cfg, false, when.c_str()), tb = K::walk_all(*b, cfg, false, when.c_str());
			std::istringstream in(text); std::string line; std::map<int, std::vector<double>> scores; std::vector<std::map<int, std::vector<std::string>>> lines(cfg.trees);
			while(std::getline(in, line)){
				auto v = cells(line); if(v.size() < 2) continue;
				if(v[0] == "Loutre"){ CHECK(v.size() == 5 + L, when << ": printed " << line); CHECK(std::atoi(v[3].c_str()) == y, when << ": printed label " << v[3] << " instead of " << y); std::vector<double> s; for(int l = 0; l < L; ++l) s.push_back(std::atof(v[5 + l].c_str())); int t = std::atoi(v[2].c_str()); CHECK(!scores.count(t), when << ": two lines of scores for tree " << t); scores[t] = s; int p = std::atoi(v[4].c_str()); CHECK(p >= 0 && p < L, when << ": printed prediction " << p); for(int l = 0; l < L; ++l) CHECK(s[p] >= s[l] - 2e-5, when << ": printed prediction " << p << " of scores " << show_list(s.begin(), s.end())); }
				else if(v[0] == "Narval"){ int t = std::atoi(v[2].c_str()), k = std::atoi(v[3].c_str()); CHECK(t >= 0 && t < cfg.trees, when << ": printed a node of tree " << t); CHECK(!lines[t].count(k), when << ": printed node " << k << " of tree " << t << " twice"); lines[t][k] = v; ++nodes; }
			}
			for(int t = -1; t < cfg.trees; ++t){
				CHECK(scores.count(t), when << ": no scores were printed for tree " << t); for(int l = 0; l < L; ++l){ double want = t < 0 ? each.back()[l] : each[t][l] * (t + 1) - (t ? each[t - 1][l] * t : 0); CHECK(std::fabs(scores[t][l] - want) <= 2e-5, when << ": label " << l << (t < 0 ? std::string(" of the forest") : " of tree " + std::to_string(t)) << " was printed with score " << scores[t][l] << ", it scored " << want); }
			}
			(void)guess; Node* nd = b->get_nodes();
			for(int t = 0; t < cfg.trees; ++t){
				split |= tb[t].nodes.size() > 1; empty |= tb[t].root < 0; CHECK(lines[t].size() == tb[t].nodes.size(), when << ": printed " << lines[t].size() << " nodes of tree " << t << ", it has " << tb[t].nodes.size()); CHECK(ta[t].nodes.size() == tb[t].nodes.size(), when << ": printing changed what was learned");
				for(int k : tb[t].nodes){
					CHECK(lines[t].count(k), when << ": node " << k << " of tree " << t << " was not printed"); auto& v = lines[t][k]; Node& d = nd[k]; int depth = 0; for(int u = k; nd[u].parent >= 0; u = nd[u].parent) ++depth;
					CHECK(v.size() == 13 + 2 * F + L, when << ": a line of " << v.size() << " cells was printed"); bool good = std::atoi(v[4].c_str()) == depth && std::atoi(v[5].c_str()) == d.parent && std::atoi(v[6].c_str()) == d.child_right && std::atoi(v[7].c_str()) == d.child_left && near(v[8], d.tau) && std::atoi(v[9].c_str()) == d.split_dimension && near(v[10], d.split_value) && std::atoi(v[11].c_str()) == d.is_leaf() && std::atoi(v[12].c_str()) == d.forced_extend;
					for(int q = 0; q < F; ++q) good &= near(v[13 + 2 * q], d.bound_lower[q]) && near(v[14 + 2 * q], d.bound_upper[q]); for(int l = 0; l < L; ++l) good &= std::atoi(v[13 + 2 * F + l].c_str()) == d.counters[l]; CHECK(good, when << ": node " << k << " of tree " << t << " was not printed as it is");
				}
			}
		}
		c.label_if(split, "split"); c.label_if(empty, "a tree without root"); c.nontrivial(split && n > 3);
	}
};
#endif
