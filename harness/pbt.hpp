// A small property-based testing engine: generated cases are sequences of
// choices, so that any failing case can be replayed and shrunk, and so that the
// same property can be driven by libFuzzer (the bytes are the choices).
//
//  - every case runs in one of 8 forked workers; a crash, a sanitizer report, an
//    assertion or a hang in the code under test is caught and attributed to the
//    case that was running;
//  - the choices of the running case live in shared memory, so a crash does not
//    lose them;
//  - failures are shrunk (delete blocks, zero, lower) in forked children and
//    replayed three times before they are reported.
#ifndef PBT_HPP
#define PBT_HPP
#include <algorithm>
#include <cassert>
#include <cerrno>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

namespace pbt {

typedef uint64_t u64;
typedef int64_t i64;

inline u64 mix(u64 z){
	z += 0x9e3779b97f4a7c15ULL;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
inline u64 hash_str(const char* s){
	u64 h = 1469598103934665603ULL;
	while(*s){ h ^= (unsigned char)*s++; h *= 1099511628211ULL; }
	return mix(h);
}
// xoshiro256**
struct Rng {
	u64 s[4];
	explicit Rng(u64 seed = 1){ reseed(seed); }
	void reseed(u64 seed){ for(int i = 0; i < 4; ++i){ seed = mix(seed + i); s[i] = seed; } }
	static u64 rotl(u64 x, int k){ return (x << k) | (x >> (64 - k)); }
	u64 next(){
		u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
		s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
		return r;
	}
	u64 below(u64 n){ return n ? (u64)(((unsigned __int128)next() * n) >> 64) : next(); }
	double unit(){ return (double)(next() >> 11) * (1.0 / 9007199254740992.0); } // [0,1[
	bool prob(double p){ return unit() < p; }
	double range(double a, double b){ return a + (b - a) * unit(); }
	double normal(){ // Box-Muller
		double u = 1.0 - unit(), v = unit();
		return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * v);
	}
};

struct Fail { std::string msg; };
struct Discard {};

static const size_t CHOICE_CAP = 1u << 19; // per worker, 4 MB, touched lazily

struct Shared { // one per worker or child, in shared memory
	volatile u64 index;        // case being run
	volatile u64 done;         // cases finished
	volatile int state;        // 0 idle, 1 running, 2 failed, 3 finished, 4 hang
	volatile u64 nchoices;
	volatile int overflow;
	volatile int nontriv;
	char msg[4096];
	char desc[1 << 16];
	u64 choices[CHOICE_CAP];
};

struct Gen {
	enum Mode { RANDOM, REPLAY, BYTES } mode;
	Rng rng;
	const std::vector<u64>* src; size_t pos;
	const uint8_t* data; size_t size;
	Shared* rec;
	u64 digest;
	size_t drawn;
	Gen() : mode(RANDOM), src(nullptr), pos(0), data(nullptr), size(0), rec(nullptr), digest(0), drawn(0) {}
	// The one source of randomness: an integer in [0, n[, 0 being the simplest. n == 0: 64 bits.
	u64 draw(u64 n){
		u64 v;
		if(n == 1) return 0;
		if(mode == RANDOM) v = rng.below(n);
		else if(mode == REPLAY){
			v = pos < src->size() ? (*src)[pos] : 0; ++pos;
			if(n && v >= n) v %= n;
		}else{
			u64 m = n ? n - 1 : ~0ULL; v = 0;
			while(m){ v = (v << 8) | (pos < size ? data[pos] : 0); if(pos < size) ++pos; m >>= 8; }
			if(n) v %= n;
		}
		if(rec){
			if(rec->nchoices < CHOICE_CAP){ rec->choices[rec->nchoices] = v; rec->nchoices = rec->nchoices + 1; }
			else rec->overflow = 1;
		}
		digest = mix(digest ^ v) + n;
		++drawn;
		return v;
	}
	bool exhausted() const { return mode == BYTES && pos >= size; }
	u64 below(u64 n){ return draw(n); }
	i64 range(i64 lo, i64 hi){ return lo + (i64)draw((u64)(hi - lo) + 1); } // inclusive, lo is simplest
	// signed, centred on zero, zero first
	i64 centered(i64 m){ u64 v = draw(2 * (u64)m + 1); return (v & 1) ? (i64)((v + 1) / 2) : -(i64)(v / 2); }
	// true with probability p; false is simplest
	bool prob(double p){ return draw(1 << 16) >= (u64)((1.0 - p) * 65536.0); }
	bool flip(){ return draw(2); }
	// log-uniform length in [0, max]
	u64 length(u64 max){
		if(max == 0) return 0;
		int bits = 64 - __builtin_clzll(max);
		u64 b = draw(bits + 1);
		if(b == 0) return 0;
		u64 lo = 1ULL << (b - 1), hi = std::min<u64>(max, (1ULL << b) - 1);
		return lo + draw(hi - lo + 1);
	}
	double unit(){ // mostly fine grained, sometimes coarse
		u64 k = draw(4);
		if(k == 0) return (double)draw(8) / 8.0;
		if(k == 1) return (double)draw(1000) / 1000.0;
		return (double)draw(1ULL << 53) * (1.0 / 9007199254740992.0);
	}
	double real(double lo, double hi){ return lo + (hi - lo) * unit(); }
	template<class T> const T& pick(const std::vector<T>& v){ return v[draw(v.size())]; }
	// a seed for bulk random data; does not shrink but is a single choice
	u64 seed(){ return draw(1ULL << 32); }
	Rng fork(){ return Rng(mix(seed() + 77)); }
};

struct Ctx {
	Gen g;
	bool verbose = false;
	std::ostringstream desc;
	bool nontriv = false;
	std::map<std::string, u64>* labels = nullptr;
	bool slow = false; // thorough tier
	void nontrivial(bool b = true){ nontriv = nontriv || b; }
	void label(const char* s){ if(labels) (*labels)[s]++; }
	void label_if(bool b, const char* s){ if(b) label(s); }
};

#define SAY(c, expr) do{ if((c).verbose && (c).desc.tellp() < 60000){ (c).desc << expr; } }while(0)
#define FAIL(expr) do{ std::ostringstream o__; o__.precision(17); o__ << expr; throw pbt::Fail{o__.str()}; }while(0)
#define CHECK(cond, expr) do{ if(!(cond)) FAIL(expr); }while(0)

struct Facet {
	const char* property;
	const char* name;
	void (*fn)(Ctx&);
	u64 asan_count;   // cases in the quick tier, sanitized build
	u64 fast_count;   // cases in the quick tier, optimised build
	const char* rule; // what makes a case non-trivial
	double thorough = 20; // factor of the thorough tier
	u64 deep = 0;         // cases of a facet that only the thorough tier runs, each taking up to some minutes
};
inline std::vector<Facet>& facets(){ static std::vector<Facet> f; return f; }
struct Reg { Reg(Facet f){ facets().push_back(f); } };
#define FACET(prop, name, asan_n, fast_n, rule) \
	static void facet_##prop##_##name(pbt::Ctx& c); \
	static pbt::Reg reg_##prop##_##name(pbt::Facet{#prop, #name, facet_##prop##_##name, asan_n, fast_n, rule}); \
	static void facet_##prop##_##name(pbt::Ctx& c)
// one property function under two properties
#define FACET_FN(prop, name, fn, asan_n, fast_n, rule) \
	static pbt::Reg reg_##prop##_##name(pbt::Facet{#prop, #name, fn, asan_n, fast_n, rule})

// only in the thorough tier, optimised build: cases of up to minutes
#define FACET_DEEP(prop, name, fn, n, rule) \
	static pbt::Reg reg_##prop##_##name(pbt::Facet{#prop, #name, fn, 0, 0, rule, 20, n})

// ------------------------------------------------------------------ running
static volatile Shared* g_hang_shared = nullptr;
static void on_hang(int){
	if(g_hang_shared) g_hang_shared->state = 4;
	static const char m[] = "\nPBT: the case exceeded its CPU limit\n";
	(void)!write(2, m, sizeof m - 1);
	_exit(78);
}
inline void arm(double cpu){
	struct itimerval it; memset(&it, 0, sizeof it);
	it.it_value.tv_sec = (long)cpu; it.it_value.tv_usec = (long)((cpu - (long)cpu) * 1e6);
	setitimer(ITIMER_PROF, &it, nullptr);
}
static double g_case_cpu = 30;

// a dirty stack makes reads of uninitialised locals visible (and differing)
static void __attribute__((noinline)) scrub_stack(u64 v){
	volatile u64 junk[1024];
	for(int i = 0; i < 1024; ++i) junk[i] = v;
	(void)junk[5];
}

// Returns 0 pass, 1 failed (msg in sh)
inline int run_one(const Facet& f, Ctx& c, Shared* sh){
	sh->nchoices = 0; sh->overflow = 0; sh->state = 1; sh->nontriv = 0;
	c.g.rec = sh; c.g.pos = 0; c.g.digest = hash_str(f.name); c.g.drawn = 0;
	c.nontriv = false; c.desc.str("");
	int r = 0;
	try{
		f.fn(c);
	}catch(const Fail& e){
		r = 1; strncpy(sh->msg, e.msg.c_str(), sizeof sh->msg - 1); sh->msg[sizeof sh->msg - 1] = 0;
	}catch(const Discard&){
		c.nontriv = false; c.label("discarded");
	}catch(const std::exception& e){
		r = 1; snprintf(sh->msg, sizeof sh->msg, "exception: %s", e.what());
	}
	if(c.verbose){ std::string d = c.desc.str(); strncpy(sh->desc, d.c_str(), sizeof sh->desc - 1); sh->desc[sizeof sh->desc - 1] = 0; }
	sh->nontriv = c.nontriv;
	sh->state = r ? 2 : 3;
	return r;
}
inline u64 case_seed(u64 seed, const Facet& f, u64 index){ return mix(mix(seed ^ hash_str(f.name)) ^ mix(index * 2 + 1) ^ hash_str(f.property)); }

inline Shared* shared_alloc(){
	void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if(p == MAP_FAILED){ perror("mmap"); exit(3); }
	return (Shared*)p;
}
inline std::string slurp(const std::string& path, size_t cap = 6000){
	std::ifstream in(path); std::stringstream s; s << in.rdbuf(); std::string t = s.str();
	if(t.size() > cap) t = t.substr(0, cap) + "\n...";
	return t;
}
inline std::string jstr(const std::string& s){
	std::string o = "\"";
	for(unsigned char ch : s){
		if(ch == '"' || ch == '\\'){ o += '\\'; o += ch; }
		else if(ch == '\n') o += "\\n";
		else if(ch == '\t') o += "\\t";
		else if(ch < 32 || ch > 126){ char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
		else o += ch;
	}
	return o + "\"";
}

struct Outcome { bool failed = false; bool infra = false; std::string kind, msg, desc; std::vector<u64> choices; bool overflow = false; bool nontriv = false; };

static std::string g_tmp = "/tmp";
static bool g_slow = false;

// how: 0 = by seed, 1 = by choices, 2 = bytes
inline Outcome run_isolated(const Facet& f, int how, u64 seed, u64 index, const std::vector<u64>* ch, const std::string* bytes, bool verbose, double cpu, u64 prefix_start = ~0ULL, u64 prefix_step = 1){
	static Shared* sh = shared_alloc();
	sh->nchoices = 0; sh->state = 0; sh->msg[0] = 0; sh->desc[0] = 0; sh->index = index;
	std::string errf = g_tmp + "/iso." + std::to_string(getpid()) + ".err";
	pid_t p = fork();
	if(p == 0){
		int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
		dup2(fd, 2); dup2(fd, 1); close(fd);
		g_hang_shared = sh; signal(SIGPROF, on_hang);
		Ctx c; c.slow = g_slow;
		if(prefix_start != ~0ULL){
			for(u64 i = prefix_start; i < index; i += prefix_step){
				arm(cpu); sh->index = i;
				c.g.mode = Gen::RANDOM; c.g.rng.reseed(case_seed(seed, f, i));
				if(run_one(f, c, sh)) _exit(1);
			}
			sh->index = index;
		}
		c.verbose = verbose;
		arm(cpu);
		if(how == 0){ c.g.mode = Gen::RANDOM; c.g.rng.reseed(case_seed(seed, f, index)); }
		else if(how == 1){ c.g.mode = Gen::REPLAY; c.g.src = ch; }
		else { c.g.mode = Gen::BYTES; c.g.data = (const uint8_t*)bytes->data(); c.g.size = bytes->size(); }
		int r = run_one(f, c, sh);
		_exit(r);
	}
	int st = 0; while(waitpid(p, &st, 0) < 0 && errno == EINTR);
	Outcome o;
	o.choices.assign(sh->choices, sh->choices + std::min<u64>((u64)sh->nchoices, CHOICE_CAP));
	o.overflow = sh->overflow; o.desc = sh->desc; o.nontriv = sh->nontriv;
	if(WIFEXITED(st) && WEXITSTATUS(st) == 0){ }
	else if(sh->state == 2){ o.failed = true; o.kind = "oracle"; o.msg = sh->msg; }
	else if(sh->state == 4){ o.failed = true; o.kind = "hang"; o.msg = "the case did not terminate within its CPU limit"; }
	else if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL){ o.infra = true; }
	else { o.failed = true; o.kind = "crash"; o.msg = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
		o.msg += "\n" + slurp(errf); }
	unlink(errf.c_str());
	return o;
}

inline double now(){ struct timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec * 1e-6; }

inline std::vector<u64> shrink(const Facet& f, std::vector<u64> best, double limit_s, int limit_n, Outcome& last){
	double t0 = now(); int n = 0;
	auto still = [&](const std::vector<u64>& cand) -> bool {
		if(n >= limit_n || now() - t0 > limit_s) return false;
		++n;
		Outcome o = run_isolated(f, 1, 0, 0, &cand, nullptr, false, g_case_cpu);
		if(o.failed && o.kind != "hang"){ last = o; return true; }
		return false;
	};
	bool progress = true;
	while(progress && n < limit_n && now() - t0 < limit_s){
		progress = false;
		for(size_t block = std::max<size_t>(1, best.size() / 2); ; block /= 2){
			for(size_t i = 0; i + block <= best.size(); ){
				std::vector<u64> cand = best;
				cand.erase(cand.begin() + i, cand.begin() + i + block);
				if(still(cand)){ best = cand; progress = true; }
				else i += block;
				if(n >= limit_n || now() - t0 > limit_s) break;
			}
			if(block <= 1 || n >= limit_n || now() - t0 > limit_s) break;
		}
		for(size_t i = 0; i < best.size() && n < limit_n && now() - t0 < limit_s; ++i){
			if(best[i] == 0) continue;
			std::vector<u64> cand = best; cand[i] = 0;
			if(still(cand)){ best = cand; progress = true; continue; }
			u64 lo = 0, hi = best[i]; // binary search downwards
			while(hi - lo > 1 && n < limit_n){
				u64 mid = lo + (hi - lo) / 2; cand = best; cand[i] = mid;
				if(still(cand)){ best = cand; hi = mid; progress = true; } else lo = mid;
			}
		}
		while(!best.empty() && best.back() == 0) best.pop_back();
	}
	return best;
}

struct FacetResult {
	std::string name, rule; u64 evaluations = 0, planned = 0, nontrivial = 0; std::unordered_set<u64> digests;
	std::map<std::string, u64> labels; std::vector<std::string> samples;
	bool violated = false; std::string kind, msg, desc; bool inconclusive = false; std::string replay; double wall = 0; bool truncated = false;
};

inline void write_replay(const std::string& path, const Facet& f, const std::string& variant, const std::string& how, u64 seed, u64 index, u64 step, const std::vector<u64>& ch, const Outcome& o){
	std::ofstream out(path);
	out << "{\"property\":" << jstr(f.property) << ",\n \"facet\":" << jstr(f.name) << ",\n \"variant\":" << jstr(variant)
		<< ",\n \"how\":" << jstr(how) << ",\n \"seed\":" << seed << ", \"index\":" << index << ", \"step\":" << step
		<< ",\n \"kind\":" << jstr(o.kind) << ",\n \"message\":" << jstr(o.msg) << ",\n \"case\":" << jstr(o.desc) << ",\n \"choices\":[";
	for(size_t i = 0; i < ch.size(); ++i) out << (i ? "," : "") << ch[i];
	out << "]}\n";
}

// settle a suspected failure: shrink, replay three times, write the replay file
inline bool settle(const Facet& f, FacetResult& r, const std::string& variant, const std::string& replaydir, u64 seed, u64 index, u64 start, u64 step, std::vector<u64> choices, bool overflow){
	std::string path = replaydir + "/" + f.property + "-" + f.name + ".json";
	Outcome o; int how = 1;
	if(!overflow) o = run_isolated(f, 1, 0, 0, &choices, nullptr, true, g_case_cpu);
	if(!o.failed && seed != ~0ULL){ how = 0; o = run_isolated(f, 0, seed, index, nullptr, nullptr, true, g_case_cpu); if(o.failed && !o.overflow){ how = 1; choices = o.choices; } }
	if(o.failed){
		if(how == 1 && o.kind != "hang"){
			Outcome last = o;
			std::vector<u64> small = shrink(f, choices, 45, 1500, last);
			Outcome v = run_isolated(f, 1, 0, 0, &small, nullptr, true, g_case_cpu);
			if(v.failed){ choices = small; o = v; }
		}
		int ok = 0;
		for(int k = 0; k < 3; ++k){
			Outcome v = how ? run_isolated(f, 1, 0, 0, &choices, nullptr, true, g_case_cpu) : run_isolated(f, 0, seed, index, nullptr, nullptr, true, g_case_cpu);
			if(v.failed){ ++ok; o = v; }
		}
		if(ok == 3){
			write_replay(path, f, variant, how ? "choices" : "seed", seed, index, step, how ? choices : std::vector<u64>(), o);
			r.violated = true; r.kind = o.kind; r.msg = o.msg; r.desc = o.desc; r.replay = path;
			return true;
		}
	}
	if(seed == ~0ULL) { r.inconclusive = true; return false; }
	// state left by earlier cases of the same worker may matter
	int ok = 0;
	for(int k = 0; k < 3; ++k){
		Outcome v = run_isolated(f, 0, seed, index, nullptr, nullptr, true, g_case_cpu, start, step);
		if(v.failed){ ++ok; o = v; } else break;
	}
	if(ok == 3){
		write_replay(path, f, variant, "prefix", seed, index, step, std::vector<u64>(), o);
		r.violated = true; r.kind = o.kind; r.msg = o.msg; r.desc = o.desc; r.replay = path;
		return true;
	}
	r.inconclusive = true; r.msg = "not reproduced: " + r.msg;
	return false;
}

inline FacetResult run_facet(const Facet& f, u64 count, u64 seed, const std::string& variant, const std::string& replaydir, double deadline, int W){
	FacetResult r; r.name = f.name; r.rule = f.rule; r.planned = count;
	double t0 = now();
	static std::vector<Shared*> sh;
	while((int)sh.size() < W) sh.push_back(shared_alloc());
	static int* stop = (int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	*stop = 0;
	std::vector<pid_t> pids(W);
	std::vector<std::string> outs(W), errs(W);
	for(int w = 0; w < W; ++w){
		sh[w]->index = 0; sh[w]->done = 0; sh[w]->state = 0; sh[w]->nchoices = 0;
		outs[w] = g_tmp + "/w" + std::to_string(w) + ".out"; errs[w] = g_tmp + "/w" + std::to_string(w) + ".err";
		unlink(outs[w].c_str());
		pid_t p = fork();
		if(p == 0){
			int fd = open(errs[w].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
			dup2(fd, 2); dup2(fd, 1); close(fd);
			g_hang_shared = sh[w]; signal(SIGPROF, on_hang);
			std::map<std::string, u64> labels; std::unordered_set<u64> dig; u64 nt = 0; std::vector<u64> samples;
			Ctx c; c.labels = &labels; c.slow = g_slow;
			int code = 0; bool trunc = false;
			for(u64 i = w; i < count; i += W){
				if(*stop) break;
				if(now() > deadline){ trunc = true; break; }
				arm(g_case_cpu);
				sh[w]->index = i;
				scrub_stack(mix(i));
				c.g.mode = Gen::RANDOM; c.g.rng.reseed(case_seed(seed, f, i));
				if(run_one(f, c, sh[w])){ code = 77; break; }
				sh[w]->done = sh[w]->done + 1;
				if(c.nontriv){ ++nt; if(dig.size() < 4000000) dig.insert(c.g.digest); if(samples.size() < 2) samples.push_back(i); }
			}
			arm(0);
			std::ofstream o(outs[w]);
			o << nt << ' ' << trunc << '\n' << labels.size() << '\n';
			for(auto& l : labels) o << l.second << ' ' << l.first << '\n';
			o << samples.size(); for(u64 s : samples) o << ' ' << s; o << '\n' << dig.size() << '\n';
			for(u64 d : dig) o << d << '\n';
			o.close();
			_exit(code);
		}
		pids[w] = p;
	}
	int bad = -1; std::vector<int> stat(W, 0);
	for(int left = W; left > 0; --left){
		int st; pid_t p = wait(&st);
		if(p < 0){ if(errno == EINTR){ ++left; continue; } break; }
		for(int w = 0; w < W; ++w) if(pids[w] == p){
			stat[w] = st;
			bool okexit = WIFEXITED(st) && WEXITSTATUS(st) == 0;
			bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
			if(killed) r.inconclusive = true;
			if(!okexit && !killed && bad < 0){ bad = w; *stop = 1; }
		}
	}
	std::vector<u64> samples;
	for(int w = 0; w < W; ++w){
		r.evaluations += sh[w]->done;
		std::ifstream in(outs[w]); u64 nt, trunc, n;
		if(in >> nt >> trunc){
			r.nontrivial += nt; if(trunc) r.truncated = true;
			in >> n; for(u64 i = 0; i < n; ++i){ u64 k; std::string l; in >> k; in.ignore(1); std::getline(in, l); r.labels[l] += k; }
			in >> n; for(u64 i = 0; i < n; ++i){ u64 s; in >> s; samples.push_back(s); }
			in >> n; for(u64 i = 0; i < n; ++i){ u64 d; in >> d; r.digests.insert(d); }
		}
	}
	std::sort(samples.begin(), samples.end());
	if(samples.size() > 2) samples.resize(2);
	if(bad >= 0){
		std::vector<u64> ch(sh[bad]->choices, sh[bad]->choices + std::min<u64>((u64)sh[bad]->nchoices, CHOICE_CAP));
		r.msg = sh[bad]->state == 2 ? sh[bad]->msg : slurp(errs[bad]);
		settle(f, r, variant, replaydir, seed, sh[bad]->index, bad, W, ch, sh[bad]->overflow);
	}
	for(int w = 0; w < W; ++w){ unlink(outs[w].c_str()); unlink(errs[w].c_str()); }
	for(u64 s : samples){
		Outcome o = run_isolated(f, 0, seed, s, nullptr, nullptr, true, g_case_cpu);
		std::string d = o.desc.substr(0, 700);
		r.samples.push_back("case " + std::to_string(s) + ": " + d);
	}
	r.wall = now() - t0;
	return r;
}

inline int pbt_main(int argc, char** argv){
	std::string property, variant = "fast", out, replaydir = "/tmp", replay_choices, facet, bytes, how;
	u64 seed = 1, index = 0, step = 8; double scale = 1, cap = 400; bool thorough = false;
	for(int i = 1; i < argc; ++i){
		std::string a = argv[i]; auto next = [&]{ return std::string(i + 1 < argc ? argv[++i] : ""); };
		if(a == "--property") property = next();
		else if(a == "--variant") variant = next();
		else if(a == "--out") out = next();
		else if(a == "--replaydir") replaydir = next();
		else if(a == "--tmp") g_tmp = next();
		else if(a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
		else if(a == "--scale") scale = atof(next().c_str());
		else if(a == "--cap") cap = atof(next().c_str());
		else if(a == "--facet") facet = next();
		else if(a == "--thorough") thorough = true;
		else if(a == "--choices") replay_choices = next(); // a file of integers
		else if(a == "--bytes") bytes = next();
		else if(a == "--how") how = next();
		else if(a == "--index") index = strtoull(next().c_str(), nullptr, 10);
		else if(a == "--step") step = strtoull(next().c_str(), nullptr, 10);
		else if(a == "--list"){ for(auto& f : facets()) std::cout << f.property << ' ' << f.name << ' ' << f.asan_count << ' ' << f.fast_count << '\n'; return 0; }
	}
	g_slow = thorough;
	if(!how.empty()){ // replay
		for(auto& f : facets()) if(property == f.property && facet == f.name){
			Outcome o; if(f.deep) g_case_cpu = 900;
			std::vector<u64> ch; std::ifstream in(replay_choices); u64 v; while(in >> v) ch.push_back(v);
			if(how == "choices") o = run_isolated(f, 1, 0, 0, &ch, nullptr, true, g_case_cpu);
			else if(how == "seed") o = run_isolated(f, 0, seed, index, nullptr, nullptr, true, g_case_cpu);
			else if(how == "prefix") o = run_isolated(f, 0, seed, index, nullptr, nullptr, true, g_case_cpu, index % step, step);
			std::cout << o.desc << "\n" << (o.failed ? "FAILS (" + o.kind + "): " + o.msg : "passes") << std::endl;
			return o.failed ? 1 : 0;
		}
		std::cerr << "no such facet\n"; return 3;
	}
	if(!bytes.empty()){ // a libFuzzer artifact: the first byte selected the facet
		std::string raw = slurp(bytes, 1 << 24);
		std::vector<const Facet*> fs; for(auto& f : facets()) if(property == f.property && !f.deep) fs.push_back(&f);
		if(raw.empty() || fs.empty()) return 0;
		const Facet& f = *fs[(uint8_t)raw[0] % fs.size()];
		std::string rest = raw.substr(1);
		Outcome o = run_isolated(f, 2, 0, 0, nullptr, &rest, true, g_case_cpu);
		FacetResult r;
		if(o.failed && settle(f, r, variant, replaydir, ~0ULL, 0, 0, 1, o.choices, o.overflow)){
			std::cout << "VIOLATED " << r.replay << "\n" << r.msg << std::endl; return 1;
		}
		return 0;
	}
	double t0 = now(); bool violated = false;
	std::ostringstream js; js << "[";
	bool first = true;
	for(auto& f : facets()){
		if(property != f.property || (!facet.empty() && facet != f.name)) continue;
		u64 n = variant == "asan" ? f.asan_count : f.fast_count;
		if(f.deep){ n = thorough && variant != "asan" ? f.deep : 0; }
		else n = (u64)std::ceil(n * scale * (thorough ? f.thorough : 1.0));
		if(n == 0) continue;
		g_case_cpu = f.deep ? 900 : 30;
		FacetResult r = run_facet(f, n, seed, variant, replaydir, t0 + cap, 8);
		js << (first ? "" : ",") << "\n{\"facet\":" << jstr(r.name) << ",\"variant\":" << jstr(variant) << ",\"rule\":" << jstr(r.rule) << ",\"planned\":" << r.planned
			<< ",\"evaluations\":" << r.evaluations << ",\"nontrivial\":" << r.nontrivial << ",\"distinct_nontrivial\":" << r.digests.size() << ",\"wall_s\":" << r.wall
			<< ",\"truncated\":" << (r.truncated ? "true" : "false") << ",\"inconclusive\":" << (r.inconclusive ? "true" : "false") << ",\"labels\":{";
		bool fl = true; for(auto& l : r.labels){ js << (fl ? "" : ",") << jstr(l.first) << ":" << l.second; fl = false; }
		js << "},\"samples\":["; fl = true; for(auto& s : r.samples){ js << (fl ? "" : ",") << jstr(s); fl = false; }
		js << "],\"violated\":" << (r.violated ? "true" : "false") << ",\"kind\":" << jstr(r.kind) << ",\"message\":" << jstr(r.msg) << ",\"case\":" << jstr(r.desc) << ",\"replay\":" << jstr(r.replay) << "}";
		first = false;
		if(r.violated){ violated = true; break; }
	}
	js << "\n]\n";
	if(!out.empty()){ std::ofstream o(out); o << js.str(); } else std::cout << js.str();
	return violated ? 1 : 0;
}
} // namespace pbt

#ifdef PBT_LIBFUZZER
#ifndef PBT_PROPERTY
#error PBT_PROPERTY
#endif
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size){
	using namespace pbt;
	static std::vector<const Facet*> fs; static Shared* sh = nullptr; static Ctx c;
	if(!sh){ sh = shared_alloc(); for(auto& f : facets()) if(std::string(PBT_PROPERTY) == f.property && !f.deep) fs.push_back(&f); }
	if(size < 2 || fs.empty()) return 0;
	const Facet& f = *fs[data[0] % fs.size()];
	if(f.asan_count == 0) return 0; // statistical facets are not for a fuzzer
	c.g.mode = Gen::BYTES; c.g.data = data + 1; c.g.size = size - 1;
	if(run_one(f, c, sh)){ fprintf(stderr, "FACET %s: %s\n", f.name, sh->msg); abort(); }
	return 0;
}
#else
int main(int argc, char** argv){ return pbt::pbt_main(argc, argv); }
#endif
#endif
