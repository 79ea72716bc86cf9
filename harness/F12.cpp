#define DEBUG
#include "h_coarse.hpp"
// the debug configuration prints a lot, and exits when it finds a tree damaged
struct Silent { std::ostream* os; std::streambuf* old; struct Null : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } } none; Silent() : old(std::cout.rdbuf(&none)) {} ~Silent(){ std::cout.rdbuf(old); } };
static void structure(Ctx& c){ Silent s; coarse_any<1>(c); }
static void posterior(Ctx& c){
	Silent s;
	switch(c.g.below(4)){ case 0: return Scores<double, 2, 2, 3000>::run(c); case 1: return Scores<double, 1, 3, 900>::run(c); case 2: return Scores<float, 3, 3, 5001>::run(c); default: return Scores<int, 2, 4, 2000>::run(c); }
}
static void same(Ctx& c){ Silent s; switch(c.g.below(3)){ case 0: return Three<double, 2, 2, 1, 20000>::same(c); case 1: return Three<double, 1, 3, 2, 20000>::same(c); default: return Three<int, 2, 4, 1, 20000>::same(c); } }
static void splits(Ctx& c){ Silent s; if(c.g.below(32) == 31) Splits<double, 1, 2, 50000>::run(c); else if(c.g.flip()) Splits<double, 2, 2, 3000>::run(c); else Splits<int, 1, 3, 1500>::run(c); }
FACET_FN(F12, structure, structure, 5000, 20000, "at least two splits and four points");
FACET_FN(F12, posterior, posterior, 5000, 20000, "the trees split and more than three queries were answered");
FACET_FN(F12, same, same, 5000, 20000, "the forests split and learned more than three points");
FACET_FN(F12, splits, splits, 5000, 20000, "trimmed, and grown again after the memory was full");
