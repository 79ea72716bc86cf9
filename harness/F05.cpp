// Every allocation of this program is counted.
#include <cstdlib>
#include <new>
static long long live_blocks = 0, all_blocks = 0, live_bytes = 0; static bool counting = false;
static void* take(size_t n){ char* p = (char*)malloc(n + 16); if(!p) abort(); *(long long*)p = counting ? (long long)n : -1; if(counting){ ++live_blocks; ++all_blocks; live_bytes += n; } return p + 16; }
static void give(void* p){ if(!p) return; char* q = (char*)p - 16; long long n = *(long long*)q; if(n >= 0){ --live_blocks; live_bytes -= n; } free(q); }
void* operator new(size_t n){ return take(n); }
void* operator new[](size_t n){ return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
#include "h_mondrian.hpp"
template<class T, int F, int L> void unbound(Ctx& c){
	typedef MondrianForestUnbound<T, MoFunc, F, L> M; Gen& g = c.g; static const double lt[] = {0.1, 1, 5, 50}; double lifetime = lt[g.below(4)]; int trees = (int)g.below(6); MoData<T, F> data(g, L); size_t n = g.length(g.below(4) == 3 ? 300 : 60); Rng r(g.seed()); MoRand::rng() = Rng(g.seed()); MoRand::fixed() = -1;
	SAY(c, "MondrianForestUnbound<" << mo_type<T>() << "," << F << "," << L << "> " << trees << " trees, lifetime " << lifetime << ", " << n << " points"); live_blocks = all_blocks = live_bytes = 0;
	{
		unsigned char fill = gen_fill(g); counting = true; Boxed<M> f(fill, lifetime, 0.5, 0.1, trees); counting = false; long long start = live_blocks; CHECK(start <= 2 + 2 * trees, "an empty forest owns " << start << " blocks");
		T* p = (T*)malloc(sizeof(T) * F); double* sc = (double*)malloc(sizeof(double) * L);
		for(size_t i = 0; i < n; ++i){
			std::vector<T> x; int y; data.point(r, x, y); std::copy(x.begin(), x.end(), p); long long before = live_blocks; counting = true; bool ok = f->train(p, y); counting = false; CHECK(ok, "train failed for point " << i + 1);
			CHECK(live_blocks - before <= 8 * trees, "one point added " << live_blocks - before << " blocks to a forest of " << trees << " trees"); before = live_blocks;
			counting = true; f->predict(p, sc); counting = false; CHECK(live_blocks == before, "predicting changed the memory in use");
		}
		CHECK(live_blocks - start <= trees * 8 * (long long)n, "a forest of " << trees << " trees owns " << live_blocks - start << " nodes after " << n << " points"); free(p); free(sc);
	}
	CHECK(live_blocks == 0 && live_bytes == 0, live_blocks << " blocks (" << live_bytes << " bytes) of " << all_blocks << " are still allocated after the forest was destroyed"); c.nontrivial(trees > 0 && n > 5 && all_blocks > 3 * trees);
}
static void leaks(Ctx& c){ switch(c.g.below(4)){ case 0: return unbound<double, 2, 2>(c); case 1: return unbound<float, 3, 3>(c); case 2: if(c.g.flip()) return unbound<unsigned short, 3, 2>(c); return unbound<int, 1, 4>(c); default: return unbound<double, 5, 2>(c); } }
FACET_FN(F05, leaks, leaks, 100000, 800000, "trees were grown from more than five points");
