#include "h_mondrian.hpp"
template<class T, int F, int L> struct Nd { int a; double b, c[F], d[F]; int e, f, g; double h; int i[L]; }; // about the size of a node
template<class T, int F, int L, int TREES, int N> void eq(Ctx& c){ Three<T, F, L, TREES, N * (int)sizeof(Nd<T, F, L>)>::template bounded<N>(c); }
static void full(Ctx& c){
	switch(c.g.below(10)){
		case 0: return eq<double, 2, 2, 1, 3>(c); case 1: return eq<double, 2, 2, 1, 8>(c); case 2: return eq<double, 2, 2, 2, 11>(c); case 3: return eq<float, 3, 3, 3, 2>(c); case 4: return eq<float, 3, 3, 2, 16>(c);
		case 5: if(c.g.flip()) return eq<unsigned char, 3, 2, 1, 6>(c); return eq<int, 2, 4, 1, 5>(c); case 6: return eq<double, 1, 3, 3, 9>(c); case 7: return eq<double, 5, 2, 4, 25>(c); case 8: return eq<double, 1, 2, 1, 1>(c); default: return eq<float, 2, 2, 2, 4>(c);
	}
}
static void survives(Ctx& c){
	switch(c.g.below(7)){
		case 0: return Three<double, 2, 2, 3, 1000>::survives(c); case 1: return Three<double, 1, 3, 10, 700>::survives(c); case 2: return Three<float, 3, 3, 5, 2003>::survives(c);
		case 3: return Three<int, 2, 4, 1, 100>::survives(c); case 4: return Three<double, 5, 2, 20, 6000>::survives(c); case 5: return Three<double, 2, 2, 2, 160>::survives(c); default: return Three<float, 2, 2, 1, 333>::survives(c);
	}
}
FACET_FN(F02, full, full, 60000, 500000, "the memory was used up");
FACET_FN(F02, survives, survives, 40000, 300000, "more than five points");
