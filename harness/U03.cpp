#include "stats.hpp"
#include "utils.hpp"
static Rng u_rng(1); static int u_style;
struct UF { static double rand_uniform(){ switch(u_style){ case 0: return u_rng.unit(); case 1: return 0; case 2: return 0.99999999999999989; default: return u_rng.prob(0.5) ? 0.5 : u_rng.unit(); } } static double log(double x){ return std::log(x); } static double exp(double x){ return std::exp(x); } };
template<class T> static T gen_num(Gen& g){
	switch(g.below(6)){
		case 0: return (T)g.below(5); case 1: return (T)(g.below(100)); case 2: return std::numeric_limits<T>::is_signed ? (T)g.centered(1000) : (T)g.below(200);
		case 3: return std::numeric_limits<T>::max(); case 4: return std::numeric_limits<T>::lowest(); default: return (T)(g.centered(60) / (std::numeric_limits<T>::is_integer ? 1 : 8.0));
	}
}
template<class T> static void index_max_case(Ctx& c){
	Gen& g = c.g; size_t n = 1 + g.length(64); T* a = (T*)malloc(n * sizeof(T)); bool ties = g.flip();
	for(size_t i = 0; i < n; ++i) a[i] = ties ? (T)g.below(4) : gen_num<T>(g);
	std::vector<T> copy(a, a + n); int expect = (int)(std::max_element(copy.begin(), copy.end()) - copy.begin());
	int got = Utils::index_max(a, (int)n);
	SAY(c, "index_max" << show_list(copy.begin(), copy.end()) << "=" << got);
	CHECK(std::equal(copy.begin(), copy.end(), a), "index_max changed the array");
	CHECK(got == expect, "index_max gives " << got << ", the first maximum is at " << expect); free(a);
	c.nontrivial(n >= 2);
}
static void index_max_any(Ctx& c){ switch(c.g.below(5)){ case 0: return index_max_case<int>(c); case 1: return index_max_case<double>(c); case 2: return index_max_case<float>(c); case 3: return index_max_case<unsigned>(c); default: return index_max_case<long>(c); } }
template<class T> static void shuffle_case(Ctx& c){
	Gen& g = c.g; size_t n = g.length(200); u_style = (int)g.below(4); u_rng.reseed(g.seed());
	T* a = (T*)malloc(n * sizeof(T) + 1); std::vector<T> copy(n); for(size_t i = 0; i < n; ++i) copy[i] = a[i] = g.flip() ? (T)i : (T)g.below(10);
	Utils::shuffle<UF, T>(a, (int)n);
	std::vector<T> after(a, a + n); SAY(c, "shuffle of " << n << ": " << show_list(after.begin(), after.end()));
	std::sort(after.begin(), after.end()); std::sort(copy.begin(), copy.end());
	CHECK(after == copy, "shuffle did not keep the elements"); free(a);
	c.nontrivial(n >= 2);
}
static void shuffle_any(Ctx& c){ switch(c.g.below(3)){ case 0: return shuffle_case<int>(c); case 1: return shuffle_case<double>(c); default: return shuffle_case<short>(c); } }
// over many shuffles every element reaches every other position
static void shuffle_mix(Ctx& c){
	Gen& g = c.g; int n = 2 + (int)g.below(7); u_style = 0; u_rng.reseed(g.seed()); std::vector<std::vector<int>> seen(n, std::vector<int>(n));
	for(int k = 0; k < 3000; ++k){ int a[9]; for(int i = 0; i < n; ++i) a[i] = i; Utils::shuffle<UF, int>(a, n); for(int i = 0; i < n; ++i) seen[a[i]][i]++; }
	for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) if(i != j) CHECK(seen[i][j] > 3000 / n / 4, "element " << i << " of " << n << " came to position " << j << " only " << seen[i][j] << " times of 3000");
	SAY(c, "3000 shuffles of " << n); c.nontrivial();
}
// more values than a short holds
static void large(Ctx& c){
	Gen& g = c.g; int n = 1 + (int)g.below(150000); Rng r = g.fork(); std::vector<int> a(n); for(int i = 0; i < n; ++i) a[i] = (int)r.below(1 << 30); int at = (int)r.below(n); if(g.flip()) a[at] = INT_MAX;
	int expect = (int)(std::max_element(a.begin(), a.end()) - a.begin()), got = Utils::index_max(a.data(), n);
	CHECK(got == expect, "index_max of " << n << " values gives " << got << ", the first maximum is at " << expect);
	for(int i = 0; i < n; ++i) a[i] = i;
	u_style = 0; u_rng.reseed(g.seed()); Utils::shuffle<UF, int>(a.data(), n);
	int stay = 0; std::vector<double> far(8 * 8); for(int i = 0; i < n; ++i){ stay += a[i] == i; if(a[i] >= 0 && a[i] < n) far[(i64)a[i] * 8 / n * 8 + (i64)i * 8 / n]++; }
	auto b = a; std::sort(b.begin(), b.end()); for(int i = 0; i < n; ++i) CHECK(b[i] == i, "shuffling " << n << " values loses " << i);
	if(n > 2000){ CHECK(stay < 40, stay << " of " << n << " shuffled values stay in place"); for(int i = 0; i < 64; ++i) CHECK(std::fabs(far[i] - n / 64.) <= 12 * std::sqrt(n / 64.) + 4, far[i] << " of " << n << " shuffled values move from eighth " << i / 8 << " to eighth " << i % 8); }
	SAY(c, n << " values"); c.nontrivial(n >= 2);
}
static void numbers(Ctx& c){
	Gen& g = c.g;
	int a = gen_num<int>(g), b = gen_num<int>(g); double x = gen_num<double>(g), y = gen_num<double>(g);
	CHECK(Utils::min(a, b) == std::min(a, b) && Utils::max(a, b) == std::max(a, b), "min/max of " << a << "," << b);
	CHECK(Utils::min(x, y) == std::min(x, y) && Utils::max(x, y) == std::max(x, y), "min/max of " << x << "," << y);
	if(a != INT_MIN) CHECK(Utils::abs(a) == std::abs(a), "abs(" << a << ")=" << Utils::abs(a));
	CHECK(Utils::abs(x) == std::fabs(x), "abs(" << x << ")=" << Utils::abs(x));
	double v = g.centered(100000) + g.unit(); int r = Utils::round(v);
	CHECK(std::fabs(r - v) <= 0.5, "round(" << v << ")=" << r);
	int h = (int)g.centered(100000); CHECK(Utils::round((double)h) == h, "round(" << h << ")=" << Utils::round((double)h));
	CHECK(Utils::round(h + 0.5) == (h >= 0 ? h + 1 : h), "round(" << h + 0.5 << ")=" << Utils::round(h + 0.5)); // halves away from zero
	float f = (float)h / 4; CHECK(std::fabs(Utils::round(f) - f) <= 0.5f, "round(" << f << "f)");
	// one float or double next to a half: the nearest integer is the only answer
	double hd = h + 0.5; float hf = (float)h + 0.5f;
	for(double near : {std::nextafter(hd, -INFINITY), std::nextafter(hd, INFINITY)}) CHECK(std::fabs(Utils::round(near) - std::round(near)) == 0, "round("  << near << ")=" << Utils::round(near));
	for(float near : {std::nextafter(hf, -INFINITY), std::nextafter(hf, INFINITY)}) CHECK(Utils::round(near) == (int)std::round((double)near), "round("  << near << "f)=" << Utils::round(near));
	int big = (int)g.centered(1 << 24); CHECK(Utils::round((float)big) == big, "round(" << big << "f)=" << Utils::round((float)big));
	int num = (int)g.centered(1000000), den = 1 + (int)g.below(g.flip() ? 1000 : 100000);
	CHECK(Utils::div_int<int>(num, den) == num / den, "div_int(" << num << "," << den << ")=" << Utils::div_int<int>(num, den));
	double e = g.centered(20) + g.unit(); CHECK(std::fabs(Utils::expm1<UF>(e) - std::expm1(e)) <= 1e-12 * (1 + std::exp(e)), "expm1(" << e << ")=" << Utils::expm1<UF>(e));
	SAY(c, "a=" << a << " b=" << b << " x=" << x << " y=" << y << " v=" << v << " h=" << h << " num=" << num << " den=" << den << " e=" << e);
	c.nontrivial(a != b);
}
FACET_FN(U03, index_max, index_max_any, 300000, 2000000, "at least two values");
FACET_FN(U03, shuffle, shuffle_any, 100000, 600000, "at least two values");
FACET_FN(U03, shuffle_mix, shuffle_mix, 200, 3000, "always");
FACET_FN(U03, large, large, 300, 2000, "at least two values");
FACET_FN(U03, numbers, numbers, 300000, 2000000, "two different numbers");
