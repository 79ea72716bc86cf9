// Helpers shared by the harnesses.
#ifndef COMMON_HPP
#define COMMON_HPP
#include "pbt.hpp"
using namespace std; // the headers under test expect their includer to bring std names into scope
using pbt::Ctx; using pbt::Gen; using pbt::Rng; using pbt::u64; using pbt::i64;

// Memory before an object is made: bytes, small numbers (2..15) or doubles (16..19).
inline void fill_memory(void* at, size_t n, unsigned char fill){
	static const double d[] = {1, 0.5, -3, 1e6}; unsigned char* p = (unsigned char*)at; unsigned w = fill; memset(at, fill, n);
	if(fill >= 2 && fill < 16) for(size_t i = 0; i + 4 <= n; i += 4) memcpy(p + i, &w, 4); else if(fill >= 16 && fill < 20) for(size_t i = 0; i + 8 <= n; i += 8) memcpy(p + i, d + fill - 16, 8);
	asm volatile("" : : "r"(at) : "memory");
}
// An object in an exact-size heap block whose memory held `fill` before its
// construction: AddressSanitizer sees any access past it, and members that the
// constructor forgets have a value we chose.
template<class T>
struct Boxed {
	void* raw; T* p;
	template<class... A> explicit Boxed(unsigned char fill, A&&... a){
		size_t al = alignof(T) < 16 ? 16 : alignof(T);
		if(posix_memalign(&raw, al, sizeof(T))) abort();
		fill_memory(raw, sizeof(T), fill);
		p = new (raw) T(std::forward<A>(a)...);
	}
	~Boxed(){ p->~T(); free(raw); }
	Boxed(Boxed const&) = delete;
	T* operator->(){ return p; }
	T& operator*(){ return *p; }
};
inline unsigned char gen_fill(Gen& g){ static const unsigned char f[] = {0, 0xff, 0xaa, 0x01, 0x7f, 0x80, 0x55, 0xcd}; u64 k = g.below(11); return k < 8 ? f[k] : k < 10 ? (unsigned char)(2 + g.below(18)) : (unsigned char)g.below(256); }
template<class T> std::string show(T const& v){ std::ostringstream o; o.precision(12); o << v; return o.str(); }
template<class It> std::string show_list(It a, It b, size_t cap = 40){ std::ostringstream o; o.precision(10); o << "["; size_t n = 0; for(; a != b; ++a, ++n){ if(n == cap){ o << " ..."; break; } o << (n ? " " : "") << +*a; } o << "]"; return o.str(); }
#endif
