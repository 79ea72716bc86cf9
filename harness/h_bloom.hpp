#ifndef H_BLOOM_HPP
#define H_BLOOM_HPP
#include "common.hpp"
#include "bloom_filter.hpp"

// Elements carry a key; the hash functions look their value up in a table that
// the case fills, so that the case controls every collision.
static const int BKEYS = 64, BHASH = 9;
static unsigned int b_table[BHASH][BKEYS];
struct BigElement { char pad[37]; int key; double more[3]; };
struct OddElement { unsigned char key; unsigned char x[2]; };
inline int bkey(int* e){ return *e; }
inline int bkey(unsigned char* e){ return *e; }
inline int bkey(double* e){ return (int)*e; }
inline int bkey(BigElement* e){ return e->key; }
inline int bkey(OddElement* e){ return e->key; }
inline void bmake(int& e, int k){ e = k; }
inline void bmake(unsigned char& e, int k){ e = (unsigned char)k; }
inline void bmake(double& e, int k){ e = k + 0.25; }
inline void bmake(BigElement& e, int k){ memset(&e, k, sizeof e); e.key = k; }
inline void bmake(OddElement& e, int k){ memset(&e, k, sizeof e); e.key = (unsigned char)k; }
template<class E, int I> unsigned int bhash(E* e){ return b_table[I][bkey(e)]; }
template<class E> struct BHashes {
	typedef unsigned int (*fn)(E*);
	static fn* list(){ static fn f[BHASH] = {bhash<E, 0>, bhash<E, 1>, bhash<E, 2>, bhash<E, 3>, bhash<E, 4>, bhash<E, 5>, bhash<E, 6>, bhash<E, 7>, bhash<E, 8>}; return f; }
};
inline void gen_table(Gen& g, int bits, int hashes){
	// styles: uniform, few distinct values, runs near the edges
	int style = (int)g.below(4);
	Rng r = g.fork();
	for(int h = 0; h < BHASH; ++h) for(int k = 0; k < BKEYS; ++k){
		unsigned v;
		if(style == 0) v = (unsigned)((k * (h + 1) + h) % bits);
		else if(style == 1) v = (unsigned)r.below(bits);
		else if(style == 2) v = (unsigned)(bits - 1 - r.below(std::min(bits, 12)));
		else v = (unsigned)(r.prob(0.5) ? r.below(std::min(bits, 9)) : r.below(bits));
		b_table[h][k] = v;
	}
}

enum { B_NEG = 1, B_EXACT = 2 };
// Sequences of add, lookup, clear and set over two filters of the same type, against a set of bits.
template<class E, int BITS, int HASHES, int FLAGS> void bloom_model(Ctx& c){
	Gen& g = c.g;
	gen_table(g, BITS, HASHES);
	typedef BloomFilter<E, BITS, HASHES> F;
	typename BHashes<E>::fn* hf = BHashes<E>::list();
	// the filter may not keep a pointer to the caller's array
	std::vector<typename BHashes<E>::fn> mine(hf, hf + HASHES);
	unsigned char fill = gen_fill(g);
	Boxed<F> a(fill, mine.data()), b((unsigned char)~fill, mine.data());
	for(auto& m : mine) m = nullptr;
	F* f[2] = {a.p, b.p};
	std::vector<bool> bits[2] = {std::vector<bool>(BITS), std::vector<bool>(BITS)};
	std::set<int> added[2];
	const int nbytes = (BITS + 7) / 8;
	size_t n = g.length(g.below(8) == 7 ? 250 : 60);
	SAY(c, "BloomFilter<" << sizeof(E) << " bytes," << BITS << "," << HASHES << ">:");
	auto verify = [&](int w, int k, bool by_value){
		E e; bmake(e, k); E copy; memcpy(&copy, &e, sizeof e);
		bool got = by_value ? f[w]->lookup(e) : f[w]->lookup(&e);
		bool expect = true;
		for(int h = 0; h < HASHES; ++h) expect = expect && bits[w][b_table[h][k]];
		CHECK(memcmp(&copy, &e, sizeof e) == 0, "lookup changed its argument");
		if(FLAGS & B_NEG) CHECK(got || !added[w].count(k), "false negative: key " << k << " was added to filter " << w << " and lookup says no");
		if(FLAGS & B_EXACT) CHECK(got == expect, "lookup of key " << k << " in filter " << w << " gives " << got << ", all its bits set: " << expect);
		return got;
	};
	bool after_clear = false, hit_new = false;
	for(size_t i = 0; i < n; ++i){
		int w = (int)g.below(2), k = (int)g.below(BKEYS);
		u64 op = g.below(20);
		if(op < 10){
			E e; bmake(e, k);
			SAY(c, " add" << w << "(" << k << ")");
			if(g.flip()) f[w]->add(e); else f[w]->add(&e);
			added[w].insert(k);
			for(int h = 0; h < HASHES; ++h) bits[w][b_table[h][k]] = true;
		}else if(op < 17){
			bool got = verify(w, k, g.flip());
			SAY(c, " lookup" << w << "(" << k << ")=" << got);
			if(got && !added[w].count(k)) hit_new = true;
		}else if(op == 17){
			SAY(c, " clear" << w);
			f[w]->clear(); added[w].clear(); std::fill(bits[w].begin(), bits[w].end(), false); after_clear = true;
		}else{
			bool ones = op == 18;
			SAY(c, " set" << w << (ones ? "(ones)" : "(zeros)"));
			std::vector<unsigned char> arr(nbytes, ones ? 0xff : 0);
			f[w]->set(arr.data());
			std::fill(arr.begin(), arr.end(), ones ? 0 : 0xff);
			added[w].clear(); std::fill(bits[w].begin(), bits[w].end(), ones);
			if(FLAGS == B_NEG && ones) for(int k2 = 0; k2 < BKEYS; ++k2) added[w].insert(k2);
		}
		if(i % 8 == 7 || i + 1 == n) for(int w2 = 0; w2 < 2; ++w2) for(int k2 = 0; k2 < BKEYS; ++k2) verify(w2, k2, false);
	}
	c.label_if(after_clear, "has clear"); c.label_if(hit_new, "positive for an element never added");
	c.nontrivial(added[0].size() + added[1].size() >= 2);
}

// Many elements, filter far larger or far smaller than the load.
static unsigned int b_salt[BHASH]; static unsigned int b_mod;
template<int I> unsigned int bulk_hash(int* e){ return (unsigned int)(pbt::mix(((u64)(unsigned)*e << 32) ^ b_salt[I]) % b_mod); }
template<int BITS, int HASHES, int FLAGS> void bloom_bulk(Ctx& c){
	Gen& g = c.g;
	typedef BloomFilter<int, BITS, HASHES> F;
	typedef unsigned int (*fn)(int*);
	fn l[BHASH] = {bulk_hash<0>, bulk_hash<1>, bulk_hash<2>, bulk_hash<3>, bulk_hash<4>, bulk_hash<5>, bulk_hash<6>, bulk_hash<7>, bulk_hash<8>};
	b_mod = BITS;
	for(int i = 0; i < BHASH; ++i) b_salt[i] = (unsigned)g.draw(1u << 30) * 9 + i;
	Boxed<F> f(gen_fill(g), l);
	std::vector<bool> bits(BITS);
	std::vector<int> in;
	int n = 1 + (int)g.length(BITS / HASHES + 8);
	Rng r = g.fork();
	SAY(c, "BloomFilter<int," << BITS << "," << HASHES << "> with " << n << " random elements");
	for(int i = 0; i < n; ++i){
		int e = (int)r.next(); in.push_back(e);
		f->add(e);
		for(int h = 0; h < HASHES; ++h) bits[l[h](&e)] = true;
	}
	for(int e : in) CHECK(f->lookup(e), "false negative: " << e << " of " << n);
	int positives = 0;
	if(FLAGS & B_EXACT) for(int i = 0; i < 400; ++i){
		int e = (int)r.next(); bool expect = true;
		for(int h = 0; h < HASHES; ++h) expect = expect && bits[l[h](&e)];
		bool got = f->lookup(&e);
		CHECK(got == expect, "lookup of " << e << " gives " << got << ", all its bits set: " << expect);
		positives += got;
	}
	c.label_if(positives > 0, "false positives exist"); c.nontrivial(n >= 2);
}

// set() copies exactly ceil(BITS / 8) bytes; each index is one bit of that array.
template<int BITS> void bloom_set(Ctx& c){
	Gen& g = c.g;
	typedef BloomFilter<int, BITS, 1> F; typedef unsigned int (*fn)(int*);
	struct H { static unsigned int h(int* e){ return (unsigned)*e; } };
	fn l[1] = {H::h};
	Boxed<F> f(gen_fill(g), l);
	const int nbytes = (BITS + 7) / 8;
	std::vector<int> owner(nbytes * 8, -1);
	std::vector<int> seen(BITS, 0);
	// to bound the cost on big filters, single bits are explored in a random byte window
	int lo = BITS <= 200 ? 0 : (int)g.below(nbytes - 8), hi = BITS <= 200 ? nbytes : lo + 8;
	if(BITS > 200 && g.below(3) == 0){ hi = nbytes; lo = nbytes - 8; }
	SAY(c, "set() on a filter of " << BITS << " bits, bytes " << lo << ".." << hi - 1);
	int answered = 0;
	for(int byte = lo; byte < hi; ++byte) for(int bit = 0; bit < 8; ++bit){
		unsigned char* arr = (unsigned char*)malloc(nbytes); memset(arr, 0, nbytes); arr[byte] = (unsigned char)(1 << bit);
		f->set(arr); free(arr);
		int who = -1, count = 0;
		for(int i = 0; i < BITS; ++i) if(f->lookup(i)){ who = i; ++count; ++seen[i]; }
		CHECK(count <= 1, "a single bit of the array answers for " << count << " indexes");
		owner[byte * 8 + bit] = who; answered += count;
	}
	for(int i = 0; i < BITS; ++i) CHECK(seen[i] <= 1, "index " << i << " is answered by " << seen[i] << " bits of the array");
	int window = (hi - lo) * 8;
	int padding = nbytes * 8 - BITS;
	CHECK(answered >= window - padding, "only " << answered << " of " << window << " bits of the array are used");
	if(lo == 0 && hi == nbytes) CHECK(answered == BITS, answered << " indexes answer, " << BITS << " expected");
	// arbitrary contents, then additions
	std::vector<unsigned char> arr(nbytes, 0); std::set<int> expect;
	for(int byte = lo; byte < hi; ++byte){ arr[byte] = (unsigned char)g.below(256); for(int bit = 0; bit < 8; ++bit) if(arr[byte] >> bit & 1 && owner[byte * 8 + bit] >= 0) expect.insert(owner[byte * 8 + bit]); }
	f->set(arr.data());
	std::fill(arr.begin(), arr.end(), 0xff);
	for(int k = (int)g.below(6); k > 0; --k){ int e = (int)g.below(BITS); f->add(e); expect.insert(e); }
	for(int i = 0; i < BITS; ++i) CHECK(f->lookup(i) == (expect.count(i) > 0), "after set and add, index " << i << " gives " << f->lookup(i));
	f->clear();
	for(int i = 0; i < BITS; ++i) CHECK(!f->lookup(i), "after clear, index " << i << " is still set");
	c.nontrivial(expect.size() >= 1);
}

template<int FLAGS> void bloom_model_any(Ctx& c){
	switch(c.g.below(16)){
		case 0: return bloom_model<int, 1, 1, FLAGS>(c);
		case 1: return bloom_model<unsigned char, 2, 2, FLAGS>(c);
		case 2: return bloom_model<int, 7, 3, FLAGS>(c);
		case 3: return bloom_model<double, 8, 2, FLAGS>(c);
		case 4: return bloom_model<OddElement, 9, 1, FLAGS>(c);
		case 5: return bloom_model<int, 15, 4, FLAGS>(c);
		case 6: return bloom_model<BigElement, 16, 5, FLAGS>(c);
		case 7: return bloom_model<int, 17, 2, FLAGS>(c);
		case 8: return bloom_model<int, 63, 3, FLAGS>(c);
		case 9: return bloom_model<unsigned char, 64, 9, FLAGS>(c);
		case 10: return bloom_model<double, 65, 1, FLAGS>(c);
		case 11: return bloom_model<int, 100, 3, FLAGS>(c);
		case 12: return bloom_model<BigElement, 256, 8, FLAGS>(c);
		case 13: return bloom_model<int, 257, 2, FLAGS>(c);
		case 14: return bloom_model<int, 1000, 6, FLAGS>(c);
		default: return bloom_model<OddElement, 70001, 4, FLAGS>(c);
	}
}
template<int FLAGS> void bloom_bulk_any(Ctx& c){
	switch(c.g.below(6)){
		case 0: return bloom_bulk<13, 2, FLAGS>(c);
		case 1: return bloom_bulk<512, 4, FLAGS>(c);
		case 2: return bloom_bulk<1021, 7, FLAGS>(c);
		case 3: return bloom_bulk<8192, 3, FLAGS>(c);
		case 4: return bloom_bulk<40000, 1, FLAGS>(c);
		default: return bloom_bulk<131073, 9, FLAGS>(c);
	}
}
// Filters of more than 65536 bytes: elements whose bits share the low bits of their index, near the ends and around powers of two.
template<int BITS, int HASHES, int FLAGS> void bloom_large(Ctx& c){
	Gen& g = c.g;
	gen_table(g, BITS, HASHES);
	typedef BloomFilter<int, BITS, HASHES> F; Rng r = g.fork(); int style = (int)g.below(4); unsigned low = (unsigned)r.below(1 << 16);
	for(int h = 0; h < BHASH; ++h) for(int k = 0; k < BKEYS; ++k){
		u64 v = b_table[h][k];
		if(style == 1 || (style == 3 && r.prob(0.5))) v = (u64)r.below(BITS >> 16) << 16 | low; // the same low bits
		if(style == 2 || (style == 3 && r.prob(0.5))) v = (1ULL << r.below(31)) - 2 + r.below(4); // around powers of two
		b_table[h][k] = (unsigned)(v < BITS ? v : BITS - 1 - v % 64);
	}
	Boxed<F> f(gen_fill(g), BHashes<int>::list()); std::set<unsigned> bits; std::set<int> in;
	int n = (int)g.below(BKEYS);
	SAY(c, "BloomFilter<int," << BITS << "," << HASHES << "> style " << style << ":");
	for(int i = 0; i < n; ++i){ int k = (int)g.below(BKEYS); SAY(c, " " << k); f->add(k); in.insert(k); for(int h = 0; h < HASHES; ++h) bits.insert(b_table[h][k]); }
	for(int k = 0; k < BKEYS; ++k){
		bool all = true; for(int h = 0; h < HASHES; ++h) all = all && bits.count(b_table[h][k]);
		bool got = f->lookup(k);
		if(FLAGS & B_NEG) CHECK(got || !in.count(k), "false negative: key " << k << " (bit " << b_table[0][k] << " of " << BITS << ")");
		if(FLAGS & B_EXACT) CHECK(got == all, "lookup of key " << k << " (bit " << b_table[0][k] << " of " << BITS << ") gives " << got << ", all its bits set: " << all);
	}
	if(FLAGS & B_EXACT){ f->clear(); for(int k = 0; k < BKEYS; ++k) CHECK(!f->lookup(k), "after clear, key " << k << " (bit " << b_table[0][k] << " of " << BITS << ") is in the filter"); }
	if((FLAGS & B_EXACT) && BITS < INT_MAX && g.below(4) == 0){ // set() takes all of the array
		std::vector<unsigned char> arr((BITS + 7) / 8, 0xff); bool part = g.flip(); u64 keep = r.below(arr.size()); if(part) std::fill(arr.begin(), arr.begin() + keep, 0);
		f->set(arr.data());
		for(int k = 0; k < BKEYS; ++k){ u64 lo = BITS; for(int h = 0; h < HASHES; ++h){ lo = std::min<u64>(lo, b_table[h][k] / 8); }
			bool expect = !part || lo >= keep; bool got = f->lookup(k); CHECK(got == expect, "key " << k << " (byte " << lo << " of " << arr.size() << ") gives " << got << " after set() with ones" << (part ? " from byte " : "") << (part ? show(keep) : "")); }
	}
	c.nontrivial(in.size() >= 2);
}
template<int FLAGS> void bloom_large_any(Ctx& c){
	u64 w = c.g.below(c.slow ? 32 : 256);
	if(w == 255 || (c.slow && w == 31)) return bloom_large<INT_MAX, 3, FLAGS>(c); // the largest possible filter
	switch(w % 4){
		case 0: return bloom_large<600001, 1, FLAGS>(c);
		case 1: return bloom_large<1048576, 2, FLAGS>(c);
		case 2: return bloom_large<2000003, 3, FLAGS>(c);
		default: return bloom_large<16777217, 4, FLAGS>(c);
	}
}
#endif
