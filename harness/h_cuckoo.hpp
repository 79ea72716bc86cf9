#ifndef H_CUCKOO_HPP
#define H_CUCKOO_HPP
#include "common.hpp"
#include "cuckoo_filter.hpp"

// Elements are keys; the case fills the tables of fingerprints and hashes.
static const int CKEYS = 48;
static unsigned char c_fp[CKEYS]; static unsigned int c_h[CKEYS]; static unsigned int c_hf[256];
struct CBig { char pad[21]; int key; };
inline int ckey(int const* e){ return *e; }
inline int ckey(CBig const* e){ return e->key; }
inline void cmake(int& e, int k){ e = k; }
inline void cmake(CBig& e, int k){ memset(&e, 0x5a, sizeof e); e.key = k; }
template<class E> struct CFunct {
	static unsigned char fingerprint(E const* e){ return c_fp[ckey(e)]; }
	static unsigned int hash(E const* e){ return c_h[ckey(e)]; }
	static unsigned int hash(unsigned char fp){ return c_hf[fp]; }
};
// random function given to the filter, in [0, 1[
static Rng c_rng(1); static int c_rng_style;
static double c_random(){
	static const double edges[] = {0.0, 0.5, 0.49999999999999994, 0.5000000000000001, 0.99999999999999989, 0.25, 0.75};
	if(c_rng_style == 0) return c_rng.unit();
	if(c_rng_style == 1) return edges[c_rng.below(7)];
	if(c_rng_style == 2) return 0.0;
	if(c_rng_style == 3) return 0.99999999999999989;
	return c_rng.prob(0.5) ? edges[c_rng.below(7)] : c_rng.unit();
}
enum { CK_NEG = 1, CK_EXACT = 2, CK_ROOM = 4 };

struct CuckooModel {
	int buckets, size;
	std::map<std::pair<int, std::pair<unsigned, unsigned>>, int> count; // by fingerprint and pair of buckets
	int total = 0;
	CuckooModel(int b, int s) : buckets(b), size(s) {}
	static std::pair<int, std::pair<unsigned, unsigned>> key(int k){
		unsigned h1 = c_h[k], h2 = h1 ^ c_hf[c_fp[k]];
		return {c_fp[k], {std::min(h1, h2), std::max(h1, h2)}};
	}
	int has(int k){ auto it = count.find(key(k)); return it == count.end() ? 0 : it->second; }
	void add(int k){ count[key(k)]++; total++; }
	void remove(int k){ auto it = count.find(key(k)); if(it != count.end() && it->second > 0){ it->second--; total--; if(!it->second) count.erase(it); } }
	void clear(){ count.clear(); total = 0; }
	// the most entries that can be in bucket b
	int at_most(unsigned b){ int n = 0; for(auto& e : count) if(e.first.second.first == b || e.first.second.second == b) n += e.second; return n; }
	bool surely_room(unsigned b){ return at_most(b) < size; }
	// whether add(k) has to succeed wherever the filter put its entries
	bool must_succeed(int k){
		auto q = key(k).second;
		if(surely_room(q.first) || surely_room(q.second)) return true;
		// one eviction: every entry that may be in the two buckets has room in its other bucket
		bool all = true;
		for(auto& e : count){
			unsigned a = e.first.second.first, b = e.first.second.second;
			if(a == q.first || a == q.second) all = all && surely_room(b);
			if(b == q.first || b == q.second) all = all && surely_room(a);
		}
		return all;
	}
	// the most the buckets can hold at all
	bool must_fail(int k){
		auto q = key(k).second; // all pairs that lie within {q.first,q.second} fill it
		int n = 0; for(auto& e : count) if((e.first.second.first == q.first || e.first.second.first == q.second) && (e.first.second.second == q.first || e.first.second.second == q.second)) n += e.second;
		return n >= size * (q.first == q.second ? 1 : 2);
	}
};

template<class E, int BUCKETS, int SIZE, int BITS, int EMPTY, int FLAGS> void cuckoo_model(Ctx& c){
	Gen& g = c.g;
	const unsigned nfp = 1u << BITS;
	Rng r = g.fork();
	int style = (int)g.below(4);
	for(unsigned i = 0; i < 256; ++i) c_hf[i] = style == 1 ? 0 : style == 2 ? (unsigned)(i % 2 ? BUCKETS - 1 : 0) : (unsigned)r.below(BUCKETS);
	int keys = 1 + (int)g.below(CKEYS); bool stride = BUCKETS > 4096 && g.flip(); // hashes with the same low bits
	for(int k = 0; k < CKEYS; ++k){
		unsigned fp;
		do fp = style == 3 ? (unsigned)(nfp - 1 - r.below(std::min(nfp, 3u))) : (unsigned)r.below(nfp); while((int)fp == EMPTY);
		c_fp[k] = (unsigned char)fp;
		c_h[k] = style == 3 ? (unsigned)(BUCKETS - 1 - r.below(std::min(BUCKETS, 2))) : (unsigned)r.below(BUCKETS);
		if(stride) c_h[k] = c_h[k] >> 11 << 11 | 5;
	}
	c_rng_style = (int)g.below(5); c_rng.reseed(g.seed());
	typedef CuckooFilter<E, BUCKETS, SIZE, BITS, CFunct<E>, c_random, EMPTY> F;
	unsigned char fill = gen_fill(g);
	Boxed<F> a(fill), b((unsigned char)~fill);
	F* f[2] = {a.p, b.p};
	CuckooModel m[2] = {CuckooModel(BUCKETS, SIZE), CuckooModel(BUCKETS, SIZE)};
	SAY(c, "CuckooFilter<" << sizeof(E) << " bytes," << BUCKETS << "x" << SIZE << "x" << BITS << " bits,empty=" << EMPTY << ">, " << keys << " keys:");
	bool failed = false, removed = false, kicked = false;
	auto verify = [&](int w, int k, bool by_value){
		E e; cmake(e, k); E copy; memcpy(&copy, &e, sizeof e);
		bool got = by_value ? f[w]->lookup(e) : f[w]->lookup((E const*)&e);
		int have = m[w].has(k);
		CHECK(memcmp(&copy, &e, sizeof e) == 0, "lookup changed its argument");
		if(FLAGS & CK_NEG) CHECK(got || !have, "false negative: key " << k << " (fingerprint " << (int)c_fp[k] << ", buckets " << c_h[k] << "," << (c_h[k] ^ c_hf[c_fp[k]]) << ") was added to filter " << w << " and not removed");
		if(FLAGS & CK_EXACT) CHECK(got == (have > 0), "lookup of key " << k << " (fingerprint " << (int)c_fp[k] << ") in filter " << w << " gives " << got << " but " << have << " equal entries are stored");
		return got;
	};
	size_t n = g.length(g.below(6) == 5 ? 400 : 80);
	int add_weight = 6 + (int)g.below(9);
	size_t every = n > 100 ? 16 : 4;
	for(size_t i = 0; i < n; ++i){
		int w = g.below(4) == 3, k = (int)g.below(keys); int op = (int)g.below(20);
		E e; cmake(e, k);
		if(op < add_weight){
			bool must = (FLAGS & CK_ROOM) && m[w].must_succeed(k), cant = m[w].must_fail(k);
			if(FLAGS & CK_ROOM && !m[w].surely_room(c_h[k]) && !m[w].surely_room(c_h[k] ^ c_hf[c_fp[k]])) kicked = true;
			bool ok = g.flip() ? f[w]->add(e) : f[w]->add((E const*)&e);
			SAY(c, " add" << w << "(" << k << ")=" << ok);
			if(FLAGS & CK_ROOM) CHECK(ok || !must, "add of key " << k << " failed although there is room for it wherever the entries are");
			if(FLAGS & CK_EXACT) CHECK(!(ok && cant), "add of key " << k << " succeeded although both its buckets are full");
			if(ok) m[w].add(k); else failed = true;
			if(!ok || kicked) for(int k2 = 0; k2 < keys; ++k2) verify(w, k2, false);
		}else if(op < 16){
			SAY(c, " remove" << w << "(" << k << ")");
			if(g.flip()) f[w]->remove(e); else f[w]->remove((E const*)&e);
			if(m[w].has(k)) removed = true;
			m[w].remove(k);
		}else if(op < 19){ bool got = verify(w, k, g.flip()); SAY(c, " lookup" << w << "(" << k << ")=" << got); }
		else if(g.below(3) == 2){ SAY(c, " clear" << w); f[w]->clear(); m[w].clear(); }
		if(i % every == every - 1 || i + 1 == n) for(int w2 = 0; w2 < 2; ++w2) for(int k2 = 0; k2 < keys; ++k2) verify(w2, k2, false);
	}
	c.label_if(failed, "a full add"); c.label_if(removed, "an entry removed"); c.label_if(m[0].total > BUCKETS * SIZE / 2, "more than half full at the end");
	c.nontrivial(m[0].total + m[1].total >= 2 || failed || removed);
}
template<int FLAGS> void cuckoo_any(Ctx& c){
	switch(c.g.below(18)){
		case 0: return cuckoo_model<int, 1, 1, 8, 0, FLAGS>(c);
		case 1: return cuckoo_model<int, 1, 4, 8, 0, FLAGS>(c);
		case 2: return cuckoo_model<int, 2, 1, 4, 0, FLAGS>(c);
		case 3: return cuckoo_model<CBig, 2, 3, 3, 0, FLAGS>(c);
		case 4: return cuckoo_model<int, 4, 1, 8, 0, FLAGS>(c);
		case 5: return cuckoo_model<int, 4, 2, 7, 0, FLAGS>(c);
		case 6: return cuckoo_model<int, 4, 4, 5, 31, FLAGS>(c);
		case 7: return cuckoo_model<CBig, 8, 2, 6, 5, FLAGS>(c);
		case 8: return cuckoo_model<int, 8, 4, 8, 255, FLAGS>(c);
		case 9: return cuckoo_model<int, 8, 1, 1, 0, FLAGS>(c);
		case 10: return cuckoo_model<int, 8, 3, 2, 1, FLAGS>(c);
		case 11: return cuckoo_model<int, 16, 1, 8, 128, FLAGS>(c);
		case 12: return cuckoo_model<int, 16, 5, 7, 0, FLAGS>(c);
		case 13: return cuckoo_model<CBig, 32, 4, 8, 0, FLAGS>(c);
		case 14: return cuckoo_model<int, 64, 2, 3, 7, FLAGS>(c);
		case 15: return cuckoo_model<int, 256, 4, 8, 0, FLAGS>(c);
		case 16: return cuckoo_model<int, 2, 9, 8, 0, FLAGS>(c);
		default: return cuckoo_model<int, 4, 3, 4, 0, FLAGS>(c);
	}
}
// filters of more than 65536 entries or bytes
template<int FLAGS> void cuckoo_large_any(Ctx& c){
	switch(c.g.below(c.slow ? 6 : 5)){
		case 0: return cuckoo_model<int, 8192, 1, 8, 0, FLAGS>(c);
		case 1: return cuckoo_model<int, 16384, 5, 7, 0, FLAGS>(c);
		case 2: return cuckoo_model<CBig, 65536, 2, 8, 3, FLAGS>(c);
		case 3: return cuckoo_model<int, 32768, 2, 1, 1, FLAGS>(c);
		case 4: return cuckoo_model<int, 131072, 4, 5, 31, FLAGS>(c);
		default: return cuckoo_model<int, 4194304, 8, 8, 0, FLAGS>(c);
	}
}

// Filling a filter with well spread fingerprints.
static unsigned b_salt_c; static unsigned c_mod; static unsigned c_fpmod;
struct CLoad {
	static unsigned char fingerprint(u64 const* e){ return (unsigned char)(1 + pbt::mix(*e ^ ((u64)b_salt_c << 20)) % c_fpmod); }
	static unsigned int hash(u64 const* e){ return (unsigned)(pbt::mix(*e * 3 + b_salt_c) % c_mod); }
	static unsigned int hash(unsigned char fp){ return (unsigned)(pbt::mix(fp * 1315423911ULL + b_salt_c) % c_mod); }
};
template<int BUCKETS, int SIZE, int BITS> void cuckoo_load(Ctx& c, double must_load){
	Gen& g = c.g;
	b_salt_c = (unsigned)g.seed(); c_mod = BUCKETS; c_fpmod = (1u << BITS) - 1;
	c_rng_style = 0; c_rng.reseed(g.seed());
	typedef CuckooFilter<u64, BUCKETS, SIZE, BITS, CLoad, c_random> F;
	Boxed<F> f(gen_fill(g));
	std::vector<u64> in; Rng r = g.fork();
	const int cap = BUCKETS * SIZE; int first_fail = -1;
	for(int i = 0; i < cap + 8; ++i){
		u64 e = r.next(); bool ok = f->add(e);
		if(ok) in.push_back(e); else { if(first_fail < 0) first_fail = i; if(i > cap / 2 + 40 && g.mode != Gen::BYTES && i < cap) i += cap / 8; }
		CHECK((int)in.size() <= cap, "more entries were added than the filter has");
		if(!ok || i % 64 == 0) for(u64 x : in) CHECK(f->lookup(x), "false negative after " << in.size() << " additions");
	}
	SAY(c, "CuckooFilter " << BUCKETS << "x" << SIZE << "x" << BITS << " bits: first failed add at entry " << first_fail << " of " << cap);
	CHECK(first_fail >= must_load * cap, "an add failed with only " << first_fail << " of " << cap << " entries used");
	for(u64 x : in) CHECK(f->lookup(x), "false negative");
	// removing everything empties the filter: each removal takes exactly one entry
	for(size_t i = in.size(); i-- > 0; ){ f->remove(in[i]); if(i % 32 == 0) for(size_t j = 0; j < i; ++j) CHECK(f->lookup(in[j]), "false negative after a removal"); }
	for(u64 x : in) CHECK(!f->lookup(x), "an entry survived its removal");
	c.nontrivial();
}
template<int> void cuckoo_load_any(Ctx& c){
	switch(c.g.below(4)){
		case 0: return cuckoo_load<64, 4, 8>(c, 0.7);
		case 1: return cuckoo_load<128, 4, 7>(c, 0.7);
		case 2: return cuckoo_load<32, 8, 8>(c, 0.7);
		default: return cuckoo_load<256, 4, 8>(c, 0.7);
	}
}
#endif
