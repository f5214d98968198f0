#include "stdafx.h"
#include "mt_block_memory.h"
#include "h.h"
using namespace hh;
using basicmath::mt_block_memory;

struct big_t {
	i32 a; f64 b; u8 c[9];
	bool operator==(const big_t& o) const { return a == o.a && b == o.b && !memcmp(c, o.c, 9); }
};
template<class T> static T value(int n) { return (T)(n * 7 + 3); }
template<> big_t value<big_t>(int n) {
	big_t r; memset(&r, 0, sizeof r);
	r.a = n; r.b = n * 0.5; for (int i = 0; i < 9; ++i) r.c[i] = (u8)(n + i);
	return r;
}

template<class T> struct arena_test {
	mt_block_memory<T> bm;
	int base; bool use_new; int max_reuse;
	std::vector<T*> fresh;              // i-th element handed out from a new place
	std::map<T*, int> val;              // elements in use -> value they must hold
	std::vector<T*> returned;           // given back, last one is handed out first
	std::set<T*> given;                 // given back and not handed out again
	int serial;
	std::string hist;
	T foreign[4];

	void note(const char* s) { if (hist.size() < 3000) hist += s; }
	void add() {
		T* p = NULL; T* q = NULL;
		basicmath_block_memory_get(bm, p, T);
		basicmath_block_memory_get(bm, q, T);
		check(p == q, "looking at the next element twice gives two places");
		if (!returned.empty()) {
			check(p == returned.back(), "an element given back is not handed out next");
			given.erase(returned.back());
			returned.pop_back();
		} else {
			fresh.push_back(p);
		}
		check(!val.count(p), fmt("element %d is handed out while in use", (int)val.size()));
		basicmath_block_memory_add(bm);
		*p = value<T>(serial);
		val[p] = serial++;
		note("a");
	}
	void give(size_t k) {
		auto it = val.begin();
		std::advance(it, k);
		T* p = it->first;
		note("g");
		bool room = (int)returned.size() < max_reuse;
		basicmath_block_memory_reuse(bm, p);
		if (room) { returned.push_back(p); given.insert(p); }
		else given.insert(p);
		val.erase(it);
	}
	void forget() { fresh.clear(); val.clear(); returned.clear(); given.clear(); }
	void look() {
		if (!check(bm.m_element_number == (int)fresh.size(), fmt("element number is %d, %d elements were handed out", bm.m_element_number, (int)fresh.size()))) return;
		std::vector<T*> s = fresh;
		std::sort(s.begin(), s.end());
		for (size_t i = 1; i < s.size(); ++i) if (!check((char*)s[i] - (char*)s[i - 1] >= (long)sizeof(T), "two elements overlap")) return;
		for (auto& e : val) if (!check(*e.first == value<T>(e.second), "an element lost its content")) return;
		const mt_block_memory<T>& cb = bm;
		for (size_t i = 0; i < fresh.size(); ++i)
			if (!check(&bm.at((i32)i) == fresh[i] && &cb.at((i32)i) == fresh[i], fmt("element %d is not the one handed out as number %d", (int)i, (int)i))) return;
		typename mt_block_memory<T>::block_pos bp;
		size_t n = 0;
		for (;;) {
			if (n > fresh.size()) { check(false, "visiting does not end"); return; }
			basicmath_block_memory_visit(bm, bp);
			if (n == fresh.size()) break;
			if (!check(bp.m_data == fresh[n], fmt("visit number %d is another element", (int)n))) return;
			++n;
		}
		check(n == fresh.size() || bp.m_data == NULL, "visiting ends with an element");
		check(n == fresh.size(), fmt("visited %d of %d elements", (int)n, (int)fresh.size()));
		for (size_t i = 0; i < fresh.size(); i += 1 + fresh.size() / 16) check(bm.in_block(fresh[i]), fmt("element %d of %d is said to be outside", (int)i, (int)fresh.size()));
		if (!fresh.empty()) check(bm.in_block(fresh.back()), "the last element is said to be outside");
		for (int i = 0; i < 4; ++i) check(!bm.in_block(foreign + i), "a foreign element is said to be inside");
		if (bm.m_reuse_number == 0 && bm.m_cur_block >= 0) {
			T* p = NULL;
			basicmath_block_memory_get(bm, p, T);
			check(!bm.in_block(p), "the next element is said to be handed out");
		}
		u64 need = (u64)fresh.size() * sizeof(T);
		check(bm.memory_size() >= need, "memory size below the elements handed out");
	}
	std::string desc() { return fmt("size %d base %d new %d reuse %d ", (int)sizeof(T), base, use_new, max_reuse) + hist; }
	void init(int b, bool n, int r) {
		note(fmt("i(%d,%d,%d)", b, n, r).c_str());
		base = b; use_new = n; max_reuse = r;
		bm.init(b, n ? sys_true : sys_false, r);
		forget();
	}
};

template<class T> static void filled(int base, bool n, int r, int count, int ctor) {
	begin("fill", fmt("size %d base %d new %d reuse %d count %d ctor %d", (int)sizeof(T), base, n, r, count, ctor));
	arena_test<T> t;
	t.serial = 0;
	if (ctor) { mt_block_memory<T> m(base, n ? sys_true : sys_false, r); t.bm.swap(m); t.base = base; t.use_new = n; t.max_reuse = r; }
	else t.init(base, n, r);
	for (int round = 0; round < 3; ++round) {
		int c = round == 1 ? count + 3 : count;
		for (int i = 0; i < c; ++i) t.add();
		t.look();
		std::vector<T*> old = t.fresh;
		if (round == 0) {
			t.bm.reset();
			t.forget();
			for (size_t i = 0; i < old.size(); ++i) { t.add(); check(t.fresh[i] == old[i], "a reset arena of the same size hands out other places"); }
			t.bm.reset();
			t.forget();
		} else if (round == 1) {
			t.bm.clear();
			t.forget();
			check(t.bm.m_element_number == 0 && t.bm.memory_size() == 0, "not empty after clear");
			t.init(base, n, r);
		}
	}
}

template<class T> static void history(int maxbase, int steps) {
	arena_test<T> t;
	t.serial = 0;
	t.init((int)rnd(0, maxbase), rnd(0, 1), rnd(0, 2) ? (int)rnd(0, 12) : 0);
	for (int s = 0; s < steps; ++s) {
		begin("history", t.desc());
		long k = rnd(0, 99);
		if (k < 60) { int c = (int)rnd(1, k < 5 ? 40 : 3); for (int i = 0; i < c; ++i) t.add(); }
		else if (k < 80) { if (!t.val.empty() && t.max_reuse > 0) t.give((size_t)rnd(0, (long)t.val.size() - 1)); }
		else if (k < 84) { t.note("r"); t.bm.reset(); t.forget(); }
		else if (k < 87) t.init(t.base, t.use_new, rnd(0, 1) ? t.max_reuse : (int)rnd(0, 9));
		else if (k < 90) t.init((int)rnd(0, maxbase), rnd(0, 1), (int)rnd(0, 5));
		else if (k < 92) { t.note("c"); t.bm.clear(); t.forget(); t.init((int)rnd(0, maxbase), rnd(0, 1), (int)rnd(0, 5)); }
		else if (k < 95) { t.note("m"); mt_block_memory<T> o(std::move(t.bm)); check(t.bm.m_element_number == 0 && t.bm.m_datas.empty(), "moved arena keeps elements"); t.bm = std::move(o); }
		else if (k < 96) { t.note("C"); t.bm.clear(); t.forget(); t.base = 0; t.use_new = false; t.max_reuse = 0; t.bm.reset(); }
		t.look();
		if (failed_often("history")) return;
	}
}
void run() {
	for (int base = 0; base <= 6; ++base)
		for (int n = 0; n < 2; ++n)
			for (int count = 0; count <= (base < 4 ? 40 : 140); count += base < 3 ? 1 : 7)
				for (int ctor = 0; ctor < 2; ++ctor) {
					filled<i32>(base, n, count % 3, count, ctor);
					if (count % 2 == 0) filled<big_t>(base, n, 0, count, ctor);
					if (count % 3 == 0) filled<u8>(base, n, 2, count, ctor);
				}
	for (int base = 7; base <= N(10, 14); ++base) filled<i32>(base, base & 1, 0, (3 << base) + 5, 0);
	for (int t = 0; t < N(150, 3000); ++t) {
		history<i32>(t % 3 ? 3 : 6, t % 5 ? 40 : 150);
		history<big_t>(4, 40);
		history<u8>(2, 40);
	}
}
HARNESS_MAIN
