#include "stdafx.h"
#include "h.h"
using namespace hh;

template<class T> static bool ordered(const vector<T>& v, bool inc) {
	for (size_t i = 0; i + 1 < v.size(); ++i)
		if (inc ? v[i] > v[i + 1] : v[i] < v[i + 1]) return false;
	return true;
}
template<class T> static bool permutation(vector<T> a, vector<T> b) {
	std::sort(a.begin(), a.end());
	std::sort(b.begin(), b.end());
	return a == b;
}
template<class T> static bool heap(const vector<T>& v, bool mx, int n) {
	for (int c = 1; c < n; ++c) {
		int p = (c - 1) / 2;
		if (mx ? v[p] < v[c] : v[p] > v[c]) return false;
	}
	return true;
}
template<class T> static void one(const vector<T>& in, bool inc, const char* ty) {
	std::string d = fmt("%s %s ", ty, inc ? "increase" : "decrease") + show(in);
	{
		begin("bubble_sort", d);
		vector<T> v = in;
		basicmath::mt_sort::bubble_sort(v, inc ? sys_true : sys_false);
		check(ordered(v, inc), "not ordered: " + show(v)) && check(permutation(v, in), "not a permutation: " + show(v));
	}
	{
		begin("heap_sort", d);
		vector<T> v = in;
		basicmath::mt_sort::heap_sort(v, inc ? sys_true : sys_false);
		check(ordered(v, inc), "not ordered: " + show(v)) && check(permutation(v, in), "not a permutation: " + show(v));
	}
	{
		begin("init_heap", d);
		vector<T> v = in;
		basicmath::mt_sort::init_heap(v, inc ? sys_true : sys_false);
		check(heap(v, inc, (int)v.size()), "not a heap: " + show(v)) && check(permutation(v, in), "not a permutation: " + show(v));
		if (v.size() > 1) {
			// replace the root and repair
			vector<T> w = v;
			w[0] = in[rnd(0, (long)in.size() - 1)];
			vector<T> w0 = w;
			int n = (int)rnd(1, (long)w.size());
			begin("heap_adjust", d + fmt(" root replaced, first %d of ", n) + show(w));
			basicmath::mt_sort::heap_adjust(0, &w[0], n, inc ? sys_true : sys_false);
			check(heap(w, inc, n), "not a heap: " + show(w)) && check(permutation(w, w0), "not a permutation: " + show(w));
			for (size_t k = n; k < w.size(); ++k) check(w[k] == w0[k], "element beyond the heap changed");
		}
	}
	{
		begin("index_sort", d);
		vector<T> v = in;
		vector<i32> ix(rnd(0, 5), 7);
		basicmath::mt_sort::sort(ix, v, inc ? sys_true : sys_false);
		check(ordered(v, inc), "not ordered: " + show(v)) && check(permutation(v, in), "not a permutation: " + show(v));
		bool ok = ix.size() == in.size();
		vector<int> seen(in.size(), 0);
		for (size_t k = 0; ok && k < in.size(); ++k)
			ok = ix[k] >= 0 && ix[k] < (i32)in.size() && !seen[ix[k]]++ && v[k] == in[ix[k]];
		check(ok, "indexs do not name the old positions: " + show(ix));
	}
}
void run() {
	// every sequence over {0,1,2} up to length 6 (quick) / 8
	for (int n = 0; n <= N(6, 8); ++n) {
		int tot = 1;
		for (int i = 0; i < n; ++i) tot *= 3;
		for (int c = 0; c < tot; ++c) {
			vector<i32> v(n);
			for (int i = 0, x = c; i < n; ++i, x /= 3) v[i] = x % 3;
			one(v, true, "i32");
			one(v, false, "i32");
		}
	}
	for (int t = 0; t < N(600, 6000); ++t) {
		int n = (int)rnd(0, t % 10 == 0 ? 200 : 24);
		long r = t % 3 == 0 ? 3 : t % 3 == 1 ? 100 : 2147483647L;
		vector<i32> v(n);
		for (auto& x : v) x = (i32)rnd(-r, r);
		one(v, t & 1, "i32");
		vector<f64> f(n);
		for (auto& x : f) x = rnd(-r, r) / 8.0;
		one(f, t & 1, "f64");
		vector<u8> u(n);
		for (auto& x : u) x = (u8)rnd(0, 255);
		one(u, t & 1, "u8");
	}
}
HARNESS_MAIN
