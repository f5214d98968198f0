#include "stdafx.h"
#include "h.h"
using namespace hh;

template<class T> static void one(const vector<T>& in, int k, bool big, const char* ty) {
	std::string d = fmt("%s k=%d %s ", ty, k, big ? "largest" : "smallest") + show(in);
	begin("traverse", d);
	basicmath::mt_top_k<T> t(k, big ? sys_true : sys_false);
	vector<T> best = in;
	std::sort(best.begin(), best.end());
	if (big) std::reverse(best.begin(), best.end());
	size_t half = (size_t)rnd(0, (long)in.size());
	for (size_t i = 0; i < in.size(); ++i) {
		if (i == half) {
			// a query in the middle must not disturb the selection
			vector<T> o(3, T(5));
			t.get_sorted_top_k(o);
			vector<T> e(in.begin(), in.begin() + i);
			std::sort(e.begin(), e.end());
			if (big) std::reverse(e.begin(), e.end());
			if ((int)e.size() > k) e.resize(k);
			check(std::operator==(o, e), "sorted selection after " + std::to_string(i) + " elements " + show(o) + " expected " + show(e));
		}
		t.traverse(in[i]);
	}
	if ((int)best.size() > k) best.resize(k);
	vector<T> got = t.get_top_k();
	std::sort(got.begin(), got.end());
	if (big) std::reverse(got.begin(), got.end());
	check(std::operator==(got, best), "selected " + show(got) + " expected " + show(best));
	begin("get_sorted_top_k", d);
	vector<T> s;
	t.get_sorted_top_k(s);
	check(std::operator==(s, best), "sorted selection " + show(s) + " expected " + show(best));
	check(t.get_top_k().size() == best.size(), "selection disturbed");
}
void run() {
	for (int n = 0; n <= N(6, 7); ++n) {
		int tot = 1;
		for (int i = 0; i < n; ++i) tot *= 3;
		for (int c = 0; c < tot; ++c) {
			vector<i32> v(n);
			for (int i = 0, x = c; i < n; ++i, x /= 3) v[i] = x % 3;
			for (int k = 1; k <= n + 1; ++k) { one(v, k, true, "i32"); one(v, k, false, "i32"); }
		}
	}
	for (int t = 0; t < N(1500, 20000); ++t) {
		int n = (int)rnd(0, t % 10 == 0 ? 300 : 40);
		long r = t % 3 == 0 ? 4 : t % 3 == 1 ? 100 : 2147483647L;
		int k = (int)rnd(1, t % 5 == 0 ? 3 : n + 2);
		vector<i32> v(n);
		for (auto& x : v) x = (i32)rnd(-r, r);
		one(v, k, t & 1, "i32");
		vector<f64> f(n);
		for (auto& x : f) x = rnd(-r, r) / 8.0;
		one(f, k, t & 1, "f64");
		vector<u8> u(n);
		for (auto& x : u) x = (u8)rnd(0, 255);
		one(u, k, t & 1, "u8");
	}
}
HARNESS_MAIN
