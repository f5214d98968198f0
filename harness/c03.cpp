#include "stdafx.h"
#include "dynamic_programming/mt_max_sum_for_continuous_element.h"
#include "dynamic_programming/mt_longest_common_substring.h"
#include "dynamic_programming/mt_01_bag.h"
#include "h.h"
using namespace hh;
using basicmath::mt_max_sum_for_continuous_element;
using basicmath::mt_longest_common_substring;
using basicmath::mt_01_bag;

template<class T> static void run_sum(const vector<T>& v, const char* ty) {
	begin("max_sum", std::string(ty) + " " + show(v));
	mt_max_sum_for_continuous_element<T> m(v);
	int n = (int)v.size();
	T best = v[0];
	for (int a = 0; a < n; ++a) {
		T s = 0;
		for (int b = a; b < n; ++b) { s += v[b]; if (s > best) best = s; }
	}
	check(m.max_sum() == best, "reported sum " + std::to_string(m.max_sum()) + " best " + std::to_string(best));
	int b = m.begin_index(), l = m.length();
	if (check(b >= 0 && l >= 1 && b + l <= n, fmt("reported run %d+%d outside", b, l))) {
		T s = 0;
		for (int i = b; i < b + l; ++i) s += v[i];
		check(s == m.max_sum(), fmt("run %d+%d does not have the reported sum", b, l));
	}
}
static void run_lcs(const vector<i32>& a, const vector<i32>& b) {
	begin("common_substring", show(a) + " " + show(b));
	mt_longest_common_substring<i32> m(a, b);
	int na = (int)a.size(), nb = (int)b.size(), best = 0;
	auto common = [&](int i, int j) { int l = 0; while (i + l < na && j + l < nb && a[i + l] == b[j + l]) ++l; return l; };
	for (int i = 0; i < na; ++i) for (int j = 0; j < nb; ++j) best = std::max(best, common(i, j));
	check(m.length() == best, fmt("length %d, longest is %d", m.length(), best));
	if (m.length() > 0) {
		int x = m.a_begin_index(), y = m.b_begin_index();
		check(x >= 0 && y >= 0 && x + m.length() <= na && y + m.length() <= nb && common(x, y) >= m.length(), fmt("no common run at %d,%d of length %d", x, y, m.length()));
	}
	std::set<std::pair<int, int>> e, g;
	if (best) for (int i = 0; i < na; ++i) for (int j = 0; j < nb; ++j) if (common(i, j) == best) e.insert(std::make_pair(i, j));
	vector<i32> x(2, 9), y;
	m.all_a_begin_index(x);
	m.all_b_begin_index(y);
	check(x.size() == y.size(), "different numbers of places");
	for (size_t k = 0; k < x.size() && k < y.size(); ++k) g.insert(std::make_pair(x[k], y[k]));
	check(g == e && x.size() == e.size(), "reported places " + show(x) + " " + show(y));
}
static void run_bag(const vector<i32>& w, const vector<i32>& v, int cap) {
	begin("knapsack", show(w) + " " + show(v) + fmt(" capacity %d", cap));
	int n = (int)w.size();
	long best = 0;
	for (int s = 0; s < (1 << n); ++s) {
		long sw = 0, sv = 0;
		for (int i = 0; i < n; ++i) if (s >> i & 1) sw += w[i], sv += v[i];
		if (sw <= cap && sv > best) best = sv;
	}
	mt_01_bag<i32, i32> m(w, v, cap);
	check(m.max_value() == best, fmt("value %d, best is %ld", m.max_value(), best));
	long sw = 0, sv = 0;
	if (check((int)m.flag_01().size() == n, "one flag per item")) {
		for (int i = 0; i < n; ++i) if (m.flag_01()[i]) sw += w[i], sv += v[i];
		check(sw <= cap && sv == best, fmt("the marked items weigh %ld and are worth %ld, best is %ld", sw, sv, best));
	}
}
void run() {
	for (int n = 1; n <= N(5, 6); ++n) {
		int tot = 1;
		for (int i = 0; i < n; ++i) tot *= 5;
		for (int c = 0; c < tot; ++c) {
			vector<i32> v(n);
			for (int i = 0, x = c; i < n; ++i, x /= 5) v[i] = x % 5 - 2;
			run_sum(v, "i32");
		}
	}
	for (int t = 0; t < N(500, 5000); ++t) {
		int n = (int)rnd(1, t % 10 ? 20 : 200);
		vector<i32> v(n);
		for (auto& x : v) x = (i32)rnd(-1000, t % 3 ? 1000 : 200);
		run_sum(v, "i32");
		vector<f64> f(n);
		for (auto& x : f) x = rnd(-1000, 1000) / 4.0;
		run_sum(f, "f64");
		vector<i64> l(n);
		for (auto& x : l) x = (i64)rnd(-1000, 1000) * 1000000007L;
		run_sum(l, "i64");
	}
	for (int n = 1; n <= N(4, 5); ++n) for (int k = 1; k <= N(4, 5); ++k)
		for (int c = 0; c < (1 << (n + k)); ++c) {
			vector<i32> a(n), b(k);
			for (int i = 0; i < n; ++i) a[i] = c >> i & 1;
			for (int i = 0; i < k; ++i) b[i] = c >> (n + i) & 1;
			run_lcs(a, b);
		}
	for (int t = 0; t < N(500, 5000); ++t) {
		vector<i32> a(rnd(1, 20)), b(rnd(1, 20));
		int r = (int)rnd(1, 4);
		for (auto& x : a) x = (i32)rnd(-r, r);
		for (auto& x : b) x = (i32)rnd(-r, r);
		run_lcs(a, b);
	}
	run_bag(vector<i32>(), vector<i32>(), 3);
	for (int t = 0; t < N(2500, 20000); ++t) {
		int n = (int)rnd(1, t % 10 ? 5 : 9);
		vector<i32> w(n), v(n);
		int r = (int)rnd(1, 8), q = (int)rnd(1, 12);
		for (auto& x : w) x = (i32)rnd(t % 4 ? 1 : 0, r);
		for (auto& x : v) x = (i32)rnd(t % 5 ? 0 : -2, q);
		run_bag(w, v, (int)rnd(0, r * n + 1));
	}
}
HARNESS_MAIN
