#include "stdafx.h"
#include "h.h"
using namespace hh;
typedef basicmath::mt_helper H;

static void bits(i64 v) {
	int c = 0;
	for (int j = 0; j < 64; ++j) c += (int)(((uint64_t)v >> j) & 1);
	begin("number_of_1_i64", fmt("%lld", (long long)v));
	check(H::number_of_1((i64)v) == c, "one bits");
	i32 w = (i32)v;
	c = 0;
	for (int j = 0; j < 32; ++j) c += (int)(((uint32_t)w >> j) & 1);
	begin("number_of_1_i32", fmt("%d", w));
	check(H::number_of_1(w) == c, "one bits");
	begin("reverse_i32", fmt("%d", w));
	uint32_t u = (uint32_t)w, r = 0;
	for (int j = 0; j < 4; ++j) r = (r << 8) | ((u >> (8 * j)) & 255);
	check((uint32_t)H::reverse_i32(w) == r, "byte order");
	check(H::reverse_i32(H::reverse_i32(w)) == w, "twice is the identity");
}
static void five(i32 v) {
	begin("add_five", fmt("%d", v));
	std::string s = std::to_string(v < 0 ? -(long)v : (long)v);
	long best = 0;
	bool any = false;
	for (size_t i = 0; i <= s.size(); ++i) {
		std::string t = s.substr(0, i) + "5" + s.substr(i);
		long x = atol(t.c_str());
		if (v < 0) x = -x;
		if (!any || x > best) best = x;
		any = true;
	}
	if (best > INT32_MAX || best < -(long)INT32_MAX) return;
	check(H::add_five(v) == best, fmt("expected %ld", best));
}
static void shape(const std::vector<i32>& sizes) {
	vector<i32> s(sizes.begin(), sizes.end());
	int n = (int)s.size();
	long total = 1;
	for (int x : sizes) total *= x;
	std::vector<i32> digits(n, 0);
	long step = total > 4000 ? total / 2000 : 1;
	vector<i32> idx;
	for (long f = 0; f < total; f += step) {
		begin("multi_index", show(sizes) + fmt(" index %ld", f));
		long rest = f;
		for (int i = n - 1; i >= 0; --i) { digits[i] = (i32)(rest % sizes[i]); rest /= sizes[i]; }
		H::multi_index_from_index(idx, (i32)f, n, &s[0]);
		bool ok = (int)idx.size() == n;
		for (int i = 0; ok && i < n; ++i) ok = idx[i] == digits[i];
		check(ok, "indices of the element");
		vector<i32> d(digits.begin(), digits.end());
		check(H::index_from_multi_index(d, n, &s[0]) == (i32)f, "flat index");
	}
}
static long ones_in(unsigned long v) {
	long c = 0;
	for (; v; v /= 10) c += v % 10 == 1;
	return c;
}
void run() {
	for (int j = 0; j < 64; ++j) { bits((i64)(1ull << j)); bits((i64)~(1ull << j)); bits((i64)((1ull << j) - 1)); bits(-(i64)(1ull << j)); }
	bits(0); bits(-1);
	for (long i = 0; i < N(20000, 2000000); ++i) bits((i64)rnd());
	for (int v = -3000; v <= 3000; ++v) five(v);
	for (long i = 0; i < N(5000, 300000); ++i) five((i32)rnd(-420000000, 420000000));
	for (int v : {0, 4, 5, 6, -5, -6, 99, -44, 55, 214748364, -214748364}) five(v);
	long f = 1;
	for (int n = 0; n <= 12; ++n) {
		begin("factorial", fmt("%d", n));
		if (n) f *= n;
		check(H::factorial(n) == f, "factorial");
	}
	std::vector<std::vector<long>> pas(1, std::vector<long>(1, 1));
	for (int n = 1; n <= 34; ++n) {
		pas.push_back(std::vector<long>(n + 1, 1));
		for (int k = 1; k < n; ++k) pas[n][k] = pas[n - 1][k - 1] + pas[n - 1][k];
	}
	for (int n = 0; n <= 34; ++n)
		for (int k = 0; k <= n; ++k)
			if (pas[n][k] <= INT32_MAX) {
				begin("combination", fmt("%d %d", n, k));
				check(H::combination(n, k) == pas[n][k], "combination number");
			}
	for (int n : {1000, 65535, 65536}) { begin("combination", fmt("%d 2", n)); check(H::combination(n, 2) == (long)n * (n - 1) / 2 || (long)n * (n - 1) / 2 > INT32_MAX, "pairs"); }
	for (int a = 1; a <= 4; ++a) {
		shape({a});
		for (int b = 1; b <= 4; ++b) {
			shape({a, b});
			for (int c = 1; c <= 4; ++c) { shape({a, b, c}); for (int d = 1; d <= 3; ++d) shape({a, b, c, d}); }
		}
	}
	shape({46340, 46340});
	shape({1290, 1290, 1290});
	shape({2, INT32_MAX / 2});
	for (long i = 0; i < N(60, 2000); ++i) {
		std::vector<i32> s;
		for (int n = (int)rnd(1, 6); n > 0; --n) s.push_back((i32)rnd(1, 9));
		shape(s);
	}
	long sum = 0;
	std::map<unsigned, long> known = {{1000000u, 600001}};
	for (unsigned v = 0; v <= (unsigned)N(3000, 30000); ++v) {
		begin("one_number", fmt("%u", v));
		sum += ones_in(v);
		check(H::one_number(v) == sum, "digits 1 up to the bound");
	}
	for (auto& k : known) { begin("one_number", fmt("%u", k.first)); check(H::one_number(k.first) == k.second, "digits 1 up to the bound"); }
}
HARNESS_MAIN
