#include "stdafx.h"
#include "h.h"
using namespace hh;
typedef basicmath::mt_helper H;
using basicmath::mt_range;

template<class T> static bool eq(const vector<T>& a, const vector<T>& b) {
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false;
	return true;
}
// products only when they stay exact
template<class T> static bool prod(const vector<T>& v, T& out) {
	long double p = 1;
	out = 1;
	for (auto x : v) {
		p *= x;
		if (p > 1e9 || p < -1e9) return false;
		if (sizeof(T) == 1 && (p > 255 || p < 0)) return false;
		out = (T)(out * x);
	}
	return true;
}
template<class T> static void one(const vector<T>& in, const char* ty) {
	std::string d = std::string(ty) + " " + show(in);
	int n = (int)in.size();
	// an array with sentinels around the elements
	vector<T> buf(n + 2, T(77));
	std::copy(in.begin(), in.end(), buf.begin() + 1);
	const vector<T> keep = buf;
	const T* a = &buf[1];
	if (n) {
		T mn = in[0], mx = in[0];
		int imn = 0, imx = 0;
		for (int i = 0; i < n; ++i) {
			if (in[i] < mn) mn = in[i], imn = i;
			if (in[i] > mx) mx = in[i], imx = i;
		}
		begin("compute_min", d); check(H::compute_min(n, a) == mn, "minimum");
		begin("compute_max", d); check(H::compute_max(n, a) == mx, "maximum");
		begin("index_of_min_value", d); check(H::index_of_min_value(n, a) == imn, "first position of the minimum");
		begin("index_of_max_value", d); check(H::index_of_max_value(n, a) == imx, "first position of the maximum");
		T am = in[0] < T(0) ? T(-in[0]) : in[0];
		for (auto x : in) { T y = x < T(0) ? T(-x) : x; if (y < am) am = y; }
		begin("compute_abs_min", d); check(H::compute_abs_min(a, n) == am, "smallest absolute value");
		begin("compute_min_in_abs", d);
		T w = H::compute_min_in_abs(a, n);
		check((w < T(0) ? T(-w) : w) == am && std::find(in.begin(), in.end(), w) != in.end(), "an element of smallest absolute value");
		begin("median", d);
		vector<T> s = in;
		std::sort(s.begin(), s.end());
		check(H::median_with_unchanged_order(in) == s[(n - 1) / 2], "median");
		vector<T> t = in;
		check(H::median_with_changed_order(t) == s[(n - 1) / 2], "median (changed order)");
		std::sort(t.begin(), t.end());
		check(eq(t, s), "median lost elements");
	}
	T sum = 0;
	for (auto x : in) sum += x;
	begin("add", d);
	check(H::add(a, a + n) == sum && H::add(in) == sum, "sum");
	T p;
	if (prod(in, p)) {
		begin("mutiply", d);
		check(H::mutiply(a, a + n) == p, "product");
		check(H::mutiply(in) == (n ? p : T(0)), "product of the vector form");
	}
	begin("integral_array", d);
	vector<T> r1(n + 3, T(9)), r2(n + 3, T(9)), e(n + 3, T(9));
	e[0] = 0;
	for (int i = 0; i < n; ++i) e[i + 1] = e[i] + in[i];
	H::integral_array(r1, in);
	H::integral_array<T>(&r2[0], a, a + n);
	check(eq(r1, e), "prefix sums " + show(r1));
	check(eq(r2, e), "prefix sums (pointers) " + show(r2));
	begin("vec_from_array", d);
	vector<T> v(rnd(0, 4), T(3));
	H::vec_from_array(v, n, a);
	check(eq(v, in) && eq(H::vec_from_array(n, a), in), "copy");
	begin("sub_vector", d);
	int x = (int)rnd(0, n), y = (int)rnd(x, n);
	vector<T> sv(rnd(0, 4), T(3));
	H::sub_vector(sv, in, mt_range(x, y));
	check(eq(sv, vector<T>(in.begin() + x, in.begin() + y)), fmt("range %d..%d ", x, y) + show(sv));
	begin("flip_vector", d);
	vector<T> f = in, g = in;
	H::flip_vector(f);
	std::reverse(g.begin(), g.end());
	check(eq(f, g), "mirrored " + show(f));
	begin("is_vec_value", d);
	T val = n ? in[rnd(0, n - 1)] : T(1);
	bool all = true;
	for (auto q : in) if (q != val) all = false;
	check((H::is_vec_value(in, val) ? true : false) == all, "all equal to " + std::to_string(val));
	begin("pointers", d);
	vector<T*> ptr(rnd(0, 3));
	H::pointer_from_instance(ptr, in);
	bool ok = (int)ptr.size() == n;
	for (int i = 0; ok && i < n; ++i) ok = ptr[i] == &in[i];
	check(ok, "addresses of the elements");
	vector<T> inst(rnd(0, 4), T(5));
	H::instance_from_pointer(inst, ptr);
	check(eq(inst, in), "elements behind the pointers " + show(inst));
	check(eq(buf, keep), "input changed");
}
template<class T> static void parity(const vector<T>& in, const char* ty) {
	for (int of = 0; of < 2; ++of) for (int st = 0; st < 2; ++st) {
		begin("odd_even_sort", std::string(ty) + fmt(" odd_front=%d stable=%d ", of, st) + show(in));
		vector<T> v = in, e = in;
		H::odd_even_sort(v, of ? sys_true : sys_false, st ? sys_true : sys_false);
		std::stable_partition(e.begin(), e.end(), [=](T x) { return (x % 2 != 0) == (of == 1); });
		if (st) { check(eq(v, e), "result " + show(v)); continue; }
		bool back = false, ok = true;
		for (auto x : v) { bool fr = (x % 2 != 0) == (of == 1); if (!fr) back = true; else if (back) ok = false; }
		check(ok, "not parted " + show(v));
		vector<T> s = v, t = in;
		std::sort(s.begin(), s.end());
		std::sort(t.begin(), t.end());
		check(eq(s, t), "elements lost " + show(v));
	}
}
static void pairs() {
	long c[] = {-2147483648L, -2147483647L, -7, -1, 0, 1, 2, 7, 2147483646L, 2147483647L};
	for (long a : c) for (long b : c) {
		begin("two_values", fmt("%ld %ld", a, b));
		check(H::max((i32)a, (i32)b) == std::max((i32)a, (i32)b), "max");
		check(H::min((i32)a, (i32)b) == std::min((i32)a, (i32)b), "min");
		check(H::is_same_symbol((i32)a, (i32)b) == ((a >= 0 && b >= 0) || (a <= 0 && b <= 0)), "same symbol");
		if (a - b >= -2147483648L && a - b <= 2147483647L)
			check(H::compare_value((i32)a, (i32)b) == (a > b ? 1 : a == b ? 0 : -1), "comparison");
		check(H::compare_value((f64)a, (f64)b) == (a > b ? (a - b) / 1e-11 > std::max(std::abs((double)a), std::abs((double)b)) : a == b ? 0 : -1), "comparison of f64");
	}
}
void run() {
	pairs();
	for (int n = 0; n <= N(5, 6); ++n) {
		int tot = 1;
		for (int i = 0; i < n; ++i) tot *= 5;
		for (int c = 0; c < tot; c += (n == 5 && !g_thorough ? 3 : 1)) {
			vector<i32> v(n);
			for (int i = 0, x = c; i < n; ++i, x /= 5) v[i] = x % 5 - 2;
			one(v, "i32");
			parity(v, "i32");
		}
	}
	for (int t = 0; t < N(400, 5000); ++t) {
		int n = (int)rnd(0, t % 10 ? 20 : 200);
		long r = t % 3 == 0 ? 3 : t % 3 == 1 ? 100 : 1000000;
		long lo = t % 5 == 0 ? 1 : -r;
		vector<i32> v(n);
		for (auto& x : v) x = (i32)rnd(lo, r);
		one(v, "i32");
		parity(v, "i32");
		vector<i64> l(n);
		for (auto& x : l) x = rnd(lo, r) * 1000003L;
		one(l, "i64");
		vector<f64> f(n);
		for (auto& x : f) x = rnd(lo, r) / 8.0;
		one(f, "f64");
		vector<u8> u(n);
		for (auto& x : u) x = (u8)rnd(0, t % 2 ? 255 : 1);
		one(u, "u8");
		parity(u, "u8");
		// a histogram, as the extractors use it
		begin("histogram", fmt("%d", t));
		vector<u32> hst(256), res(258, 7);
		for (auto& x : hst) x = (u32)rnd(0, 100);
		H::integral_array<u32>(&res[0], &hst[0], &hst[0] + 256);
		u32 s = 0;
		bool ok = true;
		for (int i = 0; i <= 256; ++i) { ok = ok && res[i] == s; if (i < 256) s += hst[i]; }
		check(ok && res[257] == 7, "prefix sums");
	}
}
HARNESS_MAIN
