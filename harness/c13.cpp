#include "stdafx.h"
#include "mt_mat_helper.h"
#include "h.h"
using namespace hh;
using namespace basicmath;

static void sizes(int n, int k, int s) {
	for (int t = 0; t < 3; ++t) {
		mt_Conv_Boundary_Type b = t == 0 ? mt_Conv_Boundary_Type_Valid : t == 1 ? mt_Conv_Boundary_Type_Full : mt_Conv_Boundary_Type_Same;
		if (t == 0 && k > n) continue;
		if (n == 0) continue;
		begin("conv_size", fmt("n %d kernel %d stride %d border %d", n, k, s, t));
		long want = 0;
		long lo = t == 0 ? 0 : t == 1 ? -(k - 1) : 0, hi = t == 0 ? n - k : n - 1;
		for (long p = lo; p <= hi; p += s) ++want;
		int got = mt_mat_helper::get_conv_result_size(n, k, s, b);
		check(got == want, fmt("%d placements, counted %ld", got, want));
		i32 r[3] = {-7, -7, -7}, nn[2] = {n, n + 1}, kk[2] = {k, k}, ss[2] = {s, 2};
		mt_mat_helper::get_conv_result_size(2, r, nn, kk, ss, b);
		check(r[0] == want && r[1] == mt_mat_helper::get_conv_result_size(n + 1, k, 2, b) && r[2] == -7, "array form differs");
		mt_mat_helper::get_conv_result_size(1, r, nn, kk, NULL, b);
		check(r[0] == mt_mat_helper::get_conv_result_size(n, k, 1, b), "array form without strides differs");
	}
	begin("pooling_size", fmt("n %d kernel %d stride %d", n, k, s));
	int want = 0;
	for (long p = 0; p < n; p += s) { ++want; if (p + k >= n) break; }
	int got = mt_mat_helper::get_pooling_result_size(n, k, s);
	check(got == want, fmt("%d windows, counted %d", got, want));
	i32 r[3] = {-7, -7, -7}, nn[2] = {n, n + 1}, kk[2] = {k, k}, ss[2] = {s, 1};
	mt_mat_helper::get_pooling_result_size(2, r, nn, kk, ss);
	check(r[0] == want && r[1] == mt_mat_helper::get_pooling_result_size(n + 1, k, 1) && r[2] == -7, "array form differs");
}
template<class T> static void pool(mt_Depth depth, int dims, int ch, bool view, const char* ty) {
	std::vector<i32> sz(dims), ks(dims), st(dims);
	string d = fmt("%s dims %d channels %d view %d:", ty, dims, ch, view);
	for (int i = 0; i < dims; ++i) {
		sz[i] = (int)rnd(1, dims > 2 ? 5 : 9); ks[i] = (int)rnd(1, 4); st[i] = (int)rnd(1, 4);
		d += fmt(" %d/%d/%d", sz[i], ks[i], st[i]);
	}
	std::vector<i32> full(sz);
	if (view) for (auto& x : full) x += 2;
	mt_mat base(full, mt_Depth_Channel(depth, ch));
	mt_mat m = base;
	if (view) { std::vector<mt_range> r; for (int i = 0; i < dims; ++i) r.push_back(mt_range(1, 1 + sz[i])); m = base.sub(r); }
	std::vector<int> ix(dims, 0);
	std::map<std::vector<int>, T> val;
	std::vector<std::vector<int>> cells;
	for (;;) {
		for (int c = 0; c < ch; ++c) {
			T v = (T)rnd(0, 60);
			if (sizeof(T) > 1) v = (T)(v - 30);
			m.at<T>((i32)dims, &ix[0], c) = v;
			std::vector<int> key(ix);
			key.push_back(c);
			val[key] = v;
		}
		cells.push_back(ix);
		int a = dims - 1;
		while (a >= 0 && ++ix[a] == sz[a]) ix[a--] = 0;
		if (a < 0) break;
	}
	const mt_Pooling_Type types[] = {mt_Pooling_Type_Mean, mt_Pooling_Type_Max, mt_Pooling_Type_Min, mt_Pooling_Type_Sum, mt_Pooling_Type_First_Value};
	const char* nm[] = {"mean", "max", "min", "sum", "first"};
	for (int t = 0; t < 5; ++t) {
		begin("pooling", string(nm[t]) + " " + d);
		mt_mat mask;
		mt_mat r = m.pooling(mask, types[t], ks, st);
		bool ok = r.dim() == dims && r.channel() == ch;
		for (int i = 0; ok && i < dims; ++i) ok = r.size()[i] == mt_mat_helper::get_pooling_result_size(sz[i], ks[i], st[i]);
		if (!check(ok, "shape of the result")) continue;
		std::vector<int> o(dims, 0);
		for (bool more = true; more;) {
			for (int c = 0; c < ch; ++c) {
				T best = T(); double sum = 0; long n = 0; int first = -1; std::vector<int> at;
				for (auto& cell : cells) {
					bool in = true;
					for (int i = 0; i < dims; ++i) in = in && cell[i] >= o[i] * st[i] && cell[i] < o[i] * st[i] + ks[i];
					if (!in) continue;
					std::vector<int> key(cell);
					key.push_back(c);
					T v = val[key];
					if (n == 0 || (t == 1 && v > best) || (t == 2 && v < best)) { best = v; at = cell; }
					if (n == 0) first = (int)v;
					sum += v;
					++n;
				}
				T got = r.at<T>((i32)dims, &o[0], c);
				double want = t == 0 ? sum / n : t == 3 ? sum : t == 4 ? first : (double)best;
				bool good = t == 0 ? (std::numeric_limits<T>::is_integer ? (T)((T)sum / (T)n) == got : fabs(got - want) < 1e-4) : (double)got == want;
				if (t == 1 || t == 2) {
					long mi = mask.at<i32>((i32)dims, &o[0], c), wi = 0;
					for (int i = 0; i < dims; ++i) wi = wi * sz[i] + at[i];
					std::vector<int> key(dims + 1);
					key[dims] = c;
					long q = mi;
					for (int i = dims - 1; i >= 0; --i) { key[i] = (int)(q % sz[i]); q /= sz[i]; }
					bool in = mi >= 0 && q == 0;
					for (int i = 0; in && i < dims; ++i) in = key[i] >= o[i] * st[i] && key[i] < o[i] * st[i] + ks[i];
					if (!check(in && val[key] == best, fmt("the mask names element %ld, the extremum is element %ld", mi, wi))) { more = false; break; }
				}
				if (!check(good, fmt("window of %ld elements, channel %d: %g expected %g", n, c, (double)got, want))) { more = false; break; }
			}
			int a = dims - 1;
			while (a >= 0 && ++o[a] == r.size()[a]) o[a--] = 0;
			if (a < 0) break;
		}
	}
}
void run() {
	for (int n = 0; n <= 40; ++n) for (int k = 1; k <= 12; ++k) for (int s = 1; s <= 12; ++s) sizes(n, k, s);
	for (int t = 0; t < N(2000, 50000); ++t) sizes((int)rnd(0, 3000), (int)rnd(1, 300), (int)rnd(1, 300));
	for (int t = 0; t < N(60, 600); ++t)
		for (int dims = 1; dims <= 4; ++dims)
			for (int ch = 1; ch <= 3; ch += 2)
				for (int v = 0; v < 2; ++v) {
					pool<f64>(mt_F64, dims, ch, v, "f64");
					pool<i32>(mt_I32, dims, ch, v, "i32");
					if (t % 3 == 0) pool<f32>(mt_F32, dims, ch, v, "f32");
				}
}
HARNESS_MAIN
