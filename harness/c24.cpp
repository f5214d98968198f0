#include "stdafx.h"
#include "img_fast_mser_v1.h"
#include "img_fast_mser_v2.h"
#include "mser_ref.h"
using namespace hh;
using namespace ref;
using basicimg::img_mser;
using basicimg::img_multi_msers;

// a result and the regions it has to denote
struct Slot {
	img_multi_msers* m;
	Img im;
	std::vector<Region> want[2];
	Slot() : m(NULL) {}
};
// regions in the order of the result
static std::string regions_of(const img_multi_msers& m, const Img& im, std::vector<Region> out[2]) {
	for (int ch = 0; ch < 2; ++ch) {
		out[ch].clear();
		for (int i = 0; i < (int)m.m_msers[ch].size(); ++i) {
			Region r;
			std::string why;
			r.gray = m.m_msers[ch][i].m_gray_level;
			if (!ref::read(m, ch, i, im, r.px, why)) return fmt("polarity %d, region %d: ", ch, i) + why;
			out[ch].push_back(r);
		}
	}
	return "";
}
static std::string differs(const Slot& s) {
	std::vector<Region> got[2];
	std::string d = regions_of(*s.m, s.im, got);
	if (!d.empty()) return d;
	for (int ch = 0; ch < 2; ++ch) if (!std::operator==(got[ch], s.want[ch])) return fmt("polarity %d denotes other regions than before", ch);
	return "";
}
static void results() {
	begin("results", "");
	std::string steps;
	Slot s[4];
	basicimg::img_fast_mser_v1 a1;
	basicimg::img_fast_mser_v2 a2;
	for (int k = 0; k < 14; ++k) {
		int i = (int)rnd(0, 3), j = (int)rnd(0, 3);
		switch (rnd(0, 5)) {
		case 0: case 1: {
			Img im = image((int)rnd(0, 7), (int)rnd(4, 14), (int)rnd(8, 18));
			Par p = params(k);
			p.eight = false;
			if (rnd(0, 1)) p.minp = 1;
			bool v1 = rnd(0, 1) != 0;
			basicimg::img_mser_base& a = v1 ? (basicimg::img_mser_base&)a1 : (basicimg::img_mser_base&)a2;
			ref::apply(&a, p);
			int n = 1 << (v1 ? rnd(0, 3) : 2 * rnd(0, 1));
			a.set_parallel_thread_number(n);
			if (!s[i].m) s[i].m = new img_multi_msers;
			mt_mat m = mat(im, false);
			a.extract(*s[i].m, m);
			s[i].im = im;
			steps += fmt(" extract%d(v%d,%d threads)", i, v1 ? 1 : 2, n);
			std::string d = regions_of(*s[i].m, im, s[i].want);
			if (!check(d.empty(), steps + ": " + d)) goto done;
			{
				// the result holds nothing of what was extracted into it before
				img_multi_msers fresh;
				std::vector<Region> got[2];
				a.extract(fresh, m);
				d = regions_of(fresh, im, got);
				for (int c = 0; c < 2 && d.empty(); ++c) if (!std::operator==(got[c], s[i].want[c])) d = fmt("polarity %d holds %d regions, a new result %d", c, (int)s[i].want[c].size(), (int)got[c].size());
				if (!check(d.empty(), steps + ": " + d)) goto done;
			}
			if (rnd(0, 3) == 0) { a.clear_memory_cache(); steps += " clear"; }
			break;
		}
		case 2:
			if (!s[i].m || s[j].m) break;
			s[j].m = new img_multi_msers(*s[i].m);
			s[j].im = s[i].im;
			for (int c = 0; c < 2; ++c) s[j].want[c] = s[i].want[c];
			steps += fmt(" %d=copy(%d)", j, i);
			break;
		case 3: case 4:
			if (!s[i].m || !s[j].m) break;
			*s[j].m = *s[i].m;
			s[j].im = s[i].im;
			if (i != j) for (int c = 0; c < 2; ++c) s[j].want[c] = s[i].want[c];
			steps += fmt(" %d=%d", j, i);
			break;
		default:
			if (!s[i].m) break;
			// what the destroyed one leaves behind must not be used by the others
			for (int c = 0; c < 2; ++c) for (int q = 0; q < s[i].m->m_memory_size[c]; ++q) s[i].m->m_memory[c][q].m_x = s[i].m->m_memory[c][q].m_y = -7;
			delete s[i].m;
			s[i].m = NULL;
			steps += fmt(" delete%d", i);
		}
		for (int q = 0; q < 4; ++q)
			if (s[q].m) {
				std::string d = differs(s[q]);
				if (!check(d.empty(), steps + fmt(": result %d: ", q) + d)) goto done;
			}
	}
done:
	for (int q = 0; q < 4; ++q) delete s[q].m;
}
// single regions with points of their own and shared ones
static void single() {
	begin("regions", "");
	std::vector<basicmath::mt_point> shared(12);
	for (int i = 0; i < 12; ++i) shared[i] = basicmath::mt_point(i, -i);
	std::vector<img_mser> v;
	struct Want { bool own; int first; std::vector<int> px; int gray; };
	std::vector<Want> w;
	for (int k = 0; k < 16; ++k) {
		int i = v.empty() ? 0 : (int)rnd(0, v.size() - 1), j = v.empty() ? 0 : (int)rnd(0, v.size() - 1);
		switch (v.empty() ? 0 : rnd(0, 4)) {
		case 0: {
			img_mser r;
			Want x;
			x.own = rnd(0, 1) != 0;
			x.gray = (int)rnd(0, 255);
			int n = (int)rnd(0, 5);
			x.first = (int)rnd(0, 6);
			r.m_size = n;
			r.m_gray_level = (basicsys::u8)x.gray;
			static const img_mser::Memory_Type kinds[6] = {img_mser::Memory_Type_Range, img_mser::Memory_Type_Moments, img_mser::Memory_Type_Share, img_mser::Memory_Type_Recursive, img_mser::Memory_Type_Share_Parallel_4, img_mser::Memory_Type_Recursive_Parallel_4};
			r.m_memory_type = x.own ? img_mser::Memory_Type_Self : kinds[rnd(0, 5)];
			r.m_rect = basicmath::mt_rect(x.gray, n, 3, 4);
			if (x.own) {
				r.m_points = n ? new basicmath::mt_point[n] : NULL;
				for (int q = 0; q < n; ++q) { x.px.push_back((int)rnd(0, 99)); r.m_points[q] = basicmath::mt_point(x.px[q], q); }
			} else r.m_points = &shared[x.first];
			x.px.resize(n);
			v.push_back(r);
			w.push_back(x);
			break;
		}
		case 1: v[j] = v[i]; w[j] = Want(w[i]); break;
		case 2: v.push_back(img_mser(v[i])); w.push_back(Want(w[i])); break;
		case 3: v.erase(v.begin() + i); w.erase(w.begin() + i); break;
		default: { std::vector<img_mser> c(v); v = c; if (rnd(0, 1)) { v.swap(c); } }
		}
		for (size_t q = 0; q < v.size(); ++q) {
			const img_mser& r = v[q];
			bool ok = r.m_size == (int)w[q].px.size() && r.m_gray_level == w[q].gray && r.m_rect.m_left == w[q].gray && r.m_rect.m_top == r.m_size && r.m_rect.m_width == 3 && r.m_rect.m_height == 4 && (r.m_memory_type == img_mser::Memory_Type_Self) == w[q].own;
			if (ok && w[q].own) {
				for (int e = 0; e < r.m_size; ++e) ok = ok && r.m_points[e].m_x == w[q].px[e] && r.m_points[e].m_y == e;
				for (size_t o = 0; o < q; ++o) ok = ok && (r.m_points == NULL || r.m_points != v[o].m_points);
			} else if (ok) ok = r.m_points == &shared[w[q].first];
			if (!check(ok, fmt("region %d of %d after %d steps", (int)q, (int)v.size(), k))) return;
		}
	}
}
void run() {
	log_logger::init_logger(new quiet_logger);
	for (int i = 0; i < N(400, 5000) && !failed_often("results"); ++i) results();
	for (int i = 0; i < N(3000, 40000) && !failed_often("regions"); ++i) single();
}
HARNESS_MAIN
