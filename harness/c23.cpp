#include "stdafx.h"
#include "img_fast_mser_v1.h"
#include "img_fast_mser_v2.h"
#include "mser_ref.h"
using namespace hh;
using namespace ref;

static quiet_logger* g_log;

static void one(const Img& im, const Par& p, std::vector<img_mser_base*>* keep, bool view) {
	std::vector<Region> want[2];
	if (p.from_min) want[0] = regions(im, p, 0);
	if (p.from_max) want[1] = regions(im, p, 255);
	mt_mat m = mat(im, view);
	int n = 0;
	for (int alg = 1; alg <= 2; ++alg)
		for (int nt : {1, 2, 4, 8, 16, 32}) {
			if (alg == 2 && (nt == 2 || nt == 8 || nt == 16)) continue;
			std::string g = fmt("v%d_t%d%s%s", alg, nt, p.eight ? "_8" : "", keep ? "_again" : "");
			if (p.eight && nt > 1) g = fmt("v%d_8_neighbours_several_patches", alg);
			if (failed_often(g.c_str())) continue;
			begin(g.c_str(), p.str() + (view ? " view " : " ") + im.str());
			img_mser_base* a = keep ? (*keep)[alg - 1] : alg == 1 ? (img_mser_base*)new img_fast_mser_v1 : (img_mser_base*)new img_fast_mser_v2;
			ref::apply(a, p);
			a->set_parallel_thread_number(nt);
			img_multi_msers r;
			int e = g_log->m_number;
			a->extract(r, m);
			std::string d = compare(r, im, p, want);
			check(d.empty(), d);
			check(g_log->m_number == e, "internal assertion: " + g_log->m_last);
			for (int y = 0; y < im.h; ++y)
				for (int x = 0; x < im.w; ++x)
					if (*m.ptr<u8>(y, x, 0) != im.d[y * im.w + x]) { fail("the input image was changed"); y = im.h; break; }
			if (!keep) delete a;
		}
}
static const int kinds = 8;
void run() {
	g_log = new quiet_logger;
	log_logger::init_logger(g_log);
	for (int t = 0; t < N(220, 4000); ++t) {
		int h = (int)rnd(1, 24), w = (int)rnd(1, 24);
		if (t % 7 == 3) h = (int)rnd(1, 4);
		if (t % 7 == 5) w = (int)rnd(1, 9);
		if (t % 3 == 0) { h = (int)rnd(4, 14); w = (int)rnd(8, 18); }
		one(image(t % kinds, h, w), params(t), NULL, t % 5 == 0);
	}
	std::vector<img_mser_base*> keep;
	keep.push_back(new img_fast_mser_v1);
	keep.push_back(new img_fast_mser_v2);
	for (int t = 0; t < N(120, 2000); ++t) {
		int h = (int)rnd(1, 24), w = (int)rnd(1, 24);
		if (t % 7 == 3) h = (int)rnd(1, 4);
		if (t % 7 == 5) w = (int)rnd(1, 9);
		if (t % 3 == 0) { h = 16; w = 20; }
		one(image((int)rnd(0, kinds - 1), h, w), params(t), &keep, t % 5 == 0);
		if (t % 17 == 16) { keep[0]->clear_memory_cache(); keep[1]->clear_memory_cache(); }
	}
	for (int t = 0; t < N(4, 40); ++t) {
		int h = (int)rnd(60, 140), w = (int)rnd(60, 140);
		one(image(t % kinds, h, w), params(t), NULL, false);
	}
}
HARNESS_MAIN
