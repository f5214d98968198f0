#include "stdafx.h"
#include "mser_probe.h"
using namespace probe;

template<class P> static void one(P& e, const Img& im, const Par& p, int nt) {
	if (!supported<P>(nt) || !fits(nt, im)) return;
	mt_mat m = mat(im, false);
	begin(fmt("%s_t%d%s", P::name(), nt, p.eight ? "_8" : "").c_str(), fmt("%dx%d ", im.h, im.w) + p.str());
	e.prep(p, nt, im);
	e.alloc(m);
	string s = e.check_alloc(im, p, nt);
	check(s.empty(), s);
	if (!s.empty() || im.w * im.h > 2500) return;
	// no step of the flooding leaves the areas: every patch on its own, the areas of the others must not change
	for (int k = 0; k < 2; ++k) {
		if (!(k ? p.from_max : p.from_min)) continue;
		s = e.check_isolated(m, k ? 255 : 0);
		check(s.empty(), s);
	}
}
void run() {
	log_logger::init_logger(new quiet_logger);
	P1 a;
	P2 b;
	Par p = params(0);
	for (int h = 1; h <= N(13, 24); ++h)
		for (int w = 1; w <= N(20, 40); ++w) {
			Img im = image(1, h, w);
			p.eight = (h + w) % 3 == 0;
			for (int nt : threads) { one(a, im, p, nt); one(b, im, p, nt); }
		}
	for (int t = 0; t < N(150, 2000); ++t) {
		int h = (int)rnd(1, t % 10 == 0 ? 700 : 60), w = (int)rnd(1, t % 10 == 0 ? 700 : 60);
		Img im = image(t % 8, h, w);
		p = params(t);
		p.eight = t % 3 == 0;
		int n0 = (int)rnd(0, 5);
		for (int i = 0; i < 6; ++i) { one(a, im, p, threads[(i + n0) % 6]); one(b, im, p, threads[(i + n0) % 6]); }
		if (t % 19 == 18) { a.clear(); b.clear(); }
	}
}
HARNESS_MAIN
