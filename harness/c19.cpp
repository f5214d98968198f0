#include "stdafx.h"
#include "mser_probe.h"
using namespace probe;

template<class P> static void one(P& e, const Img& im, const Par& p, int nt, bool view) {
	if (!supported<P>(nt) || !fits(nt, im)) return;
	mt_mat m = mat(im, view);
	begin(fmt("%s_t%d%s", P::name(), nt, p.eight ? "_8" : "").c_str(), p.str() + (view ? " view " : " ") + im.str());
	e.prep(p, nt, im);
	e.alloc(m);
	for (int k = 0; k < 2; ++k) {
		if (!(k ? p.from_max : p.from_min)) continue;
		e.process(m, k ? 255 : 0);
		string s = e.check_process(im, k ? 255 : 0);
		check(s.empty(), fmt("polarity %d: ", k) + s);
		// the second polarity starts from what the flooding of the first one left
		if (k == 0) e.flood(m, 0);
	}
	for (int y = 0; y < im.h; ++y)
		for (int x = 0; x < im.w; ++x) if (*m.ptr<u8>(y, x, 0) != im.d[y * im.w + x]) { fail("the image was changed"); return; }
}
void run() {
	log_logger::init_logger(new quiet_logger);
	P1 a;
	P2 b;
	for (int t = 0; t < N(400, 6000); ++t) {
		int h = (int)rnd(1, 20), w = (int)rnd(1, 20);
		if (t % 3 == 0) { h = (int)rnd(4, 14); w = (int)rnd(8, 18); }
		Img im = image(t % 8, h, w);
		Par p = params(t);
		for (int nt : threads) { one(a, im, p, nt, t % 5 == 0); one(b, im, p, nt, t % 5 == 0); }
		if (t % 19 == 18) { a.clear(); b.clear(); }
	}
	for (int t = 0; t < N(4, 40); ++t) {
		Img im = image(t % 8, (int)rnd(100, 300), (int)rnd(100, 300));
		Par p = params(t);
		for (int nt : threads) { one(a, im, p, nt, t % 2); one(b, im, p, nt, t % 2); }
	}
}
HARNESS_MAIN
