#include "stdafx.h"
#include "mser_probe.h"
using namespace probe;

template<class P> static void one(P& e, const Img& im, const Par& p, int nt, bool view, const std::vector<Tnode>* t) {
	if (!supported<P>(nt) || !fits(nt, im)) return;
	mt_mat m = mat(im, view);
	begin(fmt("%s_t%d", P::name(), nt).c_str(), p.str() + (view ? " view " : " ") + im.str());
	e.prep(p, nt, im);
	e.alloc(m);
	for (int k = 0; k < 2; ++k) {
		if (!(k ? p.from_max : p.from_min)) continue;
		e.build(m, k ? 255 : 0);
		string s = e.check_tree(im, t[k], false);
		check(s.empty(), fmt("polarity %d: ", k) + s);
	}
}
static P1* a;
static P2* b;
static void all(const Img& im, Par p, bool view, int from) {
	p.eight = false;
	std::vector<Tnode> t[2] = {tree(im, 0, false), tree(im, 255, false)};
	for (int i = from; i < 6; ++i) { one(*a, im, p, threads[i], view, t); one(*b, im, p, threads[i], view, t); }
}
void run() {
	log_logger::init_logger(new quiet_logger);
	a = new P1;
	b = new P2;
	for (int t = 0; t < N(350, 6000); ++t) {
		int h = (int)rnd(1, 22), w = (int)rnd(2, 22);
		if (t % 3 == 0) { h = (int)rnd(4, 14); w = (int)rnd(8, 18); }
		all(image(t % 8, h, w), params(t), t % 5 == 0, 1);
		if (t % 19 == 18) { a->clear(); b->clear(); }
	}
	for (int t = 0; t < N(6, 60); ++t) all(image(t % 8, (int)rnd(60, 140), (int)rnd(60, 140)), params(t), false, 1);
	// small images with few levels, all of them different
	for (int t = 0; t < N(600, 8000); ++t) {
		int h = (int)rnd(2, 4), w = (int)rnd(2, 5);
		Img im = image(0, h, w);
		for (auto& c : im.d) c = (uint8_t)rnd(0, 1 + t % 6);
		all(im, params(t), false, 1);
	}
	delete a;
	delete b;
}
HARNESS_MAIN
