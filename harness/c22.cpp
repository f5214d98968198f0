#include "stdafx.h"
#include "mser_probe.h"
using namespace probe;

template<class P> static void one(P& e, const Img& im, const Par& p, int nt, bool view, const std::vector<Tnode>* t) {
	if (!supported<P>(nt) || !fits(nt, im)) return;
	if (p.eight && nt > 1) return;
	mt_mat m = mat(im, view);
	begin(fmt("%s_t%d%s", P::name(), nt, p.eight ? "_8" : "").c_str(), p.str() + (view ? " view " : " ") + im.str());
	e.prep(p, nt, im);
	e.alloc(m);
	for (int k = 0; k < 2; ++k) {
		if (!(k ? p.from_max : p.from_min)) continue;
		e.build(m, k ? 255 : 0);
		e.recognize();
		string s = e.check_tree(im, t[k], true);
		check(s.empty(), fmt("polarity %d: ", k) + s);
	}
}
static P1* a;
static P2* b;
static void all(const Img& im, const Par& p, bool view) {
	std::vector<Tnode> t[2] = {decided(im, p, 0), decided(im, p, 255)};
	for (int nt : threads) { one(*a, im, p, nt, view, t); one(*b, im, p, nt, view, t); }
}
void run() {
	log_logger::init_logger(new quiet_logger);
	a = new P1;
	b = new P2;
	for (int t = 0; t < N(350, 6000); ++t) {
		int h = (int)rnd(1, 22), w = (int)rnd(1, 22);
		if (t % 3 == 0) { h = (int)rnd(4, 14); w = (int)rnd(8, 18); }
		all(image(t % 8, h, w), params(t), t % 5 == 0);
		if (t % 19 == 18) { a->clear(); b->clear(); }
	}
	for (int t = 0; t < N(6, 60); ++t) all(image(t % 8, (int)rnd(60, 140), (int)rnd(60, 140)), params(t), false);
	delete a;
	delete b;
}
HARNESS_MAIN
