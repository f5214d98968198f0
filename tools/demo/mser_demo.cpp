#include "stdafx.h"
#include "img_fast_mser_v1.h"
#include "img_fast_mser_v2.h"
#include "mser_ref.h"
using namespace hh;
using namespace ref;
// extraction compared with the definition, on small deterministic images
int main() {
	hh::g_state = 4711;
	quiet_logger* q = new quiet_logger;
	log_logger::init_logger(q);
	int bad = 0;
	std::vector<img_mser_base*> used;
	used.push_back(new img_fast_mser_v1);
	used.push_back(new img_fast_mser_v2);
	for (int t = 0; t < 700 && bad < 3; ++t) {
		Img im = image(t % 8, (int)rnd(4, 18), (int)rnd(8, 18));
		Par p = params(t);
		p.eight = false;
		std::vector<Region> want[2];
		if (p.from_min) want[0] = regions(im, p, 0);
		if (p.from_max) want[1] = regions(im, p, 255);
		for (int alg = 0; alg < 2; ++alg)
			for (int nt = 1; nt <= 32; nt *= 2) {
				if (alg == 1 && nt != 1 && nt != 4 && nt != 32) continue;
				mt_mat m = mat(im, t % 5 == 0);
				img_mser_base* a = t % 2 ? used[alg] : alg ? (img_mser_base*)new img_fast_mser_v2 : (img_mser_base*)new img_fast_mser_v1;
				ref::apply(a, p);
				a->set_parallel_thread_number(nt);
				img_multi_msers r;
				a->extract(r, m);
				std::string d = compare(r, im, p, want);
				if (!d.empty()) {
					printf("version %d, %d threads, %s, %s: %s\n", alg + 1, nt, p.str().c_str(), im.str().c_str(), d.c_str());
					++bad;
				}
				if (t % 2 == 0) delete a;
			}
	}
	return bad != 0;
}
