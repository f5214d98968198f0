#include "stdafx.h"
#include "img_fast_mser_v1.h"
#include "img_fast_mser_v2.h"
#include "mser_ref.h"
#include <sanitizer/allocator_interface.h>
using namespace hh;
using basicimg::img_mser;
using basicimg::img_multi_msers;
typedef basicmath::mt_point P;
static int bad = 0;
static void want(bool ok, const char* what) { if (!ok) { printf("wrong: %s\n", what); ++bad; } }
static img_mser own(int n, int gray) {
	img_mser r;
	r.m_size = n;
	r.m_gray_level = gray;
	r.m_points = n ? new P[n] : NULL;
	for (int i = 0; i < n; ++i) r.m_points[i] = P(gray, i);
	return r;
}
static img_mser shared(P* p, int n, int type) {
	img_mser r;
	r.m_size = n;
	r.m_memory_type = type;
	r.m_points = p;
	return r;
}
static void regions() {
	P points[8];
	for (int i = 0; i < 8; ++i) points[i] = P(i, i);
	for (int type = 0; type < 7; ++type) {
		if (type == img_mser::Memory_Type_Self) continue;
		img_mser a = shared(points + 2, 3, type), b = own(4, 9), c = own(0, 1);
		b = a;
		want(b.m_points == points + 2 && b.m_size == 3, "a region over shared points shares them when copied");
		b = own(5, 7);
		want(b.m_points && b.m_points != points + 2 && b.m_points[4].m_y == 4, "own points copied");
		a = c;
		want(a.m_points == NULL && a.m_size == 0, "a region without points has none after it replaced another");
		if (a.m_points == points + 2) a.m_points = NULL;
	}
}
static void results() {
	basicimg::img_fast_mser_v1 a1;
	basicimg::img_fast_mser_v2 a2;
	for (int t = 0; t < 40; ++t) {
		basicimg::img_mser_base* a = t % 2 ? (basicimg::img_mser_base*)&a1 : (basicimg::img_mser_base*)&a2;
		ref::Par p = ref::params(t);
		p.eight = false;
		ref::Img im = ref::image(t % 8, 9, 12), im2 = ref::image((t + 3) % 8, 8, 11);
		mt_mat m = ref::mat(im, false), m2 = ref::mat(im2, false);
		img_multi_msers used;
		p.from_min = p.from_max = true;
		ref::apply(a, p);
		a->extract(used, m2);
		for (int w = 0; w < 3; ++w) {
			p.from_min = w != 1;
			p.from_max = w != 2;
			ref::apply(a, p);
			img_multi_msers again(used), fresh;
			a->extract(again, m);
			a->extract(fresh, m);
			for (int i = 0; i < 2; ++i) want(again.m_msers[i].size() == fresh.m_msers[i].size() && again.m_memory_size[i] == fresh.m_memory_size[i], "extracted into a used result");
		}
	}
}
// no memory is left after results are gone
static void gone() {
	basicimg::img_fast_mser_v1 a1;
	basicimg::img_fast_mser_v2 a2;
	size_t before = 0;
	mt_mat flat = ref::mat(ref::image(0, 6, 8), false);
	for (int t = 0; t < 60; ++t) {
		if (t == 20) before = __sanitizer_get_current_allocated_bytes();
		basicimg::img_mser_base* a = t % 2 ? (basicimg::img_mser_base*)&a1 : (basicimg::img_mser_base*)&a2;
		ref::Par p = ref::params(0);
		p.eight = false;
		p.minp = 40;
		p.maxr = 0.1f;
		a->set_parallel_thread_number(1);
		ref::apply(a, p);
		img_multi_msers m, c, e;
		a->extract(m, flat);
		c = m;
		e = c;
		c = e;
	}
	want(__sanitizer_get_current_allocated_bytes() <= before + 2000, "all memory of the results is released");
}
int main() {
	hh::g_state = 99;
	log_logger::init_logger(new quiet_logger);
	regions();
	results();
	return bad != 0;
}
