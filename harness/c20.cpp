#include "stdafx.h"
#include "mser_probe.h"
using namespace probe;

template<class P> static void one(P& e, const Img& im, const Par& p, int nt, bool view) {
	if (!supported<P>(nt) || !fits(nt, im)) return;
	mt_mat m = mat(im, view);
	begin(fmt("%s_t%d%s", P::name(), nt, p.eight ? "_8" : "").c_str(), p.str() + " " + im.str());
	e.prep(p, nt, im);
	e.alloc(m);
	for (int k = 0; k < 2; ++k) {
		if (!(k ? p.from_max : p.from_min)) continue;
		e.flood(m, k ? 255 : 0);
		string s = e.check_flood(im, p, k ? 255 : 0);
		check(s.empty(), fmt("polarity %d: ", k) + s);
	}
}
// two components with random pixel lists
struct M1 : P1 {
	void merge(int n1, int n2) {
		begin("merge_comp", fmt("%d+%d seed %llu", n1, n2, (unsigned long long)g_state));
		int n = n1 + n2 + 5;
		std::vector<int> id(n);
		for (int i = 0; i < n; ++i) id[i] = i;
		for (int i = n - 1; i > 0; --i) std::swap(id[i], id[rnd(0, i)]);
		std::vector<linked_point> pts(n), old;
		for (auto& q : pts) { q.m_next = (i32)rnd(-1, n); q.m_prev = (i32)rnd(-1, n); q.m_ref = -1; q.m_x = (u16)rnd(0, 99); q.m_y = (u16)rnd(0, 99); }
		std::vector<int> l[2] = {std::vector<int>(id.begin(), id.begin() + n1), std::vector<int>(id.begin() + n1, id.begin() + n1 + n2)};
		connected_comp c[2];
		mser_region r[2];
		memset(c, 0, sizeof c);
		memset(r, 0, sizeof r);
		for (int k = 0; k < 2; ++k) {
			c[k].m_region = &r[k];
			r[k].m_boundary_region = rnd(0, 1);
			c[k].m_size = (int)l[k].size();
			c[k].m_left = c[k].m_top = 60000;
			c[k].m_head = c[k].m_tail = (int)rnd(0, n - 1);
			for (size_t i = 0; i < l[k].size(); ++i) {
				linked_point& q = pts[l[k][i]];
				q.m_prev = i ? l[k][i - 1] : -1;
				q.m_next = i + 1 < l[k].size() ? l[k][i + 1] : -1;
				if (!i) c[k].m_head = l[k][i];
				c[k].m_tail = l[k][i];
				c[k].m_left = std::min(c[k].m_left, q.m_x); c[k].m_right = std::max(c[k].m_right, q.m_x);
				c[k].m_top = std::min(c[k].m_top, q.m_y); c[k].m_bottom = std::max(c[k].m_bottom, q.m_y);
			}
		}
		connected_comp a = c[0], b = c[1];
		int fl = r[0].m_boundary_region | r[1].m_boundary_region;
		old = pts;
		m_linked_points = &pts[0];
		merge_comp(&c[0], &c[1]);
		m_linked_points = NULL;
		std::vector<int> want(l[1]);
		want.insert(want.end(), l[0].begin(), l[0].end());
		check(c[1].m_size == n1 + n2, "size");
		check(c[1].m_head == want[0] && c[1].m_tail == want.back(), "ends of the list");
		for (size_t i = 0; i + 1 < want.size(); ++i) check(pts[want[i]].m_next == want[i + 1] && pts[want[i + 1]].m_prev == want[i], fmt("link at %d", (int)i));
		for (int i = n1 + n2; i < n; ++i) check(!memcmp(&pts[id[i]], &old[id[i]], sizeof old[0]), "another pixel changed");
		check(r[0].m_parent == &r[1] && r[1].m_parent == NULL, "parent");
		check((int)r[1].m_boundary_region == fl, "boundary");
		check(!memcmp(&a, &c[0], sizeof a), "the first component changed");
		check(c[1].m_left == (n2 ? std::min(a.m_left, b.m_left) : a.m_left) && c[1].m_right == std::max(a.m_right, b.m_right) && c[1].m_top == (n2 ? std::min(a.m_top, b.m_top) : a.m_top) && c[1].m_bottom == std::max(a.m_bottom, b.m_bottom), "bounding box");
	}
};
void run() {
	log_logger::init_logger(new quiet_logger);
	P1 a;
	P2 b;
	for (int t = 0; t < N(260, 5000); ++t) {
		int h = (int)rnd(1, 20), w = (int)rnd(1, 20);
		if (t % 3 == 0) { h = (int)rnd(4, 14); w = (int)rnd(8, 18); }
		Img im = image(t % 8, h, w);
		Par p = params(t);
		for (int nt : threads) { one(a, im, p, nt, t % 5 == 0); one(b, im, p, nt, t % 5 == 0); }
		if (t % 19 == 18) { a.clear(); b.clear(); }
	}
	M1 m;
	for (int t = 0; t < N(400, 4000); ++t) m.merge((int)rnd(1, 8), (int)rnd(0, 8));
	for (int t = 0; t < N(2, 20); ++t) {
		Img im = image(t % 8, (int)rnd(260, 300), (int)rnd(260, 300));
		Par p = params(t);
		one(b, im, p, 1, false);
		one(a, im, p, 1, false);
	}
}
HARNESS_MAIN
