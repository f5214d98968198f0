#include "stdafx.h"
#include "h.h"
using namespace hh;
typedef basicmath::mt_rect_t<int> R;
typedef basicmath::mt_point_t<int> P;
typedef basicmath::mt_size_t<int> S;
typedef basicmath::mt_point_t<double> D;

static std::string d(const R& r) { return fmt("[%d,%d,%d,%d]", r.m_left, r.m_top, r.m_width, r.m_height); }
static bool in(const R& r, long x, long y) { return x >= r.m_left && x < (long)r.m_left + r.m_width && y >= r.m_top && y < (long)r.m_top + r.m_height; }
static const int LO = -5, HI = 8;
typedef std::set<std::pair<int, int>> Set;
static Set pts(const R& r) {
	Set s;
	for (int y = r.m_top; y < r.m_top + r.m_height; ++y)
		for (int x = r.m_left; x < r.m_left + r.m_width; ++x) s.insert(std::make_pair(x, y));
	return s;
}
static R box(const Set& s) {
	R r(0, 0, 0, 0);
	if (s.empty()) return r;
	int l = INT32_MAX, t = INT32_MAX, rr = INT32_MIN, b = INT32_MIN;
	for (auto& p : s) { l = std::min(l, p.first); rr = std::max(rr, p.first); t = std::min(t, p.second); b = std::max(b, p.second); }
	return R(l, t, rr - l + 1, b - t + 1);
}
static void single(const R& r) {
	Set s = pts(r);
	const R& c = r;
	R m = r;
	begin("corners", d(r));
	check(c.right() == r.m_left + r.m_width - 1 && c.bottom() == r.m_top + r.m_height - 1, "right and bottom");
	check(c.tl() == P(r.m_left, r.m_top) && c.br() == P(c.right(), c.bottom()) && c.tr() == P(c.right(), r.m_top) && c.bl() == P(r.m_left, c.bottom()), "corner points");
	check(c.getArea() == (int)s.size() || r.m_width < 0, "area");
	check(c.max_size() == std::max(r.m_width, r.m_height) && c.min_size() == std::min(r.m_width, r.m_height), "longer and shorter side");
	check(c.size().m_width == r.m_width && c.size().m_height == r.m_height, "size");
	check(c.toRect() == r && !(c.toRect() != r), "copy");
	R e = r;
	e.set_empty();
	check(pts(e).empty() && e.empty(), "set_empty");
	if (!s.empty()) {
		check(in(r, c.center().m_x, c.center().m_y) && abs(2 * c.center().m_x - r.m_left - c.right()) <= 1 && abs(2 * c.center().m_y - r.m_top - c.bottom()) <= 1, "center");
		check(c.aspect() == r.m_width / (double)r.m_height, "aspect");
		R q(c.tl(), c.br());
		check(q == r, "rectangle of its corners");
		R q2;
		q2.set_rect(c.tl(), c.br());
		check(q2 == r, "set_rect with corners");
		R q3(c.tl(), S(r.m_width, r.m_height));
		check(q3 == r, "corner and size");
	}
	R f; f.set_rect(r.m_left, r.m_top, r.m_width, r.m_height);
	check(f == r, "four numbers");
	f.set_tl(P(7, 9)); f.set_size(S(2, 3));
	check(f == R(7, 9, 2, 3), "set_tl, set_size");
	begin("contain_point", d(r));
	bool ok = true, ok2 = true, okb = true, okv = true, okp = true;
	for (int y = LO - 1; y <= HI + 1; ++y)
		for (int x = LO - 1; x <= HI + 1; ++x) {
			P p(x, y);
			bool i = s.count(std::make_pair(x, y)) > 0;
			ok = ok && c.contain(p) == i;
			ok2 = ok2 && m.contain(p) == i;
			if (s.empty()) continue;
			bool inner = x > r.m_left && x < c.right() && y > r.m_top && y < c.bottom();
			okb = okb && c.boundary(p) == (i && !inner);
			if (i) okb = okb && c.in_boundary(p) == !inner;
			P v = p;
			c.validate_point(v);
			okv = okv && v == P(std::max(r.m_left, std::min(x, c.right())), std::max(r.m_top, std::min(y, c.bottom())));
		}
	check(ok, "contain");
	check(ok2, "contain (non-const)");
	check(okb, "border test");
	check(okv, "validate_point");
	begin("append_point", d(r));
	if (!s.empty() || r.empty()) {
		for (int y = LO - 1; y <= HI + 1; y += 2)
			for (int x = LO - 1; x <= HI + 1; ++x) {
				R a = r;
				a.adjust_by_append_point(P(x, y));
				Set t = s;
				t.insert(std::make_pair(x, y));
				okp = okp && a == box(t);
			}
		check(okp, "smallest rectangle with the point");
	}
	begin("move", d(r));
	P o(3, -2);
	S z(2, 1);
	check(r + o == R(r.m_left + 3, r.m_top - 2, r.m_width, r.m_height), "plus point");
	check(r - o == R(r.m_left - 3, r.m_top + 2, r.m_width, r.m_height), "minus point");
	check(r + z == R(r.m_left, r.m_top, r.m_width + 2, r.m_height + 1), "plus size");
	check(r - z == R(r.m_left, r.m_top, r.m_width - 2, r.m_height - 1), "minus size");
	R a = r; a += o; check(a == r + o, "add point");
	a = r; a -= o; check(a == r - o, "subtract point");
	a = r; a += z; check(a == r + z, "add size");
	a = r; a -= z; check(a == r - z, "subtract size");
	a = r; a.adjust(1, 2, 3, 4);
	check(a == R(r.m_left - 1, r.m_top - 2, r.m_width + 4, r.m_height + 6), "adjust");
	a = m * D(2, 3); check(a == R(r.m_left * 2, r.m_top * 3, r.m_width * 2, r.m_height * 3), "scale");
	a *= D(0.5, 1); check(a == R(r.m_left, r.m_top * 3, r.m_width, r.m_height * 3), "scale in place");
	a = a / D(1, 3); check(a == r, "divide");
	a = m * D(2, 2); a /= D(2, 2); check(a == r, "divide in place");
	begin("square", d(r));
	a = r; a.expand();
	int mx = std::max(r.m_width, r.m_height), mn = std::min(r.m_width, r.m_height);
	check(a.m_width == mx && a.m_height == mx && a.m_left <= r.m_left && a.m_top <= r.m_top && a.right() >= r.right() && a.bottom() >= r.bottom(), "expand");
	check(abs((r.m_left - a.m_left) - (a.right() - r.right())) <= 1 && abs((r.m_top - a.m_top) - (a.bottom() - r.bottom())) <= 1, "expand around the middle");
	a = r; a.shrink();
	check(a.m_width == mn && a.m_height == mn && a.m_left >= r.m_left && a.m_top >= r.m_top && a.right() <= r.right() && a.bottom() <= r.bottom(), "shrink");
	check(abs((r.m_left - a.m_left) - (a.right() - r.right())) <= 1 && abs((r.m_top - a.m_top) - (a.bottom() - r.bottom())) <= 1, "shrink around the middle");
}
static void pair_(const R& a, const R& b) {
	Set sa = pts(a), sb = pts(b), common, all = sa;
	for (auto& p : sb) { all.insert(p); if (sa.count(p)) common.insert(p); }
	std::string w = d(a) + " " + d(b);
	begin("intersect", w);
	R o(77, 77, 77, 77);
	bool hit = a.is_intersect(o, b);
	check(hit == !common.empty() && a.is_intersect(b) == hit, "there is a common point");
	if (hit) check(o == box(common) && pts(o) == common, "exactly the common points");
	if (!sa.empty() && !sb.empty()) {
		double ratio = common.size() / (double)sb.size();
		check(a.get_iou(b) == common.size() / (double)all.size(), "intersection over union");
		check(a.get_intersect_aera_ratio(b) == ratio, "covered share");
		check(a.is_intersect_area(b, 0.5) == (hit && ratio >= 0.5), "covered share at least a half");
		R c = box(common);
		double rw = hit ? c.m_width / (double)b.m_width : 0, rh = hit ? c.m_height / (double)b.m_height : 0;
		check(a.get_intersect_width_ratio(b) == rw && a.get_intersect_height_ratio(b) == rh, "covered sides");
		check(a.is_intersect_width(b, 0.5) == (hit && rw >= 0.5) && a.is_intersect_height(b, 0.5) == (hit && rh >= 0.5), "covered sides at least a half");
		check(a.contain(b) == (common.size() == sb.size()), "contains a rectangle");
		int h = INT32_MAX, v = INT32_MAX;
		for (int x = a.m_left; x <= a.right(); ++x) for (int y = b.m_left; y <= b.right(); ++y) h = std::min(h, abs(x - y));
		for (int x = a.m_top; x <= a.bottom(); ++x) for (int y = b.m_top; y <= b.bottom(); ++y) v = std::min(v, abs(x - y));
		check(a.horizontal_dist(b) == h, "horizontal distance");
		check(a.vertical_dist(b) == v, "vertical distance");
		R q = b, c2 = a;
		c2.validate_rect(q);
		bool inside = true;
		for (auto& p : pts(q)) inside = inside && sa.count(p);
		check(inside && (!hit || q == box(common)), "validate_rect");
	}
	if ((!sa.empty() || a.empty()) && (!sb.empty() || b.empty())) {
		R u = a;
		u.adjust_by_append_rect(b);
		check(all.empty() ? u.getArea() == 0 : u == box(all), "smallest rectangle with both");
	}
	check((a == b) == (a.m_left == b.m_left && a.m_top == b.m_top && a.m_width == b.m_width && a.m_height == b.m_height) && (a != b) == !(a == b), "equality");
}
void run() {
	std::vector<R> all;
	for (int l = -2; l <= 2; ++l)
		for (int t = -2; t <= 2; t += 2)
			for (int w = 0; w <= 5; ++w)
				for (int h = 0; h <= 5; h += (w & 1) ? 2 : 1) all.push_back(R(l, t, w, h));
	for (auto& r : all) single(r);
	long n = N(6000, 200000);
	if (g_thorough) { for (auto& a : all) for (auto& b : all) pair_(a, b); }
	else for (long i = 0; i < n; ++i) pair_(all[rnd(0, all.size() - 1)], all[rnd(0, all.size() - 1)]);
	for (long i = 0; i < N(300, 20000); ++i) {
		// one row or column apart, negative origins
		R a((int)rnd(-9, 9), (int)rnd(-9, 9), (int)rnd(1, 9), (int)rnd(1, 9));
		R b(a.m_left + (int)rnd(-1, 1) * a.m_width + (int)rnd(-1, 1), a.m_top + (int)rnd(-1, 1) * a.m_height + (int)rnd(-1, 1), (int)rnd(1, 9), (int)rnd(1, 9));
		pair_(a, b);
	}
	for (long i = 0; i < N(20000, 1000000); ++i) {
		R a((int)rnd(-100000000, 100000000), (int)rnd(-100000000, 100000000), (int)rnd(1, 200000000), (int)rnd(1, 200000000));
		R b((int)rnd(-100000000, 100000000), (int)rnd(-100000000, 100000000), (int)rnd(1, 200000000), (int)rnd(1, 200000000));
		begin("large", d(a) + " " + d(b));
		int l = std::max(a.m_left, b.m_left), t = std::max(a.m_top, b.m_top), r = std::min(a.m_left + a.m_width, b.m_left + b.m_width), m = std::min(a.m_top + a.m_height, b.m_top + b.m_height);
		R o;
		bool hit = a.is_intersect(o, b);
		check(hit == (l < r && t < m), "there is a common point");
		if (hit) check(o == R(l, t, r - l, m - t), "exactly the common points");
		R u = a;
		u.adjust_by_append_rect(b);
		int L = std::min(a.m_left, b.m_left), T = std::min(a.m_top, b.m_top), Z = std::max(a.m_left + a.m_width, b.m_left + b.m_width), B = std::max(a.m_top + a.m_height, b.m_top + b.m_height);
		check(u == R(L, T, Z - L, B - T), "smallest rectangle with both");
		P p((int)rnd(-100000000, 100000000), (int)rnd(-100000000, 100000000));
		check(static_cast<const R&>(a).contain(p) == in(a, p.m_x, p.m_y) && a.contain(p) == in(a, p.m_x, p.m_y), "contain");
	}
	typedef basicmath::mt_range_t<int> G;
	for (int s = -4; s <= 4; ++s)
		for (int e = s; e <= 6; ++e) { begin("range", fmt("%d %d", s, e)); check(G(s, e).size() == e - s && G(s, e).m_start == s && G(s, e).m_end == e, "size"); }
	for (long i = 0; i < 500; ++i) {
		P a((int)rnd(-1000, 1000), (int)rnd(-1000, 1000)), b((int)rnd(-3, 3), (int)rnd(-3, 3)), c = i & 1 ? a : b;
		begin("point", fmt("(%d,%d) (%d,%d)", a.m_x, a.m_y, b.m_x, b.m_y));
		check(a + b == P(a.m_x + b.m_x, a.m_y + b.m_y) && a - b == P(a.m_x - b.m_x, a.m_y - b.m_y), "sum and difference");
		check((a == c) == (a.m_x == c.m_x && a.m_y == c.m_y), "equality");
		double dx = a.m_x - b.m_x, dy = a.m_y - b.m_y;
		check(fabs(a.distance_to(b) - sqrt(dx * dx + dy * dy)) < 1e-9, "distance");
	}
}
HARNESS_MAIN
