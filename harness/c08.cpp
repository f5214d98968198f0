#include "mat_model.h"
using namespace mm;

static string layout(mt_mat& m, const Co& s, int ch, int di) {
	Model o = dense(s, ch, depth_size[di]);
	if (m.depth() != depths[di]) return "element type";
	const u8* base = ((const mt_mat&)m).data();
	string r = compare(m, o, base);
	if (!r.empty()) return r;
	if (((const mt_mat&)m).memory_data() != base || !m.is_continuous() || !m.is_step_positive()) return "a new matrix is not one dense block";
	long step = depth_size[di] * ch;
	for (int i = m.dim() - 1; i >= 0; --i) { if (m.step()[i] != step) return fmt("step %d instead of %ld in dimension %d", m.step()[i], step, i); step *= s[i]; }
	// every byte of the storage can be written
	memset(m.data(), 0xa5, m.memory_size());
	for (int k = 0; k < 5; ++k) {
		Co c = o.at(rnd(0, o.n() - 1));
		if (m.get_index(m.ptr<u8>(c, 0)) != c && !(std::count(s.begin(), s.end(), 1))) return "get_index of " + show(c);
	}
	return "";
}
static bool same_layout(const mt_mat& a, const mt_mat& b) {
	return a.dim() == b.dim() && std::equal(a.size(), a.size() + a.dim(), b.size()) && a.depth_channel() == b.depth_channel();
}
static void one(int dims, int di, int ch, int limit) {
	Co s = shape(dims, limit);
	mt_Depth_Channel dc(depths[di], ch);
	begin(fmt("dim%d", dims).c_str(), fmt("%s depth %d channels %d", show(s).c_str(), (int)di, ch));
	check(dc.channel() == ch && dc.depth() == depths[di] && dc.depth_size() == depth_size[di] && dc.size() == depth_size[di] * ch, "depth and channel code");
	vector<mt_mat> ms;
	ms.push_back(mt_mat(dims, &s[0], dc));
	ms.push_back(mt_mat(s, dc));
	if (dims == 1) ms.push_back(mt_mat(s[0], dc));
	if (dims == 2) ms.push_back(mt_mat(s[0], s[1], dc));
	if (dims == 3) ms.push_back(mt_mat(s[0], s[1], s[2], dc));
	ms.push_back(mt_mat(ms[0], mt_mat::Construct_Type_Create_As_Size));
	// create() on a matrix used before with another shape
	mt_mat a;
	for (int k = (int)rnd(0, 3); k > 0; --k) {
		Co t = shape((int)rnd(1, 7), 200);
		a.create((int)t.size(), &t[0], mt_Depth_Channel(depths[rnd(0, 9)], (int)rnd(1, 4)));
		memset(a.data(), 1, a.memory_size());
	}
	if (rnd(0, 1)) a.create(dims, &s[0], mt_Depth_Channel(depths[rnd(0, 9)], (int)rnd(1, 4)));	// the same shape, any type
	if (dims == 1) a.create(s[0], dc);
	else if (dims == 2) a.create(s[0], s[1], dc);
	else if (dims == 3) a.create(s[0], s[1], s[2], dc);
	else a.create(dims, &s[0], dc);
	ms.push_back(a);
	for (size_t i = 0; i < ms.size(); ++i) {
		string r = layout(ms[i], s, ch, di);
		check(r.empty(), fmt("matrix %d: ", (int)i) + r);
	}
	// create() with the shape a matrix has keeps its storage
	u8* d = ms[0].data();
	ms[0].create(dims, &s[0], dc);
	check(ms[0].data() == d, "create() with the same shape moved the storage");
	check(ms[0].is_same_size(ms[1]) && ms[0].is_same_memory_size(ms[1]) && same_layout(ms[0], ms[1]), "matrices of one shape");
	for (int i = 0; i < dims; ++i) {
		Co t = s;
		t[i] += 1;
		mt_mat x(t, dc);
		check(!x.is_same_size(ms[0]) && !x.is_same_memory_size(ms[0]), "other size called same");
	}
	// storage of the caller, with dense and with given steps
	long n = 1;
	for (int x : s) n *= x;
	int es = depth_size[di] * ch;
	vector<u8> own(n * es * 2 + 64);
	mt_mat v(s, dc, &own[0], vector<i32>());
	string r = layout(v, s, ch, di);
	check(r.empty(), "matrix on a given block: " + r);
	Co st(dims);
	int gap = (int)rnd(0, 1) * depth_size[di];
	long step = es + gap;
	for (int i = dims - 1; i >= 0; --i) { st[i] = (int)step; step *= s[i]; }
	vector<u8> wide(step + 64);
	mt_mat w(dims, &s[0], dc, &wide[0], &st[0]);
	Model o = dense(s, ch, depth_size[di]);
	for (long k = 0; k < o.n(); ++k) {
		Co c = o.at(k);
		long p = 0;
		for (int i = 0; i < dims; ++i) p += (long)c[i] * st[i];
		for (int j = 0; j < ch; ++j) o.addr[k * ch + j] = p + j * depth_size[di];
	}
	r = compare(w, o, &wide[0]);
	check(r.empty(), "matrix with given steps: " + r);
}
void run() {
	for (int dims = 1; dims <= 7; ++dims)
		for (int di = 0; di < 10; ++di)
			for (int t = 0; t < N(6, 60); ++t) one(dims, di, t % 3 == 0 ? 1 : (int)rnd(1, 6), 300);
	for (int t = 0; t < N(10, 60); ++t) one((int)rnd(1, 3), (int)rnd(0, 9), (int)rnd(100, 600), 12);
	for (int t = 0; t < N(4, 20); ++t) {
		int h = (int)rnd(100, 900), w = (int)rnd(100, 900), ch = (int)rnd(1, 4), di = (int)rnd(0, 9);
		begin("large", fmt("%dx%d depth %d channels %d", h, w, di, ch));
		mt_mat m(h, w, mt_Depth_Channel(depths[di], ch));
		int es = depth_size[di] * ch;
		check(m.step()[1] == es && m.step()[0] == es * w && m.element_number() == h * w && m.memory_size() == h * w * es, "layout");
		check(m.ptr<u8>(h - 1, w - 1, ch - 1) == m.data() + (long)h * w * es - depth_size[di], "last element");
		memset(m.data(), 7, m.memory_size());
	}
}
HARNESS_MAIN
