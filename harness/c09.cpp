#include "mat_model.h"
using namespace mm;

struct V { mt_mat m; Model o; string how; };
static bool unit(const mt_mat& m, int a) { return m.size()[a] == 1; }
// do the dimensions a..a+n-1 lie side by side, so that they can be one dimension of a view
static bool side_by_side(const Model& o, const mt_mat& m, int a, int n) {
	long size = 1, step = 0;
	for (int i = a + n - 1; i >= a; --i) {
		if (m.size()[i] == 1) continue;
		if (size != 1 && m.step()[i] != step * size) return false;
		if (size == 1) step = m.step()[i];
		size *= m.size()[i];
	}
	return true;
}
static bool next(V& v) {
	mt_mat& m = v.m;
	const mt_mat& c = m;
	Model& o = v.o;
	int D = m.dim();
	for (int tries = 0; tries < 20; ++tries) {
		int k = (int)rnd(0, 17);
		if (k == 0) {
			Co lo, hi;
			vector<mt_range> r;
			for (int i = 0; i < D; ++i) { lo.push_back((int)rnd(0, o.size[i] - 1)); hi.push_back((int)rnd(lo[i] + 1, o.size[i])); r.push_back(mt_range(lo[i], hi[i] == o.size[i] && rnd(0, 1) ? -1 : hi[i])); }
			if (rnd(0, 1)) { int d = (int)rnd(0, D - 1); hi[d] = o.size[d]; r[d].m_end = hi[d]; }
			mt_mat x = rnd(0, 1) ? c.sub(r) : c.sub(D, &r[0]);
			v.how += "sub" + show(lo) + show(hi);
			v.o = sub(o, lo, hi);
			m = x;
		} else if (k == 1) {
			int d = (int)rnd(0, D - 1);
			Co lo(D, 0), hi = o.size;
			lo[d] = (int)rnd(0, o.size[d] - 1);
			hi[d] = (int)rnd(lo[d] + 1, o.size[d]);
			v.how += fmt(" sub(%d,%d,dim %d)", lo[d], hi[d], d);
			mt_mat x = rnd(0, 1) ? c.sub(lo[d], hi[d], d) : c.sub(mt_range(lo[d], hi[d]), d);
			v.o = sub(o, lo, hi);
			m = x;
		} else if (k == 2) {
			int d = (int)rnd(0, D - 1), n = (int)rnd(1, o.size[d]);
			Co lo(D, 0), hi = o.size;
			bool f = rnd(0, 1);
			if (f) hi[d] = n; else lo[d] = o.size[d] - n;
			v.how += fmt(" %s(%d,%d)", f ? "front" : "back", n, d);
			mt_mat x = f ? c.front(n, d) : c.back(n, d);
			v.o = sub(o, lo, hi);
			m = x;
		} else if (k == 3) {
			int d = (int)rnd(0, D - 1), p;
			if (D == 2) d = (int)rnd(0, 1);
			if (D == 3 && rnd(0, 1)) d = 0;
			p = (int)rnd(0, o.size[d] - 1);
			Co lo(D, 0), hi = o.size;
			lo[d] = p;
			hi[d] = p + 1;
			v.how += fmt(" row/col/plane/index(%d,%d)", p, d);
			mt_mat x = D == 2 && d == 0 ? c.row(p) : D == 2 ? c.col(p) : D == 3 && d == 0 ? c.plane(p) : c.index(p, d);
			v.o = sub(o, lo, hi);
			m = x;
		} else if (k == 4) {
			if (D != 2) continue;
			Co lo, hi;
			for (int i = 0; i < 2; ++i) { lo.push_back((int)rnd(0, o.size[i] - 1)); hi.push_back((int)rnd(lo[i] + 1, o.size[i])); }
			v.how += " roi" + show(lo) + show(hi);
			mt_mat x = c.sub(mt_rect(lo[1], lo[0], hi[1] - lo[1], hi[0] - lo[0]));
			v.o = sub(o, lo, hi);
			m = x;
		} else if (k == 5 || k == 6) {
			int a = (int)rnd(0, D - 1), b = (int)rnd(0, D - 1);
			if (D == 2 && rnd(0, 1)) { a = 0; b = 1; }
			v.how += fmt(" swap(%d,%d)", a, b);
			mt_mat x = D == 2 && a == 0 && b == 1 ? c.t() : c.swap_dim(a, b);
			v.o = swapped(o, a, b);
			m = x;
		} else if (k == 7) {
			int d = (int)rnd(0, D - 1);
			v.how += fmt(" flip(%d)", d);
			mt_mat x = c.flip(d);
			v.o = flipped(o, Co(1, d));
			m = x;
		} else if (k == 8) {
			Co w;
			vector<b8> fl(D, sys_false);
			for (int i = 0; i < D; ++i) if (rnd(0, 1)) { w.push_back(i); fl[i] = sys_true; }
			if (w.empty()) continue;
			std::random_shuffle(w.begin(), w.end());
			v.how += " flip" + show(w);
			int t = (int)rnd(0, 3);
			mt_mat x = t == 0 ? c.flip(w) : t == 1 ? c.flip((int)w.size(), &w[0]) : t == 2 ? c.flip(fl) : c.flip(D, &fl[0]);
			v.o = flipped(o, w);
			m = x;
		} else if (k == 9) {
			Co w;
			for (int i = 0; i < D; ++i) w.push_back(i);
			v.how += " flip_all";
			mt_mat x = c.flip_all_dim();
			v.o = flipped(o, w);
			m = x;
		} else if (k == 10) {
			int lo = (int)rnd(0, o.ch - 1), hi = (int)rnd(lo + 1, o.ch);
			v.how += fmt(" channels(%d,%d)", lo, hi);
			mt_mat x;
			if (hi == lo + 1 && rnd(0, 1)) {
				if (rnd(0, 1)) x = c.channel_at(lo);
				else { vector<mt_mat> all; c.all_channel(all); check((int)all.size() == o.ch, "number of channels"); x = all[lo]; }
			} else x = c.sub_channel(lo, hi);
			v.o = channels(o, lo, hi);
			m = x;
		} else if (k == 11 || k == 12) {
			if (!m.is_continuous()) continue;
			// the same number of element-channels
			long total = o.n() * o.ch;
			int ch = k == 11 ? o.ch : (int)rnd(1, 4);
			bool neg = m.is_step_negative();
			if (neg) ch = o.ch;	// no view can mirror the elements and not the channels
			if (total % ch) continue;
			long n = total / ch;
			Co s;
			int dims = (int)rnd(1, 6);
			for (int i = 0; i < dims - 1; ++i) { int d = (int)rnd(1, 4); if (n % d) d = 1; s.push_back(d); n /= d; }
			s.push_back((int)n);
			v.how += " reshape" + show(s) + fmt("x%d", ch);
			int g = ch == o.ch && rnd(0, 1) ? -1 : ch;
			mt_mat x = s.size() == 2 ? c.reshape_2d(s[0], s[1], g) : s.size() == 3 ? c.reshape_3d(s[0], s[1], s[2], g) : rnd(0, 1) ? c.reshape(s, g) : c.reshape((int)s.size(), &s[0], g);
			v.o = reshaped(o, s, ch);
			m = x;
		} else if (k == 13) {
			if (D > 6) continue;
			int d = (int)rnd(0, D - 1), n = o.size[d];
			Co p;
			int parts = (int)rnd(1, 3);
			for (int i = 0; i < parts - 1; ++i) { int q = (int)rnd(1, 4); if (n % q) q = 1; p.push_back(q); n /= q; }
			p.push_back(n);
			std::random_shuffle(p.begin(), p.end());
			v.how += fmt(" split(%d)", d) + show(p);
			mt_mat x = c.split_dim(d, (int)p.size(), &p[0]);
			v.o = split(o, d, p);
			m = x;
		} else if (k == 14) {
			int a = (int)rnd(0, D - 1), n = (int)rnd(1, D - a);
			if (!side_by_side(o, m, a, n)) continue;
			v.how += fmt(" combine(%d,%d)", a, n);
			mt_mat x = c.combine_dim(a, n);
			v.o = combined(o, a, n);
			m = x;
		} else if (k == 15) {
			if (D > 6) continue;
			int d = (int)rnd(0, D);
			v.how += fmt(" increase(%d)", d);
			mt_mat x = c.increase_dim(d);
			Co s = o.size;
			s.insert(s.begin() + d, 1);
			v.o = reshaped(o, s, o.ch);
			m = x;
		} else if (k == 16) {
			if (D < 2) continue;
			int d = (int)rnd(0, D - 1);
			if (o.size[d] != 1) continue;
			v.how += fmt(" decrease(%d)", d);
			mt_mat x = c.decrease_dim(d);
			Co s = o.size;
			s.erase(s.begin() + d);
			v.o = reshaped(o, s, o.ch);
			m = x;
		} else if (k == 17) {
			if (rnd(0, 1)) {
				if (D > 6) continue;
				v.how += " channel_as_last_dim";
				mt_mat x = c.channel_as_last_dim();
				v.o = channel_dim(o);
				m = x;
			} else {
				if (D < 2 || o.ch != 1 || m.step()[D - 1] != o.ds) continue;
				v.how += " last_dim_as_channel";
				mt_mat x = c.last_dim_as_channel();
				v.o = dim_channel(o);
				m = x;
			}
		}
		return true;
	}
	return false;
}
void run() {
	for (int t = 0; t < N(4000, 60000); ++t) {
		int dims = (int)rnd(1, 6), di = (int)rnd(0, 9), ch = (int)rnd(1, 4);
		Co s = shape(dims, 200);
		mt_mat base(s, mt_Depth_Channel(depths[di], ch));
		int bytes = base.memory_size();
		u8* mem = base.data();
		for (int i = 0; i < bytes; ++i) mem[i] = (u8)(i * 7 + 3);
		V v;
		v.m = base;
		v.o = dense(s, ch, depth_size[di]);
		int steps = 1 + (int)rnd(0, 4);
		for (int k = 0; k < steps; ++k) {
			V before = v;
			begin(fmt("dim%d", dims).c_str(), fmt("%s depth %d channels %d", show(s).c_str(), di, ch) + v.how);
			if (!next(v)) break;
			string what = v.how.substr(before.how.size());
			string r = compare(v.m, v.o, mem);
			check(r.empty(), "after" + v.how + ": " + r);
			if (!r.empty()) break;
			check(v.m.is_memory_shared(base), "the view" + what + " does not share the storage");
			r = compare(before.m, before.o, mem);
			check(r.empty(), "the original of" + what + " changed: " + r);
			long lo = v.o.addr[0];
			for (long a : v.o.addr) lo = std::min(lo, a);
			check(((const mt_mat&)v.m).memory_data() - mem <= lo || v.o.n() == 1, "memory_data");
			bool pos = true, neg = true;
			for (int i = 0; i < v.m.dim(); ++i) { if (v.m.step()[i] < 0) pos = false; else neg = false; }
			check(v.m.is_step_positive() == pos && v.m.is_step_negative() == neg, "sign of the steps");
		}
		for (int i = 0; i < bytes; ++i) if (mem[i] != (u8)(i * 7 + 3)) { fail("making views changed the storage"); break; }
		// writing through the view changes exactly its elements
		vector<u8> want(mem, mem + bytes);
		for (long a : v.o.addr) for (int b = 0; b < v.o.ds; ++b) want[a + b] ^= 0xff;
		for (long k = 0; k < v.o.n(); ++k) {
			Co c = v.o.at(k);
			for (int j = 0; j < v.o.ch; ++j) { u8* p = v.m.ptr<u8>(c, j); for (int b = 0; b < v.o.ds; ++b) p[b] ^= 0xff; }
		}
		check(!memcmp(&want[0], mem, bytes), "writing through" + v.how);
	}
}
HARNESS_MAIN
