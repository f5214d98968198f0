// Reference for the extraction of maximally stable extremal regions, straight from the definition.
#pragma once
#include "h.h"

namespace ref {
	struct Par {
		int delta;
		float dup, stable, nms;
		int minp;
		float maxr;
		bool eight;
		bool from_min, from_max;
		std::string str() const {
			return hh::fmt("delta=%d dup=%g stable=%g nms=%g min=%d max=%g conn=%d from=%d%d", delta, dup, stable, nms, minp, maxr, eight ? 8 : 4, from_min, from_max);
		}
	};
	struct Img {
		int h, w;
		std::vector<uint8_t> d;
		std::string str() const {
			std::string s = hh::fmt("%dx%d:", h, w);
			if (d.size() <= 600)
				for (size_t i = 0; i < d.size(); ++i) s += hh::fmt(i && i % w == 0 ? "/%d" : i ? ",%d" : "%d", d[i]);
			else {
				uint64_t x = 1469598103934665603ull;
				for (auto c : d) x = (x ^ c) * 1099511628211ull;
				s += hh::fmt("hash %llx", (unsigned long long)x);
			}
			return s;
		}
	};
	// an extremal region
	struct Tnode {
		int gray, size, parent;
		std::vector<int> own;	// pixels of exactly this level
		std::vector<int> kids;
		float var;
		int flag;	// 0 open, 1 rejected, 2 reported
	};
	struct Region {
		int gray;
		std::vector<int> px;
		bool operator<(const Region& o) const { return gray != o.gray ? gray < o.gray : px < o.px; }
		bool operator==(const Region& o) const { return gray == o.gray && std::operator==(px, o.px); }
	};

	static int find(std::vector<int>& p, int x) {
		while (p[x] != x) x = p[x] = p[p[x]];
		return x;
	}
	// all extremal regions of the (mirrored) image
	static std::vector<Tnode> tree(const Img& im, int mask, bool eight) {
		int n = im.h * im.w;
		std::vector<int> uf(n, -1), node(n, -1);
		std::vector<std::vector<int> > lv(256);
		for (int i = 0; i < n; ++i) lv[im.d[i] ^ mask].push_back(i);
		std::vector<Tnode> out;
		for (int g = 0; g < 256; ++g) {
			std::map<int, std::vector<int> > below;
			for (int i : lv[g]) uf[i] = i;
			// nodes below that get joined through the pixels of this level
			std::vector<std::pair<int, int> > merged;
			for (int i : lv[g]) {
				int y = i / im.w, x = i % im.w;
				for (int dy = -1; dy <= 1; ++dy)
					for (int dx = -1; dx <= 1; ++dx) {
						if ((!dy && !dx) || (!eight && dy && dx)) continue;
						int yy = y + dy, xx = x + dx;
						if (yy < 0 || xx < 0 || yy >= im.h || xx >= im.w) continue;
						int j = yy * im.w + xx;
						if (uf[j] < 0) continue;
						int a = find(uf, i), b = find(uf, j);
						if (a == b) continue;
						if (node[b] >= 0) merged.push_back({i, node[b]});
						if (node[a] >= 0) merged.push_back({i, node[a]});
						node[a] = node[b] = -1;
						uf[b] = a;
					}
			}
			std::map<int, int> at;
			for (int i : lv[g]) {
				int r = find(uf, i);
				if (!at.count(r)) {
					at[r] = (int)out.size();
					Tnode nd;
					nd.gray = g;
					nd.size = 0;
					nd.parent = -1;
					nd.var = 0;
					nd.flag = 0;
					out.push_back(nd);
				}
				out[at[r]].own.push_back(i);
				out[at[r]].size++;
			}
			for (auto& m : merged) {
				int k = at[find(uf, m.first)];
				if (out[m.second].parent >= 0) continue;
				out[m.second].parent = k;
				out[k].kids.push_back(m.second);
				out[k].size += out[m.second].size;
			}
			for (auto& a : at) node[a.first] = a.second;
		}
		return out;
	}
	static void pixels(const std::vector<Tnode>& t, int k, std::vector<int>& out) {
		std::vector<int> st(1, k);
		while (!st.empty()) {
			int q = st.back();
			st.pop_back();
			out.insert(out.end(), t[q].own.begin(), t[q].own.end());
			st.insert(st.end(), t[q].kids.begin(), t[q].kids.end());
		}
		std::sort(out.begin(), out.end());
	}
	static void near_duplicates(const std::vector<Tnode>& t, const Par& p, int maxp, std::vector<int>& l, int stable, int from) {
		for (int q = t[from].parent; q >= 0; q = t[q].parent) {
			if (t[q].size > maxp) break;
			if ((t[q].size - t[stable].size) / (double)t[stable].size > p.dup) break;
			if (t[q].flag == 0) l.push_back(q);
		}
	}
	// which components are reported
	static std::vector<Tnode> decided(const Img& im, const Par& p, int mask) {
		std::vector<Tnode> t = tree(im, mask, p.eight);
		int maxp = (int)(p.maxr * im.h * im.w);
		for (auto& n : t) {
			int thr = n.gray + p.delta;
			int top = (int)(&n - &t[0]), q = n.parent;
			while (q >= 0 && t[q].gray <= thr) {
				top = q;
				q = t[q].parent;
			}
			n.var = q >= 0 || t[top].gray == thr ? (t[top].size - n.size) / (float)n.size : -1;
		}
		for (auto& n : t)
			if (n.var > p.stable || n.size < p.minp || n.size > maxp || n.parent < 0) n.flag = 1;
		if (p.nms >= 0)
			for (auto& n : t) {
				if (n.parent < 0 || n.var < 0 || t[n.parent].var < 0 || t[n.parent].gray != n.gray + 1) continue;
				double s = t[n.parent].var - n.var;
				if (s > p.nms) t[n.parent].flag = 1;
				else if (-s > p.nms) n.flag = 1;
			}
		if (p.dup > 0) {
			// nodes are in order of gray level already
			for (size_t i = 0; i < t.size(); ++i) {
				if (t[i].flag != 0) continue;
				std::vector<int> l(1, (int)i);
				near_duplicates(t, p, maxp, l, (int)i, (int)i);
				int mid = (int)l.size() / 2;
				if (mid > 0) near_duplicates(t, p, maxp, l, l[mid], l.back());
				for (size_t j = 0; j < l.size(); ++j) t[l[j]].flag = (int)j == mid ? 2 : 1;
			}
		} else
			for (auto& n : t) if (n.flag == 0) n.flag = 2;
		return t;
	}
	// the regions to report, of one polarity
	static std::vector<Region> regions(const Img& im, const Par& p, int mask) {
		std::vector<Tnode> t = decided(im, p, mask);
		std::vector<Region> out;
		for (size_t i = 0; i < t.size(); ++i)
			if (t[i].flag == 2) {
				Region r;
				r.gray = t[i].gray ^ mask;
				pixels(t, (int)i, r.px);
				out.push_back(r);
			}
		std::sort(out.begin(), out.end());
		return out;
	}

	// ---------------------------------------------------------------- what the real code returned
	// pixels of one reported region, read the way the format of each memory type says; false: not well formed
	static bool read(const basicimg::img_multi_msers& m, int ch, int idx, const Img& im, std::vector<int>& px, std::string& why) {
		using basicimg::img_mser;
		const img_mser& r = m.m_msers[ch][idx];
		const mt_point* mem = m.m_memory[ch];
		int msz = m.m_memory_size[ch];
		auto add = [&](const mt_point* p) {
			if (p < mem || p >= mem + msz) { why = "points outside the memory of the result"; return false; }
			if (p->m_x < 0 || p->m_y < 0 || p->m_x >= im.w || p->m_y >= im.h) { why = hh::fmt("point (%d,%d) outside the image", p->m_x, p->m_y); return false; }
			px.push_back(p->m_y * im.w + p->m_x);
			return true;
		};
		if (r.m_memory_type == img_mser::Memory_Type_Range || r.m_memory_type == img_mser::Memory_Type_Share) {
			for (int i = 0; i < r.m_size; ++i) if (!add(r.m_points + i)) return false;
		} else if (r.m_memory_type == img_mser::Memory_Type_Share_Parallel_4 || r.m_memory_type == img_mser::Memory_Type_Recursive_Parallel_4) {
			std::vector<int> st(1, idx);
			size_t steps = 0;
			while (!st.empty()) {
				int q = st.back();
				st.pop_back();
				if (++steps > m.m_msers[ch].size() + 1) { why = "child references form a cycle"; return false; }
				if (q < 0 || q >= (int)m.m_msers[ch].size()) { why = "child reference outside the result"; return false; }
				const img_mser& t = m.m_msers[ch][q];
				if (t.m_points < mem || t.m_points + 4 > mem + msz) { why = "points outside the memory of the result"; return false; }
				for (int k = 0; k < 4; ++k)
					for (const mt_point* p = t.m_points + t.m_points[k].m_x; p < t.m_points + t.m_points[k].m_y; ++p)
						if (!add(p)) return false;
				if (t.m_memory_type == img_mser::Memory_Type_Recursive_Parallel_4) {
					const int* c = (const int*)(t.m_points + 4);
					for (int k = 0; k < c[0]; ++k) st.push_back(q + c[k + 1]);
				}
			}
		} else if (r.m_memory_type == img_mser::Memory_Type_Self) {
			for (int i = 0; i < r.m_size; ++i) px.push_back(r.m_points[i].m_y * im.w + r.m_points[i].m_x);
		} else { why = hh::fmt("memory type %d", r.m_memory_type); return false; }
		std::sort(px.begin(), px.end());
		for (size_t i = 0; i + 1 < px.size(); ++i) if (px[i] == px[i + 1]) { why = hh::fmt("pixel (%d,%d) twice", px[i] % im.w, px[i] / im.w); return false; }
		if ((int)px.size() != r.m_size) { why = hh::fmt("size field %d but %d pixels", r.m_size, (int)px.size()); return false; }
		{
			int l = 1 << 30, rr = -1, tp = 1 << 30, b = -1;
			for (int q : px) {
				l = std::min(l, q % im.w);
				rr = std::max(rr, q % im.w);
				tp = std::min(tp, q / im.w);
				b = std::max(b, q / im.w);
			}
			if (r.m_rect.m_left != l || r.m_rect.m_top != tp || r.m_rect.m_width != rr - l + 1 || r.m_rect.m_height != b - tp + 1) {
				why = hh::fmt("rectangle (%d,%d,%d,%d) instead of (%d,%d,%d,%d)", r.m_rect.m_left, r.m_rect.m_top, r.m_rect.m_width, r.m_rect.m_height, l, tp, rr - l + 1, b - tp + 1);
				return false;
			}
		}
		return true;
	}
	static std::string show(const Region& r, const Img& im) {
		std::string s = hh::fmt("gray %d, %d pixels:", r.gray, (int)r.px.size());
		for (size_t i = 0; i < r.px.size() && i < 12; ++i) s += hh::fmt(" (%d,%d)", r.px[i] % im.w, r.px[i] / im.w);
		return s;
	}
	// "" when the result is exactly the expected set
	static std::string compare(const basicimg::img_multi_msers& m, const Img& im, const Par& p, const std::vector<Region> want[2]) {
		for (int ch = 0; ch < 2; ++ch) {
			std::vector<Region> got;
			for (int i = 0; i < (int)m.m_msers[ch].size(); ++i) {
				Region r;
				r.gray = m.m_msers[ch][i].m_gray_level;
				std::string why;
				if (!read(m, ch, i, im, r.px, why)) return hh::fmt("polarity %d, region %d: ", ch, i) + why;
				got.push_back(r);
			}
			std::sort(got.begin(), got.end());
			if (std::operator==(got, want[ch])) continue;
			for (auto& g : got) if (std::find(want[ch].begin(), want[ch].end(), g) == want[ch].end()) return hh::fmt("polarity %d: reported but not in the definition: ", ch) + show(g, im);
			for (auto& g : want[ch]) if (std::find(got.begin(), got.end(), g) == got.end()) return hh::fmt("polarity %d: missing: ", ch) + show(g, im);
			return hh::fmt("polarity %d: a region is reported twice", ch);
		}
		return "";
	}
	static void apply(basicimg::img_mser_base* a, const Par& p) {
		a->set_stable_delta(p.delta);
		a->set_duplicated_variation(p.dup);
		a->set_stable_max_variation(p.stable);
		a->set_nms_similarity(p.nms);
		a->set_min_max_point(p.minp, p.maxr);
		a->set_connected_type(p.eight ? basicimg::img_Connected_Type_8_Neibour : basicimg::img_Connected_Type_4_Neibour);
		a->enable_extraction(p.from_min ? sys_true : sys_false, p.from_max ? sys_true : sys_false);
	}
	static Img image(int kind, int h, int w) {
		using hh::rnd;
		Img im;
		im.h = h;
		im.w = w;
		im.d.resize(h * w);
		int lo = (int)rnd(0, 200), span = (int)rnd(1, 55);
		switch (kind) {
		case 0:	// few levels
			for (auto& c : im.d) c = (uint8_t)(lo + rnd(0, rnd(1, 5)));
			break;
		case 1:	// noise over the whole range
			for (auto& c : im.d) c = (uint8_t)rnd(0, 255);
			break;
		case 2: {	// blobs on a slope
			std::vector<int> a(h * w, 0);
			int gx = (int)rnd(-4, 4), gy = (int)rnd(-4, 4);
			for (int k = 0; k < 5; ++k) {
				int cx = (int)rnd(0, w - 1), cy = (int)rnd(0, h - 1), r = (int)rnd(1, 6), s = (int)rnd(-90, 90);
				for (int y = 0; y < h; ++y)
					for (int x = 0; x < w; ++x)
						if ((x - cx) * (x - cx) + (y - cy) * (y - cy) <= r * r) a[y * w + x] += s;
			}
			for (int y = 0; y < h; ++y)
				for (int x = 0; x < w; ++x) im.d[y * w + x] = (uint8_t)std::min(255, std::max(0, 128 + a[y * w + x] + gx * x + gy * y + (int)rnd(0, 3)));
			break;
		}
		case 3:	// extreme values
			for (auto& c : im.d) c = rnd(0, 3) ? (rnd(0, 1) ? 0 : 255) : (uint8_t)rnd(253, 255);
			break;
		case 4:	// all equal
			for (auto& c : im.d) c = (uint8_t)lo;
			break;
		case 5: {	// smooth noise
			std::vector<int> a(h * w);
			for (auto& c : a) c = (int)rnd(0, 255);
			for (int y = 0; y < h; ++y)
				for (int x = 0; x < w; ++x) {
					int s = 0, n = 0;
					for (int dy = -1; dy <= 1; ++dy)
						for (int dx = -1; dx <= 1; ++dx)
							if (y + dy >= 0 && x + dx >= 0 && y + dy < h && x + dx < w) {
								s += a[(y + dy) * w + x + dx];
								++n;
							}
					im.d[y * w + x] = (uint8_t)(lo / 4 + s / n * span / 100);
				}
			break;
		}
		default: {	// spiral / comb: long thin regions that cross the patches again and again
			for (int y = 0; y < h; ++y)
				for (int x = 0; x < w; ++x) {
					int v = kind % 2 ? (x % 2 ? 200 : 10) : (y % 2 ? 200 : 10);
					if ((kind % 2 ? y : x) == (((kind % 2 ? x : y) / 2) % 2 ? 0 : (kind % 2 ? h : w) - 1)) v = 10;
					im.d[y * w + x] = (uint8_t)(v + rnd(0, 1) * rnd(0, 9));
				}
		}
		}
		return im;
	}
	static Par params(int t) {
		using hh::rnd;
		static const int deltas[] = {1, 1, 2, 5, 0, 20};
		static const float dups[] = {0.1f, 0.f, 0.25f, 0.4f, -1.f};
		static const float st[] = {0.5f, 0.25f, 1e30f, 1.f, 0.f};
		static const float nms[] = {0.f, -1.f, 0.05f};
		Par p;
		p.delta = deltas[rnd(0, 5)];
		p.dup = dups[rnd(0, 4)];
		p.stable = st[rnd(0, 4)];
		p.nms = nms[rnd(0, 2)];
		p.minp = (int)rnd(0, 2) ? (int)rnd(0, 8) : (int)rnd(0, 40);
		p.maxr = rnd(0, 2) ? 1.f : rnd(0, 1) ? 0.25f : 0.75f;
		p.eight = t % 7 == 3;
		int f = (int)rnd(0, 5);
		p.from_min = f != 1;
		p.from_max = f != 2;
		return p;
	}
	// the image, as a matrix of its own or as a view into a wider one
	static basicmath::mt_mat mat(const Img& im, bool view) {
		using namespace basicmath;
		if (!view) {
			mt_mat m(im.h, im.w, mt_U8C1);
			for (int y = 0; y < im.h; ++y)
				for (int x = 0; x < im.w; ++x) *m.ptr<u8>(y, x, 0) = im.d[y * im.w + x];
			return m;
		}
		mt_mat big(im.h + 3, im.w + 5, mt_U8C1);
		for (int y = 0; y < im.h + 3; ++y)
			for (int x = 0; x < im.w + 5; ++x) *big.ptr<u8>(y, x, 0) = (u8)(y * 37 + x * 11);
		mt_mat m = big.sub(1, 1 + im.h, 0).sub(2, 2 + im.w, 1);
		for (int y = 0; y < im.h; ++y)
			for (int x = 0; x < im.w; ++x) *m.ptr<u8>(y, x, 0) = im.d[y * im.w + x];
		return m;
	}
}

// the logger: quiet, but an internal assertion of the code under test counts as a failure
class quiet_logger : public basiclog::log_logger {
public:
	std::string m_last;
	int m_number;
	quiet_logger() : m_number(0) {
		enable_debug(false);
		enable_info(false);
		enable_warning(false);
		enable_error(true);
	}
	virtual void print(const std::string& s) { ++m_number; m_last = s; }
};
void cv::String::deallocate() {}
