// The extractors opened up: the state between the steps of the extraction compared with the definition.
#pragma once
#include "img_fast_mser_v1.h"
#include "img_fast_mser_v2.h"
#include "mser_ref.h"

namespace probe {
	using namespace hh;
	using namespace ref;
	using std::string;

	struct Patch { int left, top, width, height; };
	// how many patches next to each other / above each other
	static void grid(int nt, int& gw, int& gh) {
		static const int n[] = {1, 2, 4, 8, 16, 32}, w[] = {1, 2, 2, 4, 4, 8}, h[] = {1, 1, 2, 2, 4, 4};
		for (int i = 0; i < 6; ++i) if (n[i] == nt) { gw = w[i]; gh = h[i]; }
	}
	static bool fits(int nt, const Img& im) {
		int gw, gh;
		grid(nt, gw, gh);
		return im.w >= gw && im.h >= gh;
	}
	static Img part(const Img& im, const Patch& p) {
		Img o;
		o.h = p.height;
		o.w = p.width;
		for (int y = 0; y < p.height; ++y)
			for (int x = 0; x < p.width; ++x) o.d.push_back(im.d[(p.top + y) * im.w + p.left + x]);
		return o;
	}
	static std::vector<int> owner(const std::vector<Tnode>& t, int n) {
		std::vector<int> o(n, -1);
		for (size_t k = 0; k < t.size(); ++k) for (int q : t[k].own) o[q] = (int)k;
		return o;
	}
	// patches cover the image exactly once and lie in rows of the grid
	static string tiling(const std::vector<Patch>& p, const Img& im, int nt) {
		int gw, gh;
		grid(nt, gw, gh);
		if ((int)p.size() != nt) return fmt("%d patches for %d threads", (int)p.size(), nt);
		std::vector<int> c(im.h * im.w, 0);
		for (int i = 0; i < nt; ++i) {
			const Patch& a = p[i];
			if (a.width < 1 || a.height < 1 || a.left < 0 || a.top < 0 || a.left + a.width > im.w || a.top + a.height > im.h) return fmt("patch %d: %dx%d at (%d,%d)", i, a.height, a.width, a.left, a.top);
			for (int y = 0; y < a.height; ++y) for (int x = 0; x < a.width; ++x) ++c[(a.top + y) * im.w + a.left + x];
			if (i % gw && (p[i - 1].left + p[i - 1].width != a.left || p[i - 1].top != a.top || p[i - 1].height != a.height)) return fmt("patch %d is not right of patch %d", i, i - 1);
			if (i >= gw && (p[i - gw].top + p[i - gw].height != a.top || p[i - gw].left != a.left || p[i - gw].width != a.width)) return fmt("patch %d is not below patch %d", i, i - gw);
		}
		for (int i = 0; i < im.h * im.w; ++i) if (c[i] != 1) return fmt("pixel (%d,%d) lies in %d patches", i % im.w, i / im.w, c[i]);
		return "";
	}
	// work areas [start, start + size) inside [0, total)
	static string areas(const char* what, std::vector<std::pair<long, long> > a, long total) {
		for (size_t i = 0; i < a.size(); ++i) {
			if (a[i].first < 0 || a[i].first + a[i].second > total) return fmt("%s: the area of patch %d [%ld,%ld) leaves the storage of %ld", what, (int)i, a[i].first, a[i].first + a[i].second, total);
			for (size_t j = 0; j < i; ++j) if (a[i].first < a[j].first + a[j].second && a[j].first < a[i].first + a[i].second) return fmt("%s: the areas of patches %d and %d overlap", what, (int)j, (int)i);
		}
		return "";
	}
	// the neighbour steps of a patch with rows of the given length
	static string steps(const int* dir, bool eight, int row) {
		std::set<int> want = eight ? std::set<int>{1, -1, row, -row, row + 1, row - 1, -row + 1, -row - 1} : std::set<int>{1, -1, row, -row};
		if (row < 3) return "row too short";
		std::multiset<int> got(dir, dir + (eight ? 8 : 4));
		if (!std::operator==(got, std::multiset<int>(want.begin(), want.end()))) return "the neighbour steps do not reach every neighbour once: " + hh::show(got);
		return "";
	}
	template<class PTR> static string slices(PTR** start, PTR* heap, const unsigned* level, const Img& im, int mask) {
		std::vector<unsigned> want(257, 0);
		for (int c : im.d) ++want[c ^ mask];
		for (int i = 0; i < 256; ++i) if (level[i] != want[i]) return fmt("level %d: %u pixels counted, %u there", i, level[i], want[i]);
		if (level[256]) return "level 256 is not empty";
		long at = 0;
		for (int i = 0; i < 257; ++i) {
			if (start[i] - heap != at) return fmt("the slice of level %d starts at %ld instead of %ld", i, (long)(start[i] - heap), at);
			if (*start[i]) return fmt("the slice of level %d is not marked as empty", i);
			at += want[i] + 1;
		}
		return "";
	}

	class P1 : public img_fast_mser_v1 {
	public:
		static const char* name() { return "v1"; }
		typedef img_fast_mser_v1::parallel_info PI;
		void prep(const Par& p, int nt, const Img& im) {
			ref::apply(this, p);
			set_parallel_thread_number(nt);
			m_max_point = (i32)(m_max_point_ratio * im.h * im.w);
		}
		void alloc(const mt_mat& m) { allocate_memory(m, img_mask_info<u8>()); }
		void process(const mt_mat& m, int mask) { for (size_t i = 0; i < m_pinfo.size(); ++i) process_tree_patch(m_pinfo[i], m, img_mask_info<u8>(), (u8)mask); }
		void flood(const mt_mat& m, int mask) { for (size_t i = 0; i < m_pinfo.size(); ++i) make_tree_patch(m_pinfo[i], m, img_mask_info<u8>(), (u8)mask, (u8)i); }
		void build(const mt_mat& m, int mask) { build_tree(m, img_mask_info<u8>(), (u8)mask); }
		void recognize() { recognize_mser(); }
		void clear() { clear_memory_cache(); }
		string check_isolated(const mt_mat& m, int mask) {
			auto sum = [](const void* p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; ++i) h = (h ^ ((const uint8_t*)p)[i]) * 1099511628211ull; return h; };
			auto state = [&](size_t i) {
				PI& q = m_pinfo[i];
				size_t n = (size_t)(q.m_width + 2) * (q.m_height + 2), k = (size_t)q.m_width * q.m_height;
				return sum(q.m_masked_image_data, n * 2) + sum(q.m_link_points, k * sizeof(linked_point)) + sum(q.m_heap, (k + 257) * 8) + (q.m_boundary_regions[0] ? sum(q.m_boundary_regions[0], q.m_height * 8) : 0) + (q.m_boundary_regions[1] ? sum(q.m_boundary_regions[1], q.m_height * 8) : 0) + (q.m_boundary_regions[2] ? sum(q.m_boundary_regions[2], q.m_width * 8) : 0) + (q.m_boundary_regions[3] ? sum(q.m_boundary_regions[3], q.m_width * 8) : 0);
			};
			for (size_t i = 0; i < m_pinfo.size(); ++i) {
				std::vector<uint64_t> before;
				for (size_t j = 0; j < m_pinfo.size(); ++j) before.push_back(state(j));
				make_tree_patch(m_pinfo[i], m, img_mask_info<u8>(), (u8)mask, (u8)i);
				for (size_t j = 0; j < m_pinfo.size(); ++j) if (i != j && before[j] != state(j)) return fmt("flooding patch %d writes into the work area of patch %d", (int)i, (int)j);
			}
			return "";
		}
		std::vector<Patch> patches() {
			std::vector<Patch> o;
			for (auto& p : m_pinfo) o.push_back({p.m_left, p.m_top, p.m_width, p.m_height});
			return o;
		}
		string check_alloc(const Img& im, const Par& p, int nt) {
			string e = tiling(patches(), im, nt);
			if (!e.empty()) return e;
			int gw, gh;
			grid(nt, gw, gh);
			std::vector<std::pair<long, long> > a, b, c, d;
			for (int i = 0; i < nt; ++i) {
				PI& q = m_pinfo[i];
				long n = (long)(q.m_width + 2) * (q.m_height + 2);
				if (q.m_width_with_boundary != q.m_width + 2 || q.m_height_with_boundary != q.m_height + 2) return fmt("patch %d: size with border", i);
				a.push_back({q.m_masked_image_data - m_masked_image, n});
				b.push_back({q.m_link_points - m_linked_points, (long)q.m_width * q.m_height});
				c.push_back({q.m_heap - m_heap, (long)q.m_width * q.m_height + 257});
				if (q.m_heap_start[0] != q.m_heap) return fmt("patch %d: the slices do not start at the heap", i);
				bool has[4] = {i % gw > 0, i % gw < gw - 1, i / gw > 0, i / gw < gh - 1};
				for (int k = 0; k < 4; ++k) {
					if ((q.m_boundary_regions[k] != NULL) != has[k]) return fmt("patch %d: border %d %s", i, k, has[k] ? "has no store" : "has a store but no neighbour");
					if (has[k]) d.push_back({q.m_boundary_regions[k] - m_boundary_regions, k < 2 ? q.m_height : q.m_width});
				}
				e = steps(q.m_dir, p.eight, q.m_width + 2);
				if (!e.empty()) return fmt("patch %d: ", i) + e;
			}
			if (!(e = areas("image", a, m_masked_image_size)).empty()) return e;
			if (!(e = areas("pixel list", b, m_linked_point_size)).empty()) return e;
			if (!(e = areas("heap", c, m_heap_size)).empty()) return e;
			if (!(e = areas("border", d, nt == 1 ? 0 : m_boundary_region_size)).empty()) return e;
			// the allocations really have these sizes
			memset(m_masked_image, 0, sizeof(i16) * m_masked_image_size);
			memset(m_linked_points, 0, sizeof(linked_point) * m_linked_point_size);
			memset(m_heap, 0, sizeof(*m_heap) * m_heap_size);
			if (nt > 1) memset(m_boundary_regions, 0, sizeof(*m_boundary_regions) * m_boundary_region_size);
			return "";
		}
		string check_process(const Img& im, int mask) {
			for (size_t i = 0; i < m_pinfo.size(); ++i) {
				PI& q = m_pinfo[i];
				Img pt = part(im, {q.m_left, q.m_top, q.m_width, q.m_height});
				string e = slices(q.m_heap_start, q.m_heap, q.m_level_size, pt, mask);
				if (!e.empty()) return fmt("patch %d: ", (int)i) + e;
				for (int y = -1; y <= pt.h; ++y)
					for (int x = -1; x <= pt.w; ++x) {
						i16 v = q.m_masked_image_data[(y + 1) * q.m_width_with_boundary + x + 1];
						if (y < 0 || x < 0 || y >= pt.h || x >= pt.w) {
							if (v >= 0) return fmt("patch %d: the border at (%d,%d) is not marked", (int)i, x, y);
							continue;
						}
						bool edge = x == 0 && q.m_boundary_regions[0] || x == pt.w - 1 && q.m_boundary_regions[1] || y == 0 && q.m_boundary_regions[2] || y == pt.h - 1 && q.m_boundary_regions[3];
						if (v < 0 || (v & 0x1ff) != (pt.d[y * pt.w + x] ^ mask) || ((v & Boundary_Yes_Mask) != 0) != edge || (v & ~(0x1ff | Boundary_Yes_Mask)))
							return fmt("patch %d: pixel (%d,%d) of gray %d, %sa neighbour of another patch, holds %x", (int)i, x, y, pt.d[y * pt.w + x], edge ? "" : "not ", v);
					}
			}
			return "";
		}
		template<class F> string each(F f) {
			for (size_t i = 0; i < m_pinfo.size(); ++i)
				for (int k = 0; k < m_pinfo[i].m_mser_regions.m_element_number; ++k) {
					string e = f((int)i, k, m_pinfo[i].m_mser_regions.at(k));
					if (!e.empty()) return fmt("patch %d, region %d: ", (int)i, k) + e;
				}
			return "";
		}
		// the regions are exactly the nodes of the reference tree; flags: compare them as well
		string check_nodes(const Img& im, const std::vector<Tnode>& t, int only, int ox, int oy, bool box, bool flags) {
			std::vector<int> own = owner(t, im.h * im.w), seen(t.size(), 0);
			std::map<const mser_region*, int> id;
			auto real = [](mser_region* r) { while (r && r->m_region_flag == mser_region::Flag_Merged) r = r->m_parent; return r; };
			string e = each([&](int pi, int k, mser_region& r) -> string {
				if (only >= 0 && pi != only || r.m_region_flag == mser_region::Flag_Merged) return "";
				if (r.m_head < 0 || r.m_head >= (int)m_linked_point_size) return "the pixel list starts outside the storage";
				linked_point& l = m_linked_points[r.m_head];
				int x = l.m_x - ox, y = l.m_y - oy;
				if (x < 0 || y < 0 || x >= im.w || y >= im.h) return fmt("pixel (%d,%d) outside", l.m_x, l.m_y);
				int q = own[y * im.w + x];
				while (q >= 0 && t[q].gray < (int)r.m_gray_level) q = t[q].parent;
				if (q < 0 || t[q].gray != (int)r.m_gray_level) return fmt("no component of gray %d around pixel (%d,%d)", r.m_gray_level, x, y);
				if (seen[q]++) return fmt("the component of gray %d around pixel (%d,%d) has two regions", r.m_gray_level, x, y);
				id[&r] = q;
				std::vector<int> want, got;
				ref::pixels(t, q, want);
				int at = r.m_head;
				int mx = -1, my = -1, nx = 1 << 20, ny = 1 << 20;
				if (r.m_size < 1 || r.m_size > im.h * im.w) return fmt("size %d, the component has %d pixels", r.m_size, (int)want.size());
				for (int n = 0; n < r.m_size; ++n) {
					if (at < 0 || at >= (int)m_linked_point_size) return "the pixel list ends too early";
					linked_point& c = m_linked_points[at];
					got.push_back((c.m_y - oy) * im.w + c.m_x - ox);
					mx = std::max(mx, (int)c.m_x); nx = std::min(nx, (int)c.m_x); my = std::max(my, (int)c.m_y); ny = std::min(ny, (int)c.m_y);
					if (n && m_linked_points[c.m_prev].m_next != at) return "the pixel list is not linked in both directions";
					if (n + 1 == r.m_size && box && at != r.m_tail) return "the pixel list does not end at its tail";
					at = c.m_next;
				}
				std::sort(got.begin(), got.end());
				if (!std::operator==(got, want)) return fmt("gray %d: ", r.m_gray_level) + fmt("%d pixels ", r.m_size) + hh::show(got) + fmt(" instead of the %d ", (int)want.size()) + hh::show(want);
				if (r.m_left != nx || r.m_right != mx || r.m_top != ny || r.m_bottom != my) return "bounding box";
				if (r.m_patch_index != (unsigned)pi) return "patch number";
				if (flags && (r.m_region_flag == mser_region::Flag_Valid) != (t[q].flag == 2))
					return fmt("gray %d size %d around pixel (%d,%d): %s", r.m_gray_level, r.m_size, x, y, t[q].flag == 2 ? "not accepted" : "accepted");
				return "";
			});
			if (!e.empty()) return e;
			for (size_t k = 0; k < t.size(); ++k) if (!seen[k]) return fmt("the component of gray %d with %d pixels around (%d,%d) has no region", t[k].gray, t[k].size, t[k].own[0] % im.w, t[k].own[0] / im.w);
			for (auto& r : id) {
				mser_region* p = real(r.first->m_parent);
				int want = t[r.second].parent;
				if (want < 0 ? p != NULL : !p || !id.count(p) || id[p] != want) return fmt("parent of the component of gray %d with %d pixels", t[r.second].gray, t[r.second].size);
			}
			return "";
		}
		string check_flood(const Img& im, const Par& p, int mask) {
			for (size_t i = 0; i < m_pinfo.size(); ++i) {
				PI& q = m_pinfo[i];
				Img pt = part(im, {q.m_left, q.m_top, q.m_width, q.m_height});
				std::vector<Tnode> t = tree(pt, mask, p.eight);
				string e = check_nodes(pt, t, (int)i, q.m_left, q.m_top, true, false);
				if (!e.empty()) return e;
				std::vector<int> own = owner(t, pt.h * pt.w);
				for (int k = 0; k < 4; ++k)
					if (q.m_boundary_regions[k])
						for (int n = 0; n < (k < 2 ? pt.h : pt.w); ++n) {
							mser_region* r = q.m_boundary_regions[k][n];
							int px = k == 0 ? n * pt.w : k == 1 ? n * pt.w + pt.w - 1 : k == 2 ? n : (pt.h - 1) * pt.w + n;
							bool in = false;
							for (int z = 0; z < q.m_mser_regions.m_element_number; ++z) in |= r == &q.m_mser_regions.at(z);
							if (!in) return fmt("patch %d border %d pixel %d: not a region of the patch", (int)i, k, n);
							std::vector<int> want, got;
							ref::pixels(t, own[px], want);
							if (r->m_gray_level != (unsigned)t[own[px]].gray || r->m_size != (int)want.size() || !r->m_boundary_region) return fmt("patch %d border %d pixel %d: wrong region", (int)i, k, n);
						}
			}
			return "";
		}
		string check_tree(const Img& im, const std::vector<Tnode>& t, bool flags) { return check_nodes(im, t, -1, 0, 0, false, flags); }
	};

	class P2 : public img_fast_mser_v2 {
	public:
		static const char* name() { return "v2"; }
		typedef img_fast_mser_v2::parallel_info PI;
		void prep(const Par& p, int nt, const Img& im) {
			ref::apply(this, p);
			set_parallel_thread_number(nt);
			m_max_point = (i32)(m_max_point_ratio * im.h * im.w);
		}
		void alloc(const mt_mat& m) { allocate_memory(m, img_mask_info<u8>()); }
		void process(const mt_mat& m, int mask) { for (size_t i = 0; i < m_pinfo.size(); ++i) process_tree_patch(m_pinfo[i], m, img_mask_info<u8>(), (u8)mask); }
		void flood(const mt_mat& m, int mask) { for (size_t i = 0; i < m_pinfo.size(); ++i) make_tree_patch(m_pinfo[i], m, img_mask_info<u8>(), (u8)mask, (u8)i); }
		void build(const mt_mat& m, int mask) { build_tree(m, img_mask_info<u8>(), (u8)mask); }
		void recognize() { recognize_mser(); }
		void clear() { clear_memory_cache(); }
		string check_isolated(const mt_mat& m, int mask) {
			auto sum = [](const void* p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; ++i) h = (h ^ ((const uint8_t*)p)[i]) * 1099511628211ull; return h; };
			auto state = [&](size_t i) {
				PI& q = m_pinfo[i];
				size_t n = (size_t)(q.m_width + 2) * (q.m_height + 2), k = (size_t)q.m_width * q.m_height;
				return sum(q.m_extended_image, n) + sum(q.m_points, n * 4) + sum(q.m_heap, (k + 257) * 8);
			};
			for (size_t i = 0; i < m_pinfo.size(); ++i) {
				std::vector<uint64_t> before;
				for (size_t j = 0; j < m_pinfo.size(); ++j) before.push_back(state(j));
				make_tree_patch(m_pinfo[i], m, img_mask_info<u8>(), (u8)mask, (u8)i);
				for (size_t j = 0; j < m_pinfo.size(); ++j) if (i != j && before[j] != state(j)) return fmt("flooding patch %d writes into the work area of patch %d", (int)i, (int)j);
			}
			return "";
		}
		std::vector<Patch> patches() {
			std::vector<Patch> o;
			for (auto& p : m_pinfo) o.push_back({p.m_left, p.m_top, p.m_width, p.m_height});
			return o;
		}
		string check_alloc(const Img& im, const Par& p, int nt) {
			string e = tiling(patches(), im, nt);
			if (!e.empty()) return e;
			std::vector<std::pair<long, long> > a, b, c;
			for (int i = 0; i < nt; ++i) {
				PI& q = m_pinfo[i];
				long n = (long)(q.m_width + 2) * (q.m_height + 2);
				if (q.m_width_with_boundary != q.m_width + 2 || q.m_height_with_boundary != q.m_height + 2) return fmt("patch %d: size with border", i);
				a.push_back({q.m_extended_image - m_extended_image, n});
				b.push_back({q.m_points - m_points, n});
				c.push_back({q.m_heap - m_heap, (long)q.m_width * q.m_height + 257});
				if (q.m_heap_start[0] != q.m_heap) return fmt("patch %d: the slices do not start at the heap", i);
				e = steps(q.m_dir + 1, p.eight, q.m_width + 2);
				if (!e.empty()) return fmt("patch %d: ", i) + e;
			}
			if (!(e = areas("image", a, m_extended_image_size)).empty()) return e;
			if (!(e = areas("pixel list", b, m_point_size)).empty()) return e;
			if (!(e = areas("heap", c, m_heap_size)).empty()) return e;
			memset(m_extended_image, 0, m_extended_image_size);
			memset(m_points, 0, sizeof(*m_points) * m_point_size);
			memset(m_heap, 0, sizeof(*m_heap) * m_heap_size);
			return "";
		}
		string check_process(const Img& im, int mask) {
			for (size_t i = 0; i < m_pinfo.size(); ++i) {
				PI& q = m_pinfo[i];
				Img pt = part(im, {q.m_left, q.m_top, q.m_width, q.m_height});
				string e = slices(q.m_heap_start, q.m_heap, q.m_level_size, pt, mask);
				if (!e.empty()) return fmt("patch %d: ", (int)i) + e;
				for (int y = -1; y <= pt.h; ++y)
					for (int x = -1; x <= pt.w; ++x) {
						long at = (y + 1) * q.m_width_with_boundary + x + 1;
						u32 v = q.m_points[at];
						if (y < 0 || x < 0 || y >= pt.h || x >= pt.w) {
							if ((v & m_dir_mask) == 0) return fmt("patch %d: the border at (%d,%d) is not marked", (int)i, x, y);
							continue;
						}
						if (v != 0) return fmt("patch %d: pixel (%d,%d) is not open", (int)i, x, y);
						if (q.m_extended_image[at] != pt.d[y * pt.w + x]) return fmt("patch %d: pixel (%d,%d) holds gray %d instead of %d", (int)i, x, y, q.m_extended_image[at], pt.d[y * pt.w + x]);
					}
			}
			return "";
		}
		mser_region* at(int pi, u32 v) {
			auto& m = m_pinfo[pi].m_mser_regions;
			u32 k = v - m_boundary_pixel;
			return k < (u32)m.m_element_number ? &m.at((int)k) : NULL;
		}
		static mser_region* real(mser_region* r) { while (r && r->m_region_flag == mser_region::Flag_Merged) r = r->m_parent; return r; }
		string nodes(const Img& im, const std::vector<Tnode>& t, int only, bool flags) {
			std::map<mser_region*, int> id;
			std::vector<mser_region*> of(t.size(), NULL);
			std::vector<int> own = owner(t, im.h * im.w);
			for (int i = 0; i < (int)m_pinfo.size(); ++i) {
				if (only >= 0 && i != only) continue;
				PI& q = m_pinfo[i];
				int ox = only >= 0 ? 0 : q.m_left, oy = only >= 0 ? 0 : q.m_top;
				for (int y = 0; y < q.m_height; ++y)
					for (int x = 0; x < q.m_width; ++x) {
						mser_region* r = at(i, q.m_points[(y + 1) * q.m_width_with_boundary + x + 1]);
						if (!r) return fmt("pixel (%d,%d) of patch %d has no region", x, y, i);
						r = real(r);
						if (!r) return fmt("pixel (%d,%d) of patch %d: merged into nothing", x, y, i);
						int k = own[(y + oy) * im.w + x + ox];
						if (of[k] && of[k] != r) return fmt("the pixels of the component of gray %d lie in two regions", t[k].gray);
						if (!of[k] && id.count(r)) return fmt("pixel (%d,%d) of patch %d lies in the region of another component", x, y, i);
						of[k] = r;
						id[r] = k;
					}
				for (int k = 0; k < q.m_mser_regions.m_element_number; ++k) {
					mser_region& r = q.m_mser_regions.at(k);
					if (r.m_patch_index != (unsigned)i) return "patch number of a region";
				}
			}
			for (size_t k = 0; k < t.size(); ++k) {
				mser_region* r = of[k];
				if ((int)r->m_gray_level != t[k].gray) return fmt("gray level %d of the component of gray %d", r->m_gray_level, t[k].gray);
				if (r->m_size != t[k].size) return fmt("size %d of the component of gray %d with %d pixels", r->m_size, t[k].gray, t[k].size);
				mser_region* p = real(r->m_parent);
				if (t[k].parent < 0 ? p != NULL : p != of[t[k].parent]) return fmt("parent of the component of gray %d with %d pixels", t[k].gray, t[k].size);
				if (flags && (r->m_region_flag == mser_region::Flag_Valid) != (t[k].flag == 2))
					return fmt("gray %d size %d around pixel (%d,%d): %s", t[k].gray, t[k].size, t[k].own[0] % im.w, t[k].own[0] / im.w, t[k].flag == 2 ? "not accepted" : "accepted");
			}
			for (int i = 0; i < (int)m_pinfo.size(); ++i)
				if (only < 0 || i == only)
					for (int k = 0; k < m_pinfo[i].m_mser_regions.m_element_number; ++k) {
						mser_region& r = m_pinfo[i].m_mser_regions.at(k);
						if (r.m_region_flag != mser_region::Flag_Merged && !id.count(&r)) return fmt("region %d of patch %d (gray %d, size %d) has no pixels", k, i, r.m_gray_level, r.m_size);
					}
			return "";
		}
		string check_flood(const Img& im, const Par& p, int mask) {
			for (size_t i = 0; i < m_pinfo.size(); ++i) {
				PI& q = m_pinfo[i];
				Img pt = part(im, {q.m_left, q.m_top, q.m_width, q.m_height});
				string e = nodes(pt, tree(pt, mask, p.eight), (int)i, false);
				if (!e.empty()) return fmt("patch %d: ", (int)i) + e;
			}
			return "";
		}
		string check_tree(const Img& im, const std::vector<Tnode>& t, bool flags) { return nodes(im, t, -1, flags); }
	};

	template<class P> static bool supported(int nt) { return std::string(P::name()) == "v1" || nt == 1 || nt == 4 || nt == 32; }
	static const int threads[] = {1, 2, 4, 8, 16, 32};
}
