// What a matrix or a view of it denotes: for every element (row by row) and channel the byte of the storage it lives at.
#pragma once
#include "stdafx.h"
#include "h.h"
using std::string;
using std::vector;
using namespace hh;
#include "mt_mat.h"
#include "mt_mat_helper.h"
#include "mt_mat_cache.h"
using namespace basicsys;
using namespace basicmath;

namespace mm {
	typedef vector<int> Co;
	struct Model {
		Co size;
		int ch, ds;
		vector<long> addr;	// element-channel -> offset in the storage
		long n() const { long r = 1; for (int s : size) r *= s; return r; }
		long lin(const Co& c) const { long r = 0; for (size_t i = 0; i < size.size(); ++i) r = r * size[i] + c[i]; return r; }
		Co at(long k) const { Co c(size.size()); for (int i = (int)size.size() - 1; i >= 0; --i) { c[i] = (int)(k % size[i]); k /= size[i]; } return c; }
		long operator()(const Co& c, int k) const { return addr[lin(c) * ch + k]; }
	};
	static Model dense(const Co& size, int ch, int ds) {
		Model m;
		m.size = size; m.ch = ch; m.ds = ds;
		long n = m.n() * ch;
		for (long i = 0; i < n; ++i) m.addr.push_back(i * ds);
		return m;
	}
	// f turns coordinates and channel of the new one into those of the old one
	static Model map(const Model& a, const Co& size, int ch, std::function<void(Co&, int&)> f) {
		Model m;
		m.size = size; m.ch = ch; m.ds = a.ds;
		for (long k = 0, n = m.n(); k < n; ++k)
			for (int c = 0; c < ch; ++c) {
				Co co = m.at(k);
				int cc = c;
				f(co, cc);
				m.addr.push_back(a(co, cc));
			}
		return m;
	}
	static Model sub(const Model& a, const Co& lo, const Co& hi) {
		Co s;
		for (size_t i = 0; i < lo.size(); ++i) s.push_back(hi[i] - lo[i]);
		return map(a, s, a.ch, [&](Co& c, int&) { for (size_t i = 0; i < c.size(); ++i) c[i] += lo[i]; });
	}
	static Model swapped(const Model& a, int x, int y) {
		Co s = a.size;
		std::swap(s[x], s[y]);
		return map(a, s, a.ch, [&](Co& c, int&) { std::swap(c[x], c[y]); });
	}
	static Model flipped(const Model& a, const Co& which) {
		return map(a, a.size, a.ch, [&](Co& c, int&) { for (int d : which) c[d] = a.size[d] - 1 - c[d]; });
	}
	static Model channels(const Model& a, int lo, int hi) { return map(a, a.size, hi - lo, [&](Co&, int& k) { k += lo; }); }
	static Model reshaped(const Model& a, const Co& s, int ch) {
		Model m;
		m.size = s; m.ch = ch; m.ds = a.ds; m.addr = a.addr;
		return m;
	}
	static Model split(const Model& a, int d, const Co& parts) {
		Co s(a.size.begin(), a.size.begin() + d);
		s.insert(s.end(), parts.begin(), parts.end());
		s.insert(s.end(), a.size.begin() + d + 1, a.size.end());
		return reshaped(a, s, a.ch);
	}
	static Model combined(const Model& a, int d, int n) {
		Co s(a.size.begin(), a.size.begin() + d);
		int p = 1;
		for (int i = 0; i < n; ++i) p *= a.size[d + i];
		s.push_back(p);
		s.insert(s.end(), a.size.begin() + d + n, a.size.end());
		return reshaped(a, s, a.ch);
	}
	static Model channel_dim(const Model& a) { Co s = a.size; s.push_back(a.ch); return reshaped(a, s, 1); }
	static Model dim_channel(const Model& a) { Co s = a.size; int c = s.back(); s.pop_back(); return reshaped(a, s, c); }
	// do the two lists of addresses step regularly enough to be one strided matrix?
	static string text(const Model& a) { return show(a.size) + fmt("x%dch", a.ch); }

	static string compare(const mt_mat& m, const Model& o, const u8* base) {
		if (m.dim() != (int)o.size.size()) return fmt("%d dimensions instead of %d", m.dim(), (int)o.size.size());
		for (int i = 0; i < m.dim(); ++i) if (m.size()[i] != o.size[i]) return fmt("size %d instead of %d in dimension %d", m.size()[i], o.size[i], i);
		if (m.channel() != o.ch) return fmt("%d channels instead of %d", m.channel(), o.ch);
		if (m.element_channel_size() != o.ds || m.element_size() != o.ds * o.ch) return "size of an element";
		if (m.element_number() != o.n() || m.memory_size() != o.n() * o.ds * o.ch || m.channel_memory_size() != o.n() * o.ds) return "number of elements or bytes";
		for (long k = 0, n = o.n(); k < n; ++k) {
			Co co = o.at(k);
			for (int c = 0; c < o.ch; ++c) {
				long want = o.addr[k * o.ch + c];
				long got = m.ptr<u8>((int)co.size(), &co[0], c) - base;
				if (got != want) return fmt("element %s channel %d at byte %ld instead of %ld", show(co).c_str(), c, got, want);
				if (m.ptr<u8>(co, c) - base != want) return "ptr(vector) " + show(co);
				const u8* p = co.size() == 1 ? m.ptr<u8>(co[0], c) : co.size() == 2 ? m.ptr<u8>(co[0], co[1], c) : co.size() == 3 ? m.ptr<u8>(co[0], co[1], co[2], c) : m.ptr<u8>(co, c);
				if (p - base != want) return "ptr(coordinates) " + show(co);
				mt_mat& w = const_cast<mt_mat&>(m);
				p = co.size() == 1 ? w.ptr<u8>(co[0], c) : co.size() == 2 ? w.ptr<u8>(co[0], co[1], c) : co.size() == 3 ? w.ptr<u8>(co[0], co[1], co[2], c) : w.ptr<u8>(co, c);
				if (p - base != want || w.ptr<u8>((int)co.size(), &co[0], c) != p) return "writable ptr(coordinates) " + show(co);
			}
			if (!m.is_valid_index((int)co.size(), &co[0])) return "index " + show(co) + " is called invalid";
			for (size_t d = 0; d < co.size(); ++d) {
				Co x = co;
				x[d] = o.size[d] + (int)(k % 3);
				if (m.is_valid_index(x)) return "index " + show(x) + " is called valid";
				x[d] = -1 - (int)(k % 2);
				if (m.is_valid_index(x)) return "index " + show(x) + " is called valid";
			}
		}
		return "";
	}
	static const mt_Depth depths[] = {mt_U8, mt_I8, mt_U16, mt_I16, mt_U32, mt_I32, mt_U64, mt_I64, mt_F32, mt_F64};
	static const int depth_size[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
	static Co shape(int dims, int limit) {
		Co s;
		for (int i = 0; i < dims; ++i) s.push_back((int)rnd(1, dims <= 2 ? 9 : dims <= 4 ? 5 : 3));
		if (rnd(0, 3) == 0) s[rnd(0, dims - 1)] = 1;
		long p = 1;
		for (int& x : s) { while (p * x > limit && x > 1) --x; p *= x; }
		return s;
	}
}
