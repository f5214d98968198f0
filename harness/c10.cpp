#include "mat_model.h"
using namespace mm;

struct H { mt_mat* m; int id; };
static vector<H> hs;
static std::map<int, vector<u8> > content;	// storage -> pattern of its first byte per owner
static int ids = 0;
static std::map<int, const u8*> where;
static std::map<int, long> bytes;

static int users(int id) { int n = 0; for (H& h : hs) n += h.id == id; return n; }
static void put(H& h) {
	h.id = ids++;
	where[h.id] = ((const mt_mat*)h.m)->data();
	bytes[h.id] = h.m->memory_size();
	memset(h.m->data(), (h.id * 37 + 5) & 255, h.m->memory_size());
}
static mt_mat fresh() {
	Co s = shape((int)rnd(1, 6), 60);
	return mt_mat(s, mt_Depth_Channel(depths[rnd(0, 9)], (int)rnd(1, 3)));
}
static mt_mat view(const mt_mat& m) {
	int D = m.dim(), d = (int)rnd(0, D - 1);
	switch (rnd(0, 13)) {
	case 0: return m.sub(0, (int)rnd(1, m.size()[d]), d);
	case 1: return m.flip(d);
	case 2: return m.swap_dim(d, 0);
	case 3: return m.channel_at((int)rnd(0, m.channel() - 1));
	case 4: return m.is_continuous() ? m.reshape(1, vector<int>(1, m.element_number()).data()) : m.index(0, d);
	case 5: return D < 7 ? m.increase_dim(d) : m;
	case 6: return D < 7 ? m.channel_as_last_dim() : m;
	case 7: return m.back(1, d);
	case 8: { vector<mt_range> r; for (int i = 0; i < D; ++i) r.push_back(mt_range(0, m.size()[i])); return mt_mat(m, r); }
	case 9: return mt_mat(m, mt_range(0, 1), d);
	case 10: return m.combine_dim(0, 1);
	case 11: { int one[] = {m.size()[d]}; return m.split_dim(d, 1, one); }
	case 12: if (D < 7) { int two[] = {1, m.size()[d]}; return m.split_dim(d, 2, two); } break;
	}
	return m;
}
static string verify(bool exact) {
	for (H& h : hs) {
		if (h.id < 0) { if (h.m->reference_number() != 0 || h.m->dim() != 0) return "an empty matrix refers to storage"; continue; }
		if (exact && h.m->reference_number() != users(h.id)) return fmt("reference number %d for %d users", h.m->reference_number(), users(h.id));
		const mt_mat& m = *h.m;
		Co c(m.dim());
		for (int k = 0; k < 3; ++k) {
			for (int i = 0; i < m.dim(); ++i) c[i] = (int)rnd(0, m.size()[i] - 1);
			const u8* p = m.ptr<u8>(c, m.channel() - 1);
			if (p < where[h.id] || p + m.element_channel_size() > where[h.id] + bytes[h.id]) return "an element lies outside its storage";
			for (int b = 0; b < m.element_channel_size(); ++b) if (p[b] != ((h.id * 37 + 5) & 255)) return "storage in use was given to someone else";
		}
		for (H& g : hs) if (g.id >= 0 && h.m->is_memory_shared(*g.m) != (g.id == h.id)) return "is_memory_shared";
	}
	return "";
}
static void add(const mt_mat& m, int id) { H h = {new mt_mat(m), id}; hs.push_back(h); }
static void story(bool cache) {
	string log;
	hs.clear();
	for (int k = 0; k < 40; ++k) {
		int op = (int)rnd(0, 12);
		int a = hs.empty() ? -1 : (int)rnd(0, (int)hs.size() - 1), b = hs.empty() ? -1 : (int)rnd(0, (int)hs.size() - 1);
		if (a < 0) op = 0;
		if (op <= 1) {
			H h = {new mt_mat(fresh()), -1};
			put(h);
			hs.push_back(h);
			log += " new";
		} else if (op == 2) {
			log += fmt(" view(%d)", a);
			if (hs[a].id < 0) continue;
			add(view(*hs[a].m), hs[a].id);
		} else if (op == 3) { add(*hs[a].m, hs[a].id); log += fmt(" copy(%d)", a);
		} else if (op == 4) { *hs[a].m = *hs[b].m; hs[a].id = hs[b].id; log += fmt(" %d=%d", a, b);
		} else if (op == 5) { mt_mat& x = *hs[a].m; int D = x.dim(); vector<int> s(x.size(), x.size() + D), st(x.step(), x.step() + D); const u8* d = ((const mt_mat&)x).data();
			x = x;
			check(x.dim() == D && std::equal(s.begin(), s.end(), x.size()) && std::equal(st.begin(), st.end(), x.step()) && ((const mt_mat&)x).data() == d, "assigning a matrix to itself changed it");
			log += fmt(" self(%d)", a);
		} else if (op == 6) { if (hs[a].id < 0) continue; *hs[a].m = view(*hs[a].m); log += fmt(" %d=view", a);
		} else if (op == 7) { if (hs[b].id < 0) continue; *hs[a].m = view(*hs[b].m); hs[a].id = hs[b].id; log += fmt(" %d=view(%d)", a, b);
		} else if (op == 8) { delete hs[a].m; hs.erase(hs.begin() + a); log += fmt(" delete(%d)", a);
		} else if (op == 9) { *hs[a].m = mt_mat(); hs[a].id = -1; log += fmt(" clear(%d)", a);
		} else if (op == 10) {
			Co s = shape((int)rnd(1, 6), 60);
			mt_Depth_Channel dc(depths[rnd(0, 9)], (int)rnd(1, 3));
			mt_mat& x = *hs[a].m;
			bool same = x.dim() == (int)s.size() && std::equal(s.begin(), s.end(), x.size()) && x.depth_channel() == dc;
			log += fmt(" create(%d)", a);
			if (same) continue;
			x.create((int)s.size(), &s[0], dc);
			put(hs[a]);
		} else if (op == 11) {
			if (hs[a].id < 0) continue;
			mt_mat c = hs[a].m->clone();
			check(!c.is_memory_shared(*hs[a].m), "a clone shares storage");
			H h = {new mt_mat(c), -1};
			c = mt_mat();
			put(h);
			hs.push_back(h);
			log += fmt(" clone(%d)", a);
		} else {
			// in containers
			vector<mt_mat> v;
			vector<int> w;
			for (int i = 0; i < 3; ++i) { int j = (int)rnd(0, (int)hs.size() - 1); v.push_back(*hs[j].m); w.push_back(hs[j].id); }
			v.erase(v.begin());
			add(v[0], w[1]);
			log += " vector";
		}
		begin(cache ? "with_cache" : "plain", log);
		string r = verify(!cache);
		check(r.empty(), r);
		if (!r.empty()) break;
	}
	while (!hs.empty()) {
		int a = (int)rnd(0, (int)hs.size() - 1);
		delete hs[a].m;
		hs.erase(hs.begin() + a);
		string r = verify(!cache);
		check(r.empty(), "when destroyed: " + r);
		if (!r.empty()) break;
	}
}
void run() {
	for (int t = 0; t < N(300, 6000); ++t) story(false);
	for (int t = 0; t < N(100, 2000); ++t) { mt_auto_mat_cache use; story(true); }
	// storage handed over by the caller
	for (int t = 0; t < N(50, 500); ++t) {
		Co s = shape((int)rnd(1, 5), 60);
		long n = 1;
		for (int x : s) n *= x;
		begin("given", show(s));
		u8* p = (u8*)malloc(n * 4);
		memset(p, 9, n * 4);
		mt_mat* m = s.size() == 1 ? new mt_mat(s[0], mt_F32C1, p, NULL, p) : s.size() == 2 ? new mt_mat(s[0], s[1], mt_F32C1, p, NULL, p) : s.size() == 3 ? new mt_mat(s[0], s[1], s[2], mt_F32C1, p, NULL, p) : new mt_mat(s, mt_F32C1, p, vector<i32>(), p);
		check(m->reference_number() == 1, "the block is owned by the matrix");
		mt_mat v = m->index(0, 0);
		delete m;
		check(*v.ptr<u8>(Co(s.size(), 0), 0) == 9 && v.reference_number() == 1, "the view keeps the block");
		vector<u8> own(n * 4);
		mt_mat w(s, mt_F32C1, &own[0], vector<i32>());
		mt_mat w2 = w;
		check(w.reference_number() == 0, "a block of the caller is not owned");
	}
}
HARNESS_MAIN
