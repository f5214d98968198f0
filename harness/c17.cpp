#include "stdafx.h"
#include "h.h"
using namespace hh;
using namespace basicmath;
static const int SZ[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
static const char* NM[] = {"mt_U8", "mt_I8", "mt_U16", "mt_I16", "mt_U32", "mt_I32", "mt_U64", "mt_I64", "mt_F32", "mt_F64", "mt_User"};
static void one(int d, int c) {
	begin("code", fmt("depth %d channels %d", d, c));
	mt_Depth_Channel t((mt_Depth)d, c);
	check(t.depth() == d && t.channel() == c, fmt("gives back depth %d channels %d", (int)t.depth(), t.channel()));
	if (d < 10) check(t.depth_size() == SZ[d] && t.size() == SZ[d] * c, fmt("sizes %d %d", t.depth_size(), t.size()));
	mt_Depth_Channel u = t;
	check(u == t && !(u != t), "a copy differs");
	for (int k = 0; k < 6; ++k) {
		int d2 = k < 3 ? d : (int)rnd(0, 10), c2 = k % 2 ? c : (int)rnd(1, 32768);
		if (k == 4) { d2 = d; c2 = c ^ 256; if (c2 < 1 || c2 > 32768) continue; }
		mt_Depth_Channel o((mt_Depth)d2, c2);
		bool same = d == d2 && c == c2;
		check((o == t) == same && (o != t) == !same, fmt("compared with depth %d channels %d", d2, c2));
	}
	if (c < 40 || c % 101 == 0 || c > 32760) {
		begin("text", fmt("depth %d channels %d", d, c));
		check(mt_Depth_Channel::depth_str((mt_Depth)d) == NM[d], "name " + mt_Depth_Channel::depth_str((mt_Depth)d));
		check(mt_Depth_Channel::depth_i32(NM[d]) == d, "depth of the name");
		string s = mt_Depth_Channel::depth_channel_str(t);
		check(s == string(NM[d]) + fmt("C%d", c), "text " + s);
		check(mt_Depth_Channel::depth_channel_i32(s) == t, "text does not give the type back");
	}
}
void run() {
	for (int d = 0; d <= 10; ++d)
		for (int c = 1; c <= 32768; c += (c < 300 || c > 32700 || g_thorough) ? 1 : 7) one(d, c);
#define T4(n, i) begin("named", #n); { const mt_Depth_Channel* t[] = {&mt_##n##C1, &mt_##n##C2, &mt_##n##C3, &mt_##n##C4}; for (int c = 0; c < 4; ++c) check(t[c]->depth() == i && t[c]->channel() == c + 1, "named type is another type"); }
	T4(U8, 0) T4(I8, 1) T4(U16, 2) T4(I16, 3) T4(U32, 4) T4(I32, 5) T4(U64, 6) T4(I64, 7) T4(F32, 8) T4(F64, 9)
	begin("default", "");
	mt_Depth_Channel n;
	for (int d = 0; d <= 10; ++d) check(n != mt_Depth_Channel((mt_Depth)d, 1), "an unset type equals a type");
}
HARNESS_MAIN
