#include "stdafx.h"
#include "sys_buffer.h"
#include "h.h"
#include <unistd.h>
using namespace hh;
using basicsys::sys_File_Seek_Set;
using basicsys::sys_File_Seek_Cur;
using basicsys::sys_File_Seek_End;
using basicsys::sys_IO_Status_OK;
using basicsys::sys_IO_Status_Error_Eof;

typedef std::vector<basicsys::u8> Bytes;
// one written value: kind and its bytes
struct Item { int kind; Bytes b; };
static Bytes raw(const void* p, size_t n) { return Bytes((const basicsys::u8*)p, (const basicsys::u8*)p + n); }
static basicsys::u64 any() { basicsys::u64 v = 0; for (int i = 0; i < 8; ++i) v = v << 8 | (rnd(0, 3) ? rnd(0, 255) : (rnd(0, 1) ? 0 : 255)); return v; }
static std::string text(int n) { std::string s; for (int i = 0; i < n; ++i) s += (char)(rnd(0, 5) ? rnd(1, 127) : 0); return s; }

template<class W> static Item write(W& w) {
	Item it; it.kind = (int)rnd(0, 13);
	basicsys::u64 v = any();
	basicsys::b8 b = rnd(0, 1) ? sys_true : sys_false; basicsys::f32 f; basicsys::f64 d;
	std::memcpy(&f, &v, 4); std::memcpy(&d, &v, 8);
	basicsys::sys_byte_buffer_writer& x = w;
	switch (it.kind) {
	case 0: it.b = raw(&b, sizeof b); x.write(b); break;
	case 1: { basicsys::i8 y = (basicsys::i8)v; it.b = raw(&y, 1); x.write(y); break; }
	case 2: { basicsys::u8 y = (basicsys::u8)v; it.b = raw(&y, 1); x.write(y); break; }
	case 3: { basicsys::u16 y = (basicsys::u16)v; it.b = raw(&y, 2); x.write(y); break; }
	case 4: { basicsys::i16 y = (basicsys::i16)v; it.b = raw(&y, 2); x.write(y); break; }
	case 5: { basicsys::u32 y = (basicsys::u32)v; it.b = raw(&y, 4); x.write(y); break; }
	case 6: { basicsys::i32 y = (basicsys::i32)v; it.b = raw(&y, 4); x.write(y); break; }
	case 7: { basicsys::u64 y = v; it.b = raw(&y, 8); x.write(y); break; }
	case 8: { basicsys::i64 y = (basicsys::i64)v; it.b = raw(&y, 8); x.write(y); break; }
	case 9: it.b = raw(&f, 4); x.write(f); break;
	case 10: it.b = raw(&d, 8); x.write(d); break;
	case 11: { std::string s = text((int)rnd(0, 20)); it.b = raw(s.data(), s.size()); x.write(s); break; }
	case 12: { std::string s = text((int)rnd(0, 20)); it.b = raw(s.data(), s.size()); x.write(it.b); break; }
	default: { std::string s = text((int)rnd(0, 20)); it.b = raw(s.data(), s.size()); const basicsys::u8* p = it.b.data(); x.write(p, p + it.b.size()); }
	}
	return it;
}
static Bytes read(const basicsys::sys_byte_buffer_reader& r, int kind, int n) {
	switch (kind) {
	case 0: { basicsys::b8 v = r.read_b8(); return raw(&v, sizeof v); }
	case 1: { basicsys::i8 v = r.read_c8(); return raw(&v, 1); }
	case 2: { basicsys::u8 v = r.read_u8(); return raw(&v, 1); }
	case 3: { basicsys::u16 v = r.read_u16(); return raw(&v, 2); }
	case 4: { basicsys::i16 v = r.read_i16(); return raw(&v, 2); }
	case 5: { basicsys::u32 v = r.read_u32(); return raw(&v, 4); }
	case 6: { basicsys::i32 v = r.read_i32(); return raw(&v, 4); }
	case 7: { basicsys::u64 v = r.read_u64(); return raw(&v, 8); }
	case 8: { basicsys::i64 v = r.read_i64(); return raw(&v, 8); }
	case 9: { basicsys::f32 v = r.read_f32(); return raw(&v, 4); }
	case 10: { basicsys::f64 v = r.read_f64(); return raw(&v, 8); }
	case 11: { std::string s = r.read_str(n); return raw(s.data(), s.size()); }
	case 12: { Bytes v; if (n) r.read(v, n); return v; }
	}
	Bytes v(n + 1, 7);
	r.read(v.data(), n);
	check(v[n] == 7, "read one byte too many");
	v.pop_back();
	return v;
}
static void back(const basicsys::sys_byte_buffer_reader& r, const std::vector<Item>& items, const Bytes& all) {
	size_t at = 0;
	check(r.size() == (basicsys::i64)all.size(), fmt("size %lld of %d bytes", (long long)r.size(), (int)all.size()));
	for (size_t i = 0; i < items.size(); ++i) {
		check(r.position() == (basicsys::i64)at && r.remain_size() == (basicsys::i64)(all.size() - at) && (bool)r.is_eof() == (at == all.size()), "position and end");
		Bytes b = read(r, items[i].kind, (int)items[i].b.size());
		check(b == items[i].b, fmt("value %d of kind %d is read back differently", (int)i, items[i].kind));
		at += items[i].b.size();
	}
	check(r.is_eof() && r.remain_size() == 0 && r.get_status() == sys_IO_Status_OK, "end not reported");
}
static void memory_values() {
	begin("values", "");
	Bytes buf, all;
	basicsys::sys_byte_buffer_writer w(&buf);
	std::vector<Item> items;
	for (int k = (int)rnd(0, 12); k > 0; --k) {
		items.push_back(write(w));
		all.insert(all.end(), items.back().b.begin(), items.back().b.end());
		check(buf == all && w.position() == (basicsys::i64)all.size(), fmt("after a value of kind %d", items.back().kind));
	}
	basicsys::sys_byte_buffer_reader r(buf.data(), buf.data() + buf.size());
	back(r, items, all);
	// one byte too many changes nothing but the status
	Bytes x(all.size() + 2, 9);
	r.seek(0, sys_File_Seek_Set);
	r.read(x.data(), (basicsys::i32)all.size() + 1);
	check(r.get_status() == sys_IO_Status_Error_Eof && r.position() == 0 && x == Bytes(all.size() + 2, 9), "read behind the end");
}
static void memory_seek() {
	begin("seeks", "");
	Bytes buf, all;
	basicsys::sys_byte_buffer_writer w(&buf);
	basicsys::i64 p = 0;
	for (int k = 0; k < 12; ++k) {
		int o;
		switch (rnd(0, 3)) {
		case 0: o = (int)rnd(0, all.size() + 5); check(w.seek(o, sys_File_Seek_Set) == &w, "result of seek"); p = o; break;
		case 1: o = (int)rnd(0, 9) - (int)std::min<basicsys::i64>(p, 4); w.seek(o, sys_File_Seek_Cur); p += o; break;
		case 2: o = (int)rnd(0, all.size()); w.seek(o, sys_File_Seek_End); p = (basicsys::i64)all.size() - o; break;
		default: {
			Item it = write(w);
			// writing nothing behind the end may fill the buffer up to the position or leave it
			if (it.b.empty()) { if (p > (basicsys::i64)all.size() && (basicsys::i64)buf.size() == p) all.resize(p, 0); }
			else if (p + it.b.size() > all.size()) all.resize(p + it.b.size(), 0);
			if (!it.b.empty()) std::copy(it.b.begin(), it.b.end(), all.begin() + p);
			p += it.b.size();
		} }
		check(w.position() == p, fmt("position %lld instead of %lld", (long long)w.position(), (long long)p));
		check(buf == all, "content after a seek");
	}
	basicsys::sys_byte_buffer_reader r(buf.data(), buf.data() + buf.size());
	for (int k = 0; k < 6; ++k) {
		int n = (int)rnd(0, all.size()), o = (int)rnd(0, n), t = (int)rnd(0, 2);
		if (t == 0) r.seek(o, sys_File_Seek_Set);
		else if (t == 1) { basicsys::i64 q = r.position(); r.seek(o - q, sys_File_Seek_Cur); }
		else r.seek((basicsys::i64)all.size() - o, sys_File_Seek_End);
		Bytes x(n - o + 1);
		r.read(x.data(), n - o);
		x.pop_back();
		check(x == Bytes(all.begin() + o, all.begin() + n) && r.position() == n, "read after a seek");
	}
}
static void strings() {
	begin("strings", "");
	std::string buf, all;
	basicsys::sys_string_buffer_writer w(&buf);
	basicsys::i64 p = 0;
	std::vector<int> cuts;
	for (int k = (int)rnd(1, 8); k > 0; --k) {
		if (!rnd(0, 3)) {
			basicsys::i64 q = (basicsys::i64)rnd(0, all.size()); int t = (int)rnd(0, 2);
			if (t == 0) w.seek(q, sys_File_Seek_Set); else if (t == 1) w.seek(q - p, sys_File_Seek_Cur); else w.seek((basicsys::i64)all.size() - q, sys_File_Seek_End);
			p = q;
		}
		std::string s = text((int)rnd(0, 9));
		if (rnd(0, 2)) ((basicsys::sys_buffer_writer&)w).write(s);
		else { long v = (long)rnd(0, 100000) - 50000; ((basicsys::sys_buffer_writer&)w).write((basicsys::i32)v); s = fmt("%ld", v); }
		all.replace(p, s.size(), s);
		p += s.size();
		check(buf == all && w.position() == p, "after writing a string");
	}
	basicsys::sys_string_buffer_reader r(buf);
	size_t at = 0;
	while (at < all.size()) {
		check(!r.is_eof() && r.position() == (basicsys::i64)at, "position");
		int n = (int)rnd(0, std::min<size_t>(4, all.size() - at));
		if (n == 1) check(r.read_char() == all[at], "character"); else check(r.read_str(n) == all.substr(at, n), "string");
		at += n;
		if (n == 0 && rnd(0, 1)) { check(r.read_char() == all[at], "character"); ++at; }
	}
	check(r.is_eof() && r.get_status() == sys_IO_Status_OK, "end");
	for (int k = 0; k < 3; ++k) {
		basicsys::i64 q = (basicsys::i64)rnd(0, all.size()), e = (basicsys::i64)rnd(q, all.size()); int t = (int)rnd(0, 2);
		if (t == 0) r.seek(q, sys_File_Seek_Set); else if (t == 1) r.seek(q - r.position(), sys_File_Seek_Cur); else r.seek((basicsys::i64)all.size() - q, sys_File_Seek_End);
		check(r.read_str((int)(e - q)) == all.substr(q, e - q) && r.position() == e, "string after a seek");
	}
	r.seek((basicsys::i64)all.size(), sys_File_Seek_Set);
	std::string keep = "x";
	r.read_str(keep, 1);
	check(keep == "x" && r.get_status() == sys_IO_Status_Error_Eof, "read behind the end");
	// lines
	std::vector<std::string> ls;
	std::string joined;
	for (int k = (int)rnd(1, 5); k > 0; --k) { std::string s; for (int n = (int)rnd(0, 6); n > 0; --n) s += (char)rnd('a', 'z'); ls.push_back(s); joined += s + "\n"; }
	bool last = rnd(0, 1) && !ls.back().empty();
	if (last) joined.erase(joined.size() - 1);
	basicsys::sys_string_buffer_reader q(joined);
	for (size_t i = 0; i < ls.size(); ++i) check(q.read_line() == ls[i], fmt("line %d", (int)i));
	check(q.is_eof(), "end after the lines");
}
static void files() {
	begin("files", "");
	std::string f = "buffer.tmp";
	std::vector<Item> items;
	Bytes all;
	for (int part = 0; part < 2; ++part) {
		basicsys::sys_byte_file_buffer_writer w(f, part ? sys_true : sys_false);
		for (int k = (int)rnd(0, 8); k > 0; --k) { items.push_back(write(w)); all.insert(all.end(), items.back().b.begin(), items.back().b.end()); }
		check(w.get_status() == sys_IO_Status_OK && w.sys_buffer_writer::get_status() == sys_IO_Status_OK, "status after writing");
	}
	{
		basicsys::sys_byte_file_buffer_reader r(f);
		back(r, items, all);
		for (int k = 0; k < 3; ++k) {
			basicsys::i64 q = (basicsys::i64)rnd(0, all.size()), e = (basicsys::i64)rnd(q, all.size());
			if (rnd(0, 1)) r.seek(q, sys_File_Seek_Set); else r.seek(q - r.position(), sys_File_Seek_Cur);
			Bytes y(e - q + 1, 9);
			r.basicsys::sys_byte_file_buffer_reader::read(y.data(), (basicsys::i32)(e - q));
			check(y.back() == 9 && std::equal(y.begin(), y.end() - 1, all.begin() + q) && r.position() == e && r.get_status() == sys_IO_Status_OK, "file after a seek");
		}
		r.seek(0, sys_File_Seek_Set);
		Bytes x(all.size() + 2, 9);
		r.basicsys::sys_byte_file_buffer_reader::read(x.data(), (basicsys::i32)all.size() + 1);
		check(r.get_status() == sys_IO_Status_Error_Eof && r.position() == 0 && x == Bytes(all.size() + 2, 9), "read behind the end of a file");
	}
	if (!all.empty()) {
		// a write in the middle of a file replaces just its bytes
		basicsys::i64 q = (basicsys::i64)rnd(0, all.size());
		{
			basicsys::sys_byte_file_buffer_writer w(f);
			((basicsys::sys_byte_buffer_writer&)w).write(all);
			w.seek(q, sys_File_Seek_Set);
			check(w.position() == q, "position in a file");
			Item it = write(w);
			if (q + it.b.size() > all.size()) all.resize(q + it.b.size());
			std::copy(it.b.begin(), it.b.end(), all.begin() + q);
		}
		basicsys::sys_byte_file_buffer_reader r(f);
		Bytes y(all.size());
		if (!y.empty()) r.basicsys::sys_byte_buffer_reader::read(y, (basicsys::i32)y.size());
		check(y == all && r.is_eof(), "file written in the middle");
	}
	std::string s = text((int)rnd(0, 30)), t = text((int)rnd(0, 30));
	{ basicsys::sys_string_file_buffer_writer w(f); ((basicsys::sys_buffer_writer&)w).write(s); ((basicsys::sys_buffer_writer&)w).write(t); }
	{ basicsys::sys_string_file_buffer_writer w(f, sys_true); ((basicsys::sys_buffer_writer&)w).write(s); }
	std::string whole = s + t + s;
	basicsys::sys_string_file_buffer_reader r(f);
	const basicsys::sys_string_buffer_reader& b = r;
	size_t at = 0;
	while (at < whole.size()) {
		int n = (int)rnd(1, std::min<size_t>(7, whole.size() - at));
		if (n == 1) check(b.read_char() == whole[at], "character of a file"); else check(b.read_str(n) == whole.substr(at, n), "string of a file");
		at += n;
	}
	check(r.is_eof() && r.get_status() == sys_IO_Status_OK, "end of a file");
	r.close();
	unlink(f.c_str());
}
void run() {
	int n = N(20000, 150000);
	for (int i = 0; i < n && !failed_often("values") && !failed_often("seeks") && !failed_often("strings") && !failed_often("files"); ++i) { memory_values(); memory_seek(); strings(); if (i % 4 == 0) files(); }
	for (int i = 0; i < 600; ++i) {
		// no file descriptors are kept
		begin("descriptors", "");
		{ basicsys::sys_byte_file_buffer_writer w("fd.tmp"); }
		basicsys::sys_byte_file_buffer_reader r("fd.tmp");
		basicsys::sys_string_file_buffer_reader q("fd.tmp");
		check(!r.is_closed() && !q.is_closed(), "open files");
		if (i == 599) unlink("fd.tmp");
	}
}
HARNESS_MAIN
