#include <iostream>
#include <sstream>
#include <thread>
#include <string>
#include <vector>
#include <list>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <dirent.h>
#include "basiclog.h"
#include <basicsys.h>
#include "h.h"
using namespace hh;
using namespace basiclog;
typedef std::string Str;
static const Str HERE = Str(__FILE__).substr(Str(__FILE__).find_last_of("/") + 1);
static const char* const LEVEL[4] = {"debug", "info", "warning", "error"};

// keeps what reaches the sink
class keeper : public log_logger {
public:
	keeper() : log_logger("%S") {}
	Str all;
	std::vector<Str> pieces;
protected:
	virtual void print(const Str& s) {
		pieces.push_back(s);
		all += s;
		if (hh::rnd(0, 3) == 0 && s.size() % 3 == 0) std::this_thread::yield();
	}
};
static Str text(int n) {
	Str s;
	for (int i = 0; i < n; ++i) s += (char)(rnd(0, 9) ? 'a' + rnd(0, 25) : rnd(0, 1) ? '%' : 0xc0 + rnd(0, 40));
	return s;
}
static Str tail_of(const Str& tag, const Str& msg, int line, const Str& file) {
	Str m = msg;
	if (tag == "performance") m += " If you don't want to see performance warning, you can add_filter 'basiclog_performance_warning'!";
	return fmt(" <%s> in line %d of <%s>, ", tag.c_str(), line, file.c_str()) + m + "\n";
}
// all = records one after the other; -> "" or what is wrong
static Str follow(const Str& all, const std::vector<std::pair<int, Str> >& want) {
	size_t at = 0;
	for (size_t i = 0; i < want.size(); ++i) {
		Str head = fmt("[%s] [", LEVEL[want[i].first]);
		if (all.compare(at, head.size(), head) != 0) return fmt("record %d does not start with ", (int)i) + head;
		size_t e = all.find(']', at + head.size());
		if (e == Str::npos) return fmt("record %d has no time", (int)i);
		if (all.compare(e + 1, want[i].second.size(), want[i].second) != 0) return fmt("record %d of %d is not what was logged (%d characters)", (int)i, (int)want.size(), (int)want[i].second.size());
		at = e + 1 + want[i].second.size();
	}
	return at == all.size() ? "" : "more than the records";
}
static const char* const TAGS[5] = {"", "net", "performance", "a tag", "Net"};
static int number(int k) { return k == 0 ? 0 : k == 1 ? (int)rnd(4880, 4960) : k == 2 ? (int)rnd(9800, 10100) : (int)rnd(1, 40); }

static void records() {
	begin("records", "");
	keeper* k = new keeper;
	log_logger::init_logger(k);
	bool on[4] = {true, true, true, true};
	std::vector<Str> filter;
	std::vector<std::pair<int, Str> > want;
	Str steps;
	for (int t = 0; t < 12; ++t) {
		int l = (int)rnd(0, 3);
		switch (rnd(0, 5)) {
		case 0: {
			bool v = rnd(0, 1) != 0;
			on[l] = v;
			if (l == 0) k->enable_debug(v); else if (l == 1) k->enable_info(v); else if (l == 2) k->enable_warning(v); else k->enable_error(v);
			break;
		}
		case 1:
			filter.clear();
			for (int i = (int)rnd(0, 3); i > 0; --i) filter.push_back(TAGS[rnd(0, 4)]);
			k->set_filter(filter);
			break;
		default: {
			Str tag = TAGS[rnd(0, 4)], msg = text(number((int)rnd(0, 8)));
			int line = 0;
			bool fails = rnd(0, 1) != 0, sent = on[l];
			switch (rnd(0, 7)) {
			case 0: if (l == 3) { sent = on[3] && fails; basiclog_assert_message(tag, !fails, msg); line = __LINE__; break; }
			case 1: if (l == 3) { sent = on[3] && fails; msg = ""; basiclog_assert(tag, !fails); line = __LINE__; break; }
			case 2: if (l == 3) { msg = "unsupport operation"; basiclog_unsupport(tag); line = __LINE__; break; }
			default:
				if (l == 0) { basiclog_debug(tag, msg); line = __LINE__; }
				if (l == 1) { basiclog_info(tag, msg); line = __LINE__; }
				if (l == 2) { basiclog_warning(tag, msg); line = __LINE__; }
				if (l == 3) { basiclog_error(tag, msg); line = __LINE__; }
			}
			if (sent && std::find(filter.begin(), filter.end(), tag) == filter.end()) want.push_back(std::make_pair(l, tail_of(tag, msg, line, HERE)));
			steps += fmt(" %s(%s,%d)", LEVEL[l], tag.c_str(), (int)msg.size());
		}
		}
		bool ok = k->is_enable_debug() == on[0] && k->is_enable_info() == on[1] && k->is_enable_warning() == on[2] && k->is_enable_error() == on[3];
		Str d = ok ? follow(k->all, want) : "the enabled levels are not the ones set";
		if (!check(d.empty(), d + " after" + steps)) return;
	}
}
static void threads() {
	begin("threads", "");
	keeper* k = new keeper;
	log_logger::init_logger(k);
	const int T = 4, R = 12;
	std::vector<Str> msg[T];
	for (int t = 0; t < T; ++t)
		for (int i = 0; i < R; ++i) msg[t].push_back(fmt("%d:%d:", t, i) + Str(i % 4 == 1 ? rnd(6000, 12000) : 3, 'a' + t));
	std::vector<std::thread> run;
	for (int t = 0; t < T; ++t)
		run.push_back(std::thread([&, t]() { for (int i = 0; i < R; ++i) k->log_logger::print("info", "t", msg[t][i], "x/y/file.cpp", 7); }));
	for (int t = 0; t < T; ++t) run[t].join();
	// every record as one, those of a thread in their order
	int next[T] = {0, 0, 0, 0};
	size_t at = 0;
	Str d;
	while (at < k->all.size() && d.empty()) {
		size_t e = k->all.find('\n', at);
		Str r = k->all.substr(at, e == Str::npos ? e : e - at);
		at = e == Str::npos ? k->all.size() : e + 1;
		size_t m = r.find("file.cpp>, ");
		if (m == Str::npos) { d = "a record without head"; break; }
		int t = atoi(r.c_str() + m + 11);
		if (t < 0 || t >= T || next[t] >= R || r.substr(m + 11) != msg[t][next[t]]) d = fmt("thread %d: record %d is not whole or not in order", t, t >= 0 && t < T ? next[t] : -1);
		else ++next[t];
	}
	for (int t = 0; t < T && d.empty(); ++t) if (next[t] != R) d = fmt("thread %d: %d of %d records", t, next[t], R);
	check(d.empty(), d);
}
class filer : public log_file_logger {
public:
	filer(const Str& dir, int per, int files) : log_file_logger(dir, per, files, "%S") {}
	std::list<Str> list() { return m_list_files; }
};
static Str content(const Str& p) {
	Str s;
	FILE* f = fopen(p.c_str(), "rb");
	if (!f) return "no file " + p;
	for (int c; (c = fgetc(f)) != EOF;) s += (char)c;
	fclose(f);
	return s;
}
static Str base;
static void erase(const Str& d) {
	DIR* p = opendir(d.c_str());
	if (!p) return;
	while (dirent* e = readdir(p)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str());
	closedir(p);
	rmdir(d.c_str());
}
static int entries(const Str& d) {
	int n = 0;
	DIR* p = opendir(d.c_str());
	if (!p) return -1;
	while (dirent* e = readdir(p)) n += e->d_name[0] != '.';
	closedir(p);
	return n;
}
static void files() {
	begin("files", "");
	static int dirs = 0;
	int per = (int)rnd(1, 4), most = (int)rnd(1, 4), n = (int)rnd(0, 14);
	Str dir = base + fmt("/d%d/", dirs++), other;
	filer* f = new filer(dir, per, most);
	log_logger::init_logger(f);
	std::vector<std::vector<std::pair<int, Str> > > want;
	int room = 0;
	Str d;
	for (int i = 0; i < n && d.empty(); ++i) {
		if (rnd(0, 11) == 0 && other.empty()) {
			other = base + fmt("/d%d/", dirs++);
			f->set_dir(other);
			want.clear();
			room = 0;
		}
		if (rnd(0, 9) == 0) {
			// a limit the open file has not reached
			int used = per - room;
			if (want.empty()) used = 0;
			int p2 = used + (int)rnd(want.empty() ? 1 : 0, 3);
			if (p2 > 0) { f->set_file_max_log_number(p2); per = p2; room = want.empty() ? 0 : per - used; }
		}
		if (rnd(0, 9) == 0) { most += (int)rnd(1, 2); f->set_max_file_number(most); }
		Str msg = text((int)rnd(0, 30));
		basiclog_info("t", msg); int line = __LINE__;
		if (room == 0) { want.push_back(std::vector<std::pair<int, Str> >()); room = per; }
		want.back().push_back(std::make_pair(1, tail_of("t", msg, line, HERE)));
		--room;
		if ((int)want.size() > most) want.erase(want.begin());
		std::list<Str> l = f->list();
		if (l.size() != want.size()) d = fmt("%d files, %d expected", (int)l.size(), (int)want.size());
		int q = 0;
		for (std::list<Str>::iterator it = l.begin(); it != l.end() && d.empty(); ++it, ++q) {
			if (it->compare(0, (other.empty() ? dir : other).size(), other.empty() ? dir : other) != 0) { d = "file outside of the folder: " + *it; break; }
			Str e = follow(content(*it), want[q]);
			if (!e.empty()) d = fmt("file %d of %d after %d records (%d per file, at most %d): ", q, (int)want.size(), i + 1, per, most) + e;
		}
		if (d.empty() && entries(other.empty() ? dir : other) != (int)l.size()) d = fmt("%d files in the folder, %d listed", entries(other.empty() ? dir : other), (int)l.size());
	}
	log_logger::init_logger(new keeper);
	check(d.empty(), d);
	erase(dir);
	if (!other.empty()) erase(other);
}
static void console() {
	begin("console", "");
	std::vector<std::pair<int, Str> > want;
	std::stringbuf b;
	log_logger::init_logger(new log_console_logger("%S"));
	std::streambuf* old = std::cout.rdbuf(&b);
	std::wstringbuf wb;
	std::wstreambuf* wold = std::wcout.rdbuf(&wb);
	for (int i = (int)rnd(1, 6); i > 0; --i) {
		Str msg = text((int)rnd(0, 20));
		basiclog_warning("t", msg); int line = __LINE__;
		want.push_back(std::make_pair(2, tail_of("t", msg, line, HERE)));
	}
	std::cout.rdbuf(old);
	std::wcout.rdbuf(wold);
	Str all = b.str();
	std::wstring w = wb.str();
	for (size_t i = 0; i < w.size(); ++i) all += (char)w[i];
	Str d = follow(all, want);
	check(d.empty(), d);
	log_logger::init_logger(new keeper);
}
void run() {
	char t[] = "/tmp/c26-XXXXXX";
	base = mkdtemp(t);
	for (int i = 0; i < N(2500, 30000) && !failed_often("records"); ++i) records();
	for (int i = 0; i < N(60, 800) && !failed_often("threads"); ++i) threads();
	for (int i = 0; i < N(250, 2500) && !failed_often("files"); ++i) files();
	for (int i = 0; i < N(300, 3000) && !failed_often("console"); ++i) console();
	log_logger::release();
	rmdir(base.c_str());
}
HARNESS_MAIN
