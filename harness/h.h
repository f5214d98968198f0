// Run-time side of the contracts: deterministic inputs, oracles, failure reporting.
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <algorithm>

namespace hh {
	static uint64_t g_state = 1;
	static FILE* g_out = nullptr;
	static char* g_case = nullptr;
	static bool g_thorough = false;
	static long g_evals = 0;
	static std::set<uint64_t>* g_seen = nullptr;
	static std::map<std::string, int>* g_fails = nullptr;
	static std::map<std::string, long>* g_counts = nullptr;
	static std::map<std::string, int>* g_samples = nullptr;
	static std::string g_group, g_desc, g_scratch;
	static int g_seed = 1;

	static inline uint64_t rnd() {
		uint64_t z = (g_state += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	// uniform in [lo, hi]
	static inline long rnd(long lo, long hi) { return lo + (long)(rnd() % (uint64_t)(hi - lo + 1)); }

	static std::string fmt(const char* f, ...) {
		char b[4096];
		va_list ap;
		va_start(ap, f);
		vsnprintf(b, sizeof b, f, ap);
		va_end(ap);
		return b;
	}
	template<class V> static std::string show(const V& v, size_t limit = 40) {
		std::string s = "[";
		size_t n = 0;
		for (auto it = v.begin(); it != v.end(); ++it) {
			if (n) s += ",";
			if (n++ >= limit) { s += "..."; break; }
			s += std::to_string(*it);
		}
		return s + "]";
	}
	static void timeout_handler(int) {
		const char m[] = "WATCHDOG: the operation does not end\n";
		(void)!write(2, m, sizeof m - 1);
		_exit(97);
	}
	// one case: named group, printable input; called before the code under test runs
	static inline void begin(const char* group, const std::string& desc) {
		g_group = group;
		g_desc = desc;
		++g_evals;
		if ((g_evals & 63) == 1 || g_thorough) alarm(60);
		snprintf(g_case, 65000, "%s | %s", group, desc.c_str());
		g_seen->insert(std::hash<std::string>()(g_group + "|" + desc));
		++(*g_counts)[g_group];
		int& k = (*g_samples)[g_group];
		if (k < 1 || (k < 2 && (*g_counts)[g_group] == 500)) {
			++k;
			fprintf(g_out, "SAMPLE %s: %s\n", group, desc.substr(0, 300).c_str());
		}
	}
	static inline void fail(const std::string& what) {
		int& n = (*g_fails)[g_group];
		if (n++ < 3) {
			std::string d = g_desc + " -> " + what;
			for (auto& c : d) if (c == '\n') c = ' ';
			fprintf(g_out, "FAIL %s | %s\n", g_group.c_str(), d.c_str());
			fflush(g_out);
		}
	}
	static inline bool check(bool ok, const char* what) {
		if (!ok) fail(what);
		return ok;
	}
	static inline bool check(bool ok, const std::string& what) {
		if (!ok) fail(what);
		return ok;
	}
	static inline bool failed_often(const char* group) {
		auto it = g_fails->find(group);
		return it != g_fails->end() && it->second >= 3;
	}
	static inline int N(int quick, int thorough) { return g_thorough ? thorough : quick; }
}
void run();
#define HARNESS_MAIN \
int main(int argc, char** argv) { \
	hh::g_seed = atoi(argv[1]); \
	hh::g_state = 0x1234567ull * hh::g_seed + 99; \
	hh::g_thorough = !strcmp(argv[2], "thorough"); \
	hh::g_out = fopen(argv[3], "w"); \
	int fd = open(argv[4], O_RDWR | O_CREAT | O_TRUNC, 0600); \
	(void)!ftruncate(fd, 65536); \
	hh::g_case = (char*)mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); \
	hh::g_scratch = argv[5]; \
	hh::g_seen = new std::set<uint64_t>(); \
	hh::g_fails = new std::map<std::string, int>(); \
	hh::g_counts = new std::map<std::string, long>(); \
	hh::g_samples = new std::map<std::string, int>(); \
	signal(SIGALRM, hh::timeout_handler); \
	run(); \
	alarm(0); \
	for (auto& c : *hh::g_counts) fprintf(hh::g_out, "COUNT %s %ld\n", c.first.c_str(), c.second); \
	fprintf(hh::g_out, "DONE %ld %ld\n", hh::g_evals, (long)hh::g_seen->size()); \
	fclose(hh::g_out); \
	fflush(stdout); \
	delete hh::g_seen; delete hh::g_fails; delete hh::g_counts; delete hh::g_samples; \
	return 0; \
}
