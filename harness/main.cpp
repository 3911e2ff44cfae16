// Shard runner: main SHARD OF SEED TIER OUT [FROM] | main only IDX SEED TIER OUT
#include "mon.hpp"
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <cxxabi.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>

namespace mon
{
	static std::string g_out;
	static volatile uint64_t* g_cur;	// [0] index, [1] state: 1 running, 2 done
	static unsigned g_viol;
	static Ctx* g_ctx;

	uint64_t hash(const std::string& s, uint64_t h)
	{
		for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
		return h ^ (h >> 29);
	}

	std::string quote(const std::string& s, size_t max)
	{
		std::string r;
		size_t n = 0;
		for (unsigned char c : s)
		{
			if (n++ >= max) { r += "...(" + std::to_string(s.size()) + " bytes)"; break; }
			if (c == '\r') r += "\\r";
			else if (c == '\n') r += "\\n";
			else if (c == '\t') r += "\\t";
			else if (c == '\\') r += "\\\\";
			else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
			else r += (char)c;
		}
		return r;
	}

	std::string hex(const std::string& s)
	{
		std::string r; char b[4];
		for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; }
		return r;
	}

	static std::string json(const std::string& s)
	{
		std::string r = "\"";
		for (unsigned char c : s)
		{
			if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
			else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
			else r += (char)c;
		}
		return r + "\"";
	}

	static void record(const std::string& key, const std::string& detail)
	{
		FILE* f = fopen((g_out + ".viol").c_str(), "a");
		if (!f) { perror("viol"); _exit(3); }
		fprintf(f, "{\"idx\": %llu, \"key\": %s, \"detail\": %s}\n", (unsigned long long)g_cur[0], json(key).c_str(), json(detail).c_str());
		fclose(f);
		++g_viol;
	}

	void Ctx::fail(const std::string& key, const std::string& detail)
	{
		record(key, detail);
		if (verbose) fprintf(stderr, "FAIL %s\n%s\n", key.c_str(), detail.c_str());
		throw Abort();
	}

	void die(const std::string& key, const std::string& detail)
	{
		record(key, detail);
		fprintf(stderr, "FAIL %s\n%s\n", key.c_str(), detail.c_str());
		_exit(96);
	}

	void Ctx::nontrivial(const std::string& content) { if (distinct.size() < 1000000) distinct.insert(hash(content)); }
	void Ctx::state(const std::string& content) { if (states.size() < 1000000) states.insert(hash(content)); }
	void Ctx::sample(const std::string& text) { if (samples.size() < 3) samples.push_back(text); }

	__attribute__((weak)) void begin(Ctx&) {}
	__attribute__((weak)) void end(Ctx&) {}
	__attribute__((weak)) unsigned cpu_limit() { return 20; }

	static void on_prof(int)
	{
		static const char m[] = "\nCPU-TIME LIMIT of one case exceeded\n";
		if (write(2, m, sizeof m - 1)) {}
		_exit(97);
	}

	static void arm(unsigned s)
	{
		struct itimerval t;
		memset(&t, 0, sizeof t);
		t.it_value.tv_sec = s;
		setitimer(ITIMER_PROF, &t, nullptr);
	}

	static void one(Ctx& c, uint64_t i)
	{
		g_cur[0] = i;
		g_cur[1] = 1;
		c.idx = i;
		c.r = Rng(hash(std::to_string(i) + "/" + std::to_string(c.seed)));
		arm(cpu_limit());
		try {
			run(c);
		} catch (const Abort&) {
		} catch (const std::exception& e) {
			int st;
			char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
			std::string name = n ? n : typeid(e).name();
			free(n);
			record("unexpected-exception:" + name, std::string("escaped to the case: ") + name + ": " + e.what());
			if (c.verbose) fprintf(stderr, "EXC %s %s\n", name.c_str(), e.what());
		}
		arm(0);
	}
}

int main(int argc, char** argv)
{
	using namespace mon;
	if (argc < 6) { fprintf(stderr, "usage\n"); return 3; }
	setvbuf(stdout, nullptr, _IOLBF, 0);
	bool only = !strcmp(argv[1], "only");
	uint64_t shard = only ? 0 : strtoull(argv[1], nullptr, 10);
	uint64_t of = only ? 1 : strtoull(argv[2], nullptr, 10);
	Ctx c;
	g_ctx = &c;
	c.seed = strtoull(argv[3], nullptr, 10);
	c.thorough = !strcmp(argv[4], "thorough");
	c.verbose = only;
	g_out = argv[5];
	double budget = getenv("MON_BUDGET") ? atof(getenv("MON_BUDGET")) : 1e9;
	uint64_t total = cases(c.thorough);
	if (getenv("MON_CASES")) total = strtoull(getenv("MON_CASES"), nullptr, 10);

	int fd = open((g_out + ".cur").c_str(), O_RDWR | O_CREAT, 0600);
	if (fd < 0 || ftruncate(fd, 4096)) { perror("cur"); return 3; }
	g_cur = (volatile uint64_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	if (g_cur == MAP_FAILED) { perror("mmap"); return 3; }
	close(fd);
	signal(SIGPROF, on_prof);
	signal(SIGPIPE, SIG_IGN);

	struct timespec t0, t;
	clock_gettime(CLOCK_MONOTONIC, &t0);
	uint64_t n = 0;
	begin(c);
	if (only)
	{
		one(c, strtoull(argv[2], nullptr, 10));
		n = 1;
	}
	else
	{
		uint64_t from = argc > 6 ? strtoull(argv[6], nullptr, 10) : shard;
		for (uint64_t i = from; i < total && g_viol < 10; i += of)
		{
			one(c, i);
			++n;
			if ((n & 15) == 0)
			{
				clock_gettime(CLOCK_MONOTONIC, &t);
				if (t.tv_sec - t0.tv_sec > budget) { c.events["stopped-at-time-budget"] = 1; break; }
			}
		}
	}
	end(c);
	g_cur[1] = 2;

	FILE* f = fopen(g_out.c_str(), "w");
	if (!f) { perror("out"); return 3; }
	fprintf(f, "{\"evaluations\": %llu, \"rule\": %s, \"events\": {", (unsigned long long)n, json(RULE).c_str());
	const char* sep = "";
	for (auto& e : c.events) { fprintf(f, "%s%s: %llu", sep, json(e.first).c_str(), (unsigned long long)e.second); sep = ", "; }
	fprintf(f, "}, \"samples\": [");
	sep = "";
	for (auto& s : c.samples) { fprintf(f, "%s%s", sep, json(s).c_str()); sep = ", "; }
	fprintf(f, "], \"distinct\": [");
	sep = "";
	for (auto h : c.distinct) { fprintf(f, "%s%llu", sep, (unsigned long long)h); sep = ","; }
	fprintf(f, "], \"states\": [");
	sep = "";
	for (auto h : c.states) { fprintf(f, "%s%llu", sep, (unsigned long long)h); sep = ","; }
	fprintf(f, "]}\n");
	fclose(f);
	// no exit-time leak scan: C27 has its own monitor
	fflush(nullptr);
	_exit(g_viol ? 1 : 0);
}
