// The library in another build: reads requests from standard input, writes results to descriptor 3.
#include "frozen.hpp"
#include "builds.hpp"
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>

namespace mon
{
	uint64_t hash(const std::string& s, uint64_t h) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h ^ (h >> 29); }
	std::string quote(const std::string& s, size_t max)
	{
		std::string r;
		size_t n = 0;
		for (unsigned char c : s)
		{
			if (n++ >= max) { r += "...(" + std::to_string(s.size()) + " bytes)"; break; }
			if (c == '\r') r += "\\r";
			else if (c == '\n') r += "\\n";
			else if (c == '\t') r += "\\t";
			else if (c == '\\') r += "\\\\";
			else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
			else r += (char)c;
		}
		return r;
	}
	void die(const std::string& key, const std::string& detail) { fprintf(stderr, "%s %s\n", key.c_str(), detail.c_str()); _exit(96); }
}

static bool all(int fd, char* p, size_t n, bool out)
{
	while (n)
	{
		ssize_t k = out ? write(fd, p, n) : read(fd, p, n);
		if (k <= 0) return false;
		p += k;
		n -= (size_t)k;
	}
	return true;
}

int main()
{
	int in = dup(0), nul = open("/dev/null", O_RDWR);
	dup2(nul, 0);
	rlimit mem = { 4ul << 30, 4ul << 30 };
	setrlimit(RLIMIT_AS, &mem);
	for (;;)
	{
		uint32_t n;
		if (!all(in, (char*)&n, 4, false)) return 0;
		std::string req(n, 0);
		if (!all(in, &req[0], n, false)) return 0;
		itimerval t = {};
		t.it_value.tv_sec = 20;
		setitimer(ITIMER_PROF, &t, nullptr);	// its signal ends the process
		std::pair<std::string, std::string> r = builds::run(req);
		t.it_value.tv_sec = 0;
		setitimer(ITIMER_PROF, &t, nullptr);
		std::string o;
		builds::put(o, r.first);
		builds::put(o, r.second);
		n = (uint32_t)o.size();
		if (!all(3, (char*)&n, 4, true) || !all(3, &o[0], n, true)) return 1;
	}
}
