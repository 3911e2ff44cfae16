// Linked into the command-line tool: DNS answers from the file $TOOL_ZONE, a clock that stands at $TOOL_TIME.
// Lines of the file: <name> <answer in hex, or !again, !nodata, !nx>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/nameser.h>
#include <resolv.h>
#include <strings.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static int serve(res_state st, const char* name, unsigned char* ans, int len)
{
	int herr = HOST_NOT_FOUND, n = -1;
	static char line[300000];
	const char* path = getenv("TOOL_ZONE");
	FILE* f = path ? fopen(path, "r") : nullptr;
	while (f && fgets(line, sizeof line, f))
	{
		char* sp = strchr(line, ' ');
		if (!sp) continue;
		*sp = 0;
		if (strcasecmp(line, name) != 0) continue;
		char* v = sp + 1;
		v[strcspn(v, "\n")] = 0;
		if (!strcmp(v, "!again")) herr = TRY_AGAIN;
		else if (!strcmp(v, "!nodata")) herr = NO_DATA;
		else if (!strcmp(v, "!nx")) herr = HOST_NOT_FOUND;
		else
		{
			n = (int)strlen(v) / 2;
			for (int i = 0; i < n && i < len; ++i)
			{
				char two[3] = { v[2 * i], v[2 * i + 1], 0 };
				ans[i] = (unsigned char)strtoul(two, nullptr, 16);
			}
		}
		break;
	}
	if (f) fclose(f);
	if (n >= 0) herr = 0;
	if (st) st->res_h_errno = herr;
	h_errno = herr;
	return n;
}

extern "C"
{
#undef res_nquery
#undef res_query
#undef res_nsearch
#undef res_search
	int res_nquery(res_state st, const char* n, int, int, unsigned char* a, int l) { return serve(st, n, a, l); }
	int __res_nquery(res_state st, const char* n, int, int, unsigned char* a, int l) { return serve(st, n, a, l); }
	int res_nsearch(res_state st, const char* n, int, int, unsigned char* a, int l) { return serve(st, n, a, l); }
	int __res_nsearch(res_state st, const char* n, int, int, unsigned char* a, int l) { return serve(st, n, a, l); }
	int res_query(const char* n, int, int, unsigned char* a, int l) { return serve(nullptr, n, a, l); }
	int __res_query(const char* n, int, int, unsigned char* a, int l) { return serve(nullptr, n, a, l); }
	int res_search(const char* n, int, int, unsigned char* a, int l) { return serve(nullptr, n, a, l); }
	int __res_search(const char* n, int, int, unsigned char* a, int l) { return serve(nullptr, n, a, l); }

	static long toolTime()
	{
		const char* t = getenv("TOOL_TIME");
		return t ? strtol(t, nullptr, 10) : 1795000000;
	}
	time_t time(time_t* t) noexcept
	{
		time_t v = toolTime();
		if (t) *t = v;
		return v;
	}
	int clock_gettime(clockid_t id, timespec* ts) noexcept
	{
		if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) { ts->tv_sec = toolTime(); ts->tv_nsec = 0; return 0; }
		return (int)syscall(SYS_clock_gettime, id, ts);
	}
	int gettimeofday(struct timeval* tv, void*) noexcept
	{
		tv->tv_sec = toolTime();
		tv->tv_usec = 0;
		return 0;
	}
}
