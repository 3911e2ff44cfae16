// A clock that stands still, so that results of the same operation at different moments can be compared. Include in one source only.
#pragma once
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace frozen { static const long NOW = 1795000000; }

extern "C" time_t time(time_t* t) noexcept
{
	if (t) *t = frozen::NOW;
	return frozen::NOW;
}
extern "C" int clock_gettime(clockid_t id, timespec* ts) noexcept
{
	if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) { ts->tv_sec = frozen::NOW; ts->tv_nsec = 0; return 0; }
	return (int)syscall(SYS_clock_gettime, id, ts);
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
	tv->tv_sec = frozen::NOW;
	tv->tv_usec = 0;
	return 0;
}
