// One process of C41: the same operations while static objects are made, in main, in other threads, in a forked child, while thread-local
// and static objects go, and in exit handlers. MON_REQ names the file with the requests, MON_WHEN the stages; results go to descriptor 3.
#include "frozen.hpp"
#include "builds.hpp"
#include <fcntl.h>
#include <sys/wait.h>
#include <thread>

namespace mon
{
	uint64_t hash(const std::string& s, uint64_t h) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h ^ (h >> 29); }
	std::string quote(const std::string& s, size_t max) { return s.substr(0, max); }
	void die(const std::string& key, const std::string& detail) { fprintf(stderr, "%s %s\n", key.c_str(), detail.c_str()); _exit(96); }
}

static char* text;	// kept to the end
static size_t textLen;
static const char* when = "";

static void out(char stage, const std::string& x)
{
	std::string o(1, stage);
	builds::put(o, x);
	for (size_t i = 0; i < o.size();)
	{
		ssize_t k = write(3, o.data() + i, o.size() - i);
		if (k <= 0) _exit(3);
		i += (size_t)k;
	}
}

static void stage(char what)
{
	if (!strchr(when, what)) return;
	std::string d(text, textLen), all;
	for (size_t p = 0; p < d.size();)
	{
		std::string req = builds::get(d, p);
		builds::put(all, builds::run(req).second);
	}
	out(what, all);
}

static struct Global
{
	Global()
	{
		const char* w = getenv("MON_WHEN");
		const char* f = getenv("MON_REQ");
		if (!w || !f) _exit(3);
		when = strdup(w);
		int fd = open(f, O_RDONLY);
		text = (char*)malloc(1 << 24);
		ssize_t n = fd < 0 ? -1 : read(fd, text, 1 << 24);
		if (n < 0) _exit(3);
		textLen = (size_t)n;
		close(fd);
		// what the harness keeps has to be there before and go after
		ref::rsaKeys();
		ref::oddRsaKeys();
		ref::edKey(0);
		interpose::dns = nullptr;
		stage('a');
	}
	~Global() { stage('z'); }
} global;

static struct Late { ~Late() { if (strchr(when, 'y')) stage('y'); } } late;

struct Local { int alive = 1; ~Local() { stage('t'); } };
static thread_local Local local;

int main()
{
	if (strchr(when, 'h')) atexit([] { stage('h'); });
	stage('m');
	if (strchr(when, 'p') || strchr(when, 't'))
	{
		std::thread([] { if (strchr(when, 't')) local.alive = 2; stage('p'); }).join();
	}
	if (strchr(when, 'f'))
	{
		pid_t p = fork();
		if (p == 0) { stage('f'); _exit(0); }
		int st = 0;
		while (waitpid(p, &st, 0) < 0) {}
		if (st) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 99);
	}
	if (strchr(when, 'i')) atexit([] { stage('i'); });
	return 0;
}
