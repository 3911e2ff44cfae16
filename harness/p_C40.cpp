// C40: results do not depend on how the library is built.
#include "frozen.hpp"
#include "builds.hpp"
#include "hostile.hpp"
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"The library is built several times (gcc and clang, from no optimization to -O3, char signed as on x86 and unsigned as on ARM, with and without the re-entrant resolver interface) and each build runs in a process of its own. "
	"Every operation (all entry points on hostile and valid input; signing and verifying generated messages) must come out the same in each as in the build with sanitizers. Non-trivial: distinct inputs.";
uint64_t mon::cases(bool th) { return th ? 600000 : 14000; }
unsigned mon::cpu_limit() { return 60; }

struct Worker
{
	const char* name;
	pid_t pid = -1;
	int to = -1, from = -1;

	void start()
	{
		const char* exe = getenv(name);
		if (!exe) { fprintf(stderr, "%s must be set\n", name); exit(3); }
		int a[2], b[2];
		if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) { perror("pipe"); exit(3); }
		pid = fork();
		if (pid < 0) { perror("fork"); exit(3); }
		if (pid == 0)
		{
			int w = fcntl(b[1], F_DUPFD, 10);
			dup2(a[0], 0);
			dup2(w, 3);
			execl(exe, exe, (char*)nullptr);
			_exit(125);
		}
		close(a[0]);
		close(b[1]);
		to = a[1];
		from = b[0];
	}
	// how it ended
	S stop()
	{
		close(to);
		close(from);
		int st = 0;
		while (waitpid(pid, &st, 0) < 0) {}
		pid = -1;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 125) { fprintf(stderr, "%s could not be run\n", name); exit(3); }
		return WIFSIGNALED(st) ? WTERMSIG(st) == SIGPROF ? S("no end after 20 s of computing") : "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
	}
	static bool all(int fd, char* p, size_t n, bool out)
	{
		while (n)
		{
			ssize_t k = out ? write(fd, p, n) : read(fd, p, n);
			if (k < 0 && errno == EINTR) continue;
			if (k <= 0) return false;
			p += k;
			n -= (size_t)k;
		}
		return true;
	}
	bool send(const S& req)
	{
		if (pid < 0) start();
		uint32_t n = (uint32_t)req.size();
		return all(to, (char*)&n, 4, true) && all(to, (char*)req.data(), n, true);
	}
	bool receive(S& input, S& result)
	{
		uint32_t n;
		if (!all(from, (char*)&n, 4, false)) return false;
		S o(n, 0);
		if (!all(from, &o[0], n, false)) return false;
		size_t p = 0;
		input = builds::get(o, p);
		result = builds::get(o, p);
		return true;
	}
};
static Worker workers[3] = { { "BUILD_UNSIGNED" }, { "BUILD_FAST" }, { "BUILD_PLAIN" } };

void mon::begin(Ctx&) { signal(SIGPIPE, SIG_IGN); }
void mon::end(Ctx&) { for (auto& w : workers) if (w.pid >= 0) w.stop(); }

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	S req, what;
	if (r.chance(1, 4)) req = builds::request((uint64_t)r.next());
	else
	{
		entry::Input in = hostile::any(r);
		// bytes beyond ASCII are where builds differ
		for (S* x : { &in.a, &in.b })
			if (r.chance(1, 3)) for (size_t n = 1 + r.below(4); n--;)
			{
				S b = r.chance(1, 2) ? S(1, '\xff') : r.chance(1, 2) ? S(1, (char)(0x80 + r.below(0x80))) : S(r.pick({ "\xc3\xa4", "\xff\xff", "\xfe", "\x80", "\xa0 ", " \xff", "\xff\r\n", "=\xff\xff" }));
				if (r.chance(1, 2) || x->empty()) x->insert(r.below(x->size() + 1), b);
				else x->replace(r.below(x->size()), 1, b);
			}
		req = builds::request(in);
		what = S(entry::name(in.which)) + " opt " + std::to_string(in.opt) + " " + quote(in.a, 3000) + " / " + quote(in.b, 500);
		c.ev(S("entry: ") + entry::name(in.which));
	}
	bool sent[3];
	for (int i = 0; i < 3; ++i) sent[i] = workers[i].send(req);
	auto want = builds::run(req);
	if (what.empty()) { what = "sign and verify " + quote(want.first, 4000); c.ev("signed and verified"); }
	c.nontrivial(what);
	S bad, key;
	for (int i = 0; i < 3; ++i)
	{
		Worker& w = workers[i];
		S input, result;
		if (!sent[i] || !w.receive(input, result))
		{
			bad += S(w.name) + ": " + w.stop() + "\n";
			key = "a-build-ends";
			continue;
		}
		if (input != want.first) { fprintf(stderr, "the input made by %s is another one\n%s\n%s\n", w.name, input.c_str(), want.first.c_str()); exit(3); }
		c.ev(S("results compared: ") + w.name);
		if (result != want.second) { bad += S(w.name) + ": " + quote(result, 3000) + "\n"; if (key.empty()) key = "builds-differ"; }
	}
	c.check(bad.empty(), key.c_str(), [&] { return bad + "with sanitizers: " + quote(want.second, 3000) + "\n" + what; });
	if (c.idx < 20) c.sample(what.substr(0, 300));
}
