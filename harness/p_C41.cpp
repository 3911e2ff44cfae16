// C41: the library can be used from the start of the process to its end.
#include "frozen.hpp"
#include "builds.hpp"
#include "hostile.hpp"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Each case is a process that runs some operations (entry points on hostile and valid input) in a choice of stages: while static objects are made, in main, in another thread and while its thread-local objects go, in a forked child, "
	"in exit handlers (registered before and behind the first use), while static objects go. Every stage must give the result the operation gives in main, without a report of a sanitizer. Non-trivial: distinct (operations, stages).";
uint64_t mon::cases(bool th) { return th ? 20000 : 640; }
unsigned mon::cpu_limit() { return 60; }

static S exe, dir;
void mon::begin(Ctx&)
{
	const char *e = getenv("LIFE"), *w = getenv("MON_WORK");
	if (!e || !w) { fprintf(stderr, "LIFE and MON_WORK must be set\n"); exit(3); }
	exe = e;
	dir = S(w) + "/c41." + std::to_string(getpid());
	mkdir(dir.c_str(), 0700);
}
void mon::end(Ctx&)
{
	for (const char* n : { "/req", "/err" }) unlink((dir + n).c_str());
	rmdir(dir.c_str());
}

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	S reqs, want, what;
	for (size_t n = 1 + r.below(6); n--;)
	{
		entry::Input in = hostile::any(r);
		S q = builds::request(in);
		builds::put(reqs, q);
		builds::put(want, builds::run(q).second);
		what += S(entry::name(in.which)) + " opt " + std::to_string(in.opt) + " " + quote(in.a, 1500) + " / " + quote(in.b, 300) + "\n";
		c.ev(S("entry: ") + entry::name(in.which));
	}
	S stages;
	for (const char* p = "amptfhiyz"; *p; ++p) if (r.chance(1, 2)) stages += *p;
	if (stages.empty()) stages = "z";
	// (registered before the first use of OpenSSL in this process it would run behind OpenSSL's own clean-up: the harness uses it first)
	S req = dir + "/req", err = dir + "/err";
	FILE* f = fopen(req.c_str(), "w");
	if (!f || fwrite(reqs.data(), 1, reqs.size(), f) != reqs.size()) { fprintf(stderr, "cannot write\n"); exit(3); }
	fclose(f);
	setenv("MON_REQ", req.c_str(), 1);
	setenv("MON_WHEN", stages.c_str(), 1);
	int p[2];
	if (pipe2(p, O_CLOEXEC)) { perror("pipe"); exit(3); }
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(3); }
	if (pid == 0)
	{
		int w = fcntl(p[1], F_DUPFD, 10), e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), nul = open("/dev/null", O_RDWR);
		dup2(nul, 0);
		dup2(e, 1);
		dup2(e, 2);
		dup2(w, 3);
		execl(exe.c_str(), exe.c_str(), (char*)nullptr);
		_exit(125);
	}
	close(p[1]);
	S got;
	char b[65536];
	bool hung = false;
	for (;;)
	{
		pollfd pf = { p[0], POLLIN, 0 };
		if (poll(&pf, 1, 120000) == 0) { kill(pid, SIGKILL); hung = true; break; }
		ssize_t n = read(p[0], b, sizeof b);
		if (n < 0 && errno == EINTR) continue;
		if (n <= 0) break;
		got.append(b, (size_t)n);
	}
	close(p[0]);
	int st = 0;
	while (waitpid(pid, &st, 0) < 0) {}
	if (WIFEXITED(st) && (WEXITSTATUS(st) == 125 || WEXITSTATUS(st) == 3)) { fprintf(stderr, "the process could not be run\n"); exit(3); }
	auto ctx = [&] {
		S t;
		if (FILE* g = fopen(err.c_str(), "r")) { size_t n = fread(b, 1, sizeof b, g); t.assign(b, n); fclose(g); }
		return "stages " + stages + "\n" + what + t.substr(0, 5000);
	};
	c.check(!hung, "no-end", ctx);
	c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "process-ended-badly", [&] { return "status " + std::to_string(st) + " " + ctx(); });
	S seen;
	for (size_t at = 0; at < got.size();)
	{
		char s = got[at++];
		S x = builds::get(got, at);
		seen += s;
		c.check(x == want, "result-of-a-stage", [&] { return S("stage ") + s + " gave " + quote(x, 3000) + "\nnot " + quote(want, 3000) + "\n" + ctx(); });
		c.ev(S("stage ") + s);
	}
	c.check(seen.size() == stages.size(), "stage-missing", [&] { return "ran " + seen + "\n" + ctx(); });
	c.nontrivial(stages + what);
	c.state(stages);
	if (c.idx < 10) c.sample(stages + " " + what.substr(0, 300));
}
