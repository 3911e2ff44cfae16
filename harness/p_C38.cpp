// C38: calls have no effects beyond their results.
#include "frozen.hpp"
#include "hostile.hpp"
#include <algorithm>
#include <cfenv>
#include <clocale>
#include <dirent.h>
#include <fcntl.h>
#include <iostream>
#include <new>
#include <openssl/rand.h>
#include <resolv.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace mon;
typedef std::string S;
extern char** environ;
extern "C" void __sanitizer_set_report_fd(void*);

const char* const mon::RULE =
	"Operations of all entry points on hostile and valid inputs run in a process whose state is chosen before and compared behind each: standard streams (on files; nothing read or written), open files, working directory and what is in it, "
	"mask for new files, environment, signals, timers, limits, threads and children, C and C++ locale, floating point mode, handlers of C++, the states kept by the C library between calls (rand, random, drand48, strtok, gmtime, stdin), "
	"settings of cout and cerr, OpenSSL's random method, resolver settings. Non-trivial: distinct inputs.";
uint64_t mon::cases(bool th) { return th ? 600000 : 12000; }

static int realFd[3], memFd[3];
static S scratch;

static int memFile()
{
	int fd = memfd_create("m", 0);
	if (fd < 0) { char t[] = "/tmp/C38.XXXXXX"; fd = mkstemp(t); if (fd >= 0) unlink(t); }
	if (fd < 0) { perror("memfd_create"); _exit(3); }
	int up = fcntl(fd, F_DUPFD, 200);
	close(fd);
	return up;
}

void mon::begin(Ctx&)
{
	for (int i = 0; i < 3; ++i) { realFd[i] = fcntl(i, F_DUPFD, 100); memFd[i] = memFile(); }
	__sanitizer_set_report_fd((void*)(intptr_t)realFd[2]);
	const char in[] = "secret\nsecret\nyes\n";
	if (write(memFd[0], in, sizeof in - 1) != sizeof in - 1) _exit(3);
	char t[] = "/tmp/C38.XXXXXX";
	if (!mkdtemp(t)) { perror("mkdtemp"); _exit(3); }
	scratch = t;
	if (chdir(t)) { perror("chdir"); _exit(3); }
	// whatever is set up once
	dk::call([] { DKIM::SignatoryOptions o; o.SetPrivateKey(ref::rsaKeys()[0]->pem); });
}

void mon::end(Ctx&)
{
	if (chdir("/")) {}
	rmdir(scratch.c_str());
}

struct Redirect
{
	Redirect()
	{
		fflush(nullptr);
		std::cout.flush();
		std::cerr.flush();
		lseek(memFd[0], 0, SEEK_SET);
		for (int i = 1; i < 3; ++i) { if (ftruncate(memFd[i], 0)) {} lseek(memFd[i], 0, SEEK_SET); }
		for (int i = 0; i < 3; ++i) dup2(memFd[i], i);
	}
	~Redirect()
	{
		for (int i = 0; i < 3; ++i) dup2(realFd[i], i);
	}
};

static S listing(const char* dir)
{
	std::vector<S> v;
	DIR* d = opendir(dir);
	if (!d) return "?";
	int own = dirfd(d);
	while (dirent* e = readdir(d)) if (atoi(e->d_name) != own || !isdigit((unsigned char)e->d_name[0])) v.push_back(e->d_name);
	closedir(d);
	std::sort(v.begin(), v.end());
	S o;
	for (auto& x : v) o += x + " ";
	return o;
}

static void handler(int) {}

// what there is to compare
static std::vector<std::pair<const char*, S>> state()
{
	std::vector<std::pair<const char*, S>> v;
	auto num = [](long long n) { return std::to_string(n); };
	fflush(nullptr);
	std::cout.flush();
	std::cerr.flush();
	std::clog.flush();
	v.push_back({ "standard-input-read", num(lseek(0, 0, SEEK_CUR)) + " " + num(feof(stdin)) + num(std::cin.rdstate()) });
	for (int i = 1; i < 3; ++i)
	{
		struct stat s;
		fstat(i, &s);
		S text((size_t)s.st_size, 0);
		if (!text.empty() && pread(i, &text[0], text.size(), 0) < 0) text = "?";
		v.push_back({ i == 1 ? "standard-output-written" : "standard-error-written", text });
	}
	v.push_back({ "open-files", listing("/proc/self/fd") });
	char cwd[4096];
	v.push_back({ "working-directory", getcwd(cwd, sizeof cwd) ? cwd : "?" });
	v.push_back({ "files-made", listing(".") });
	mode_t m = umask(0);
	umask(m);
	v.push_back({ "file-mode-mask", num(m) });
	S env;
	for (char** e = environ; *e; ++e) env += S(*e) + "\n";
	v.push_back({ "environment", env });
	S sig;
	for (int i = 1; i < 65; ++i)
	{
		struct sigaction a;
		memset(&a, 0, sizeof a);
		if (sigaction(i, nullptr, &a)) continue;
		sig += num((long)(intptr_t)a.sa_handler) + "/" + num(a.sa_flags) + " ";
	}
	v.push_back({ "signal-handlers", sig });
	sigset_t mask;
	sigemptyset(&mask);
	pthread_sigmask(SIG_SETMASK, nullptr, &mask);
	sig.clear();
	for (int i = 1; i < 65; ++i) sig += sigismember(&mask, i) == 1 ? '1' : '0';
	v.push_back({ "signal-mask", sig });
	itimerval t;
	getitimer(ITIMER_REAL, &t);
	v.push_back({ "timer", num(t.it_value.tv_sec >= 9000) });
	S lim;
	for (int i = 0; i < RLIM_NLIMITS; ++i) { rlimit l; if (!getrlimit((__rlimit_resource_t)i, &l)) lim += num((long long)l.rlim_cur) + " "; }
	v.push_back({ "limits", lim });
	v.push_back({ "threads", listing("/proc/self/task") });
	int st;
	pid_t p = waitpid(-1, &st, WNOHANG);
	v.push_back({ "children", p == -1 && errno == ECHILD ? "none" : "some" });
	const char* l = setlocale(LC_ALL, nullptr);
	v.push_back({ "locale", S(l ? l : "?") + num((long)(intptr_t)uselocale((locale_t)0)) });
	v.push_back({ "C++-locale", std::locale().name() });
	v.push_back({ "rounding", num(fegetround()) });
	v.push_back({ "C++-handlers", num((long)(intptr_t)std::get_new_handler()) + num((long)(intptr_t)std::get_terminate()) });
	S f;
	std::ios* ss[] = { &std::cout, &std::cerr, &std::cin, &std::clog };
	for (auto s : ss) f += num(s->flags()) + "," + num(s->precision()) + "," + num((long)s->width()) + "," + num((long)s->fill()) + "," + num((long)s->exceptions()) + "," + num((long)(intptr_t)s->rdbuf()) + "," + num((long)(intptr_t)s->tie()) + "," + num((long)s->rdstate()) + s->getloc().name() + " ";
	v.push_back({ "settings-of-standard-streams", f });
	v.push_back({ "random-method-of-OpenSSL", num((long)(intptr_t)RAND_get_rand_method()) });
	S res = num((long long)_res.options) + " " + num(_res.retrans) + " " + num(_res.retry) + " " + num(_res.nscount);
	v.push_back({ "resolver-settings", res });
	int old = 0, kind = 0;
	pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &old);
	pthread_setcancelstate(old, nullptr);
	pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &kind);
	pthread_setcanceltype(kind, nullptr);
	v.push_back({ "cancellation", num(old) + num(kind) });
	v.push_back({ "priority", num(getpriority(PRIO_PROCESS, 0)) });
	return v;
}

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	entry::Input in;
	gen::Cfg cfg;
	S text;
	gen::Message m;
	bool whole = r.chance(1, 4);
	S what;
	if (whole)
	{
		m = gen::message(r, true);
		cfg = gen::config(r, m);
		text = m.text(&r, (int)r.below(3));
		what = quote(text, 3000) + "\n" + cfg.str();
	}
	else
	{
		in = hostile::any(r);
		what = S(entry::name(in.which)) + " opt " + std::to_string(in.opt) + " " + quote(in.a, 3000) + " / " + quote(in.b, 500);
	}

	// the state of the process
	umask((mode_t)r.below(64));
	setenv("C38_TEST", r.from("abc", 5).c_str(), 1);
	if (r.chance(1, 2)) setenv("TZ", r.pick({ "UTC", "EST5", "" }), 1); else unsetenv("TZ");
	// the handlers of the application
	std::set_new_handler(r.chance(1, 2) ? +[] { throw std::bad_alloc(); } : nullptr);
	static const std::terminate_handler usual = std::get_terminate();
	std::set_terminate(r.chance(1, 2) ? +[] { abort(); } : usual);
	signal(SIGUSR1, r.chance(1, 2) ? handler : SIG_DFL);
	signal(SIGPIPE, r.chance(1, 2) ? SIG_IGN : SIG_DFL);
	sigset_t mask;
	sigemptyset(&mask);
	if (r.chance(1, 2)) sigaddset(&mask, SIGUSR2);
	pthread_sigmask(SIG_SETMASK, &mask, nullptr);
	itimerval t = {}, off = {};
	t.it_value.tv_sec = 10000;
	if (r.chance(1, 2)) std::cout.setf(std::ios::hex, std::ios::basefield); else std::cout.setf(std::ios::dec, std::ios::basefield);
	unsigned seed = (unsigned)r.below(1000000);
	srand(seed);
	int wantRand = rand();
	srand48(seed);
	long wantRand48 = lrand48();
	char list[] = "first,second,third";
	S want, got;
	std::vector<std::pair<const char*, S>> a, b;
	S kept;
	{
		Redirect rd;
		rewind(stdin);
		lseek(0, 0, SEEK_SET);
		setitimer(ITIMER_REAL, &t, nullptr);
		a = state();
		srand(seed);
		srand48(seed);
		strtok(list, ",");
		time_t when = 1000000000;
		const tm* g = gmtime(&when);
		int day = g->tm_yday;
		char* asc = asctime(g);
		S ascWas = asc;
		if (whole)
		{
			dk::KeyHold hold;
			DKIM::SignatoryOptions o;
			dk::Out x = dk::call([&] { dk::apply(cfg, o, hold); });
			S sig;
			if (x.ok()) x = dk::call([&] { sig = dk::sign(text, o); });
			dk::Dns d = dk::zoneFor(cfg);
			if (x.ok()) { auto vs = dk::verifyText(sig + "\r\n" + text, cfg.arc != 0, d); for (auto& v : vs) c.ev("verification: " + v.cls); }
			c.ev("signing: " + x.cls);
		}
		else entry::run(in);
		const char* next = strtok(nullptr, ",");
		int r1 = rand();
		long r2 = lrand48();
		if (!next || S(next) != "second") kept = "strtok";
		else if (r1 != wantRand) kept = "rand";
		else if (r2 != wantRand48) kept = "lrand48";
		else if (g->tm_yday != day || ascWas != asc) kept = "gmtime";
		b = state();
		setitimer(ITIMER_REAL, &off, nullptr);
	}
	c.check(kept.empty(), "state-of-the-C-library", [&] { return kept + "\n" + what; });
	for (size_t i = 0; i < a.size(); ++i)
		c.check(a[i].second == b[i].second, a[i].first, [&] { return "before " + quote(a[i].second, 1500) + "\nafter  " + quote(b[i].second, 1500) + "\n" + what; });
	c.ev("kinds of state compared", a.size() + 4);
	c.ev(whole ? S("whole: sign and verify") : S("entry: ") + entry::name(in.which));
	c.nontrivial(what);
	if (c.idx < 10) c.sample(what.substr(0, 300));
}
