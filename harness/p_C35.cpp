// C35: results do not depend on the process's locale.
#include "frozen.hpp"
#include "hostile.hpp"
#include <clocale>
#include <fcntl.h>
#include <locale>
#include <locale.h>
#include <sys/file.h>
#include <sys/stat.h>
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Valid, damaged and arbitrary inputs for every entry point (letters in both cases, letters outside ASCII in names) are run in the C locale and then in another one (Turkish, German, "
	"Russian, Chinese ... single and multi-byte, as C locale, as C++ locale, as the thread's locale, with digit grouping), compiled with localedef for this check; everything that comes "
	"out must be the same. Non-trivial: distinct inputs with a result.";
uint64_t mon::cases(bool th) { return th ? 500000 : 16000; }

struct Loc { const char *name, *def, *charset; };
static const Loc locs[] = { { "tr_TR.ISO-8859-9", "tr_TR", "ISO-8859-9" }, { "tr_TR.UTF-8", "tr_TR", "UTF-8" }, { "de_DE.ISO-8859-1", "de_DE", "ISO-8859-1" }, { "ru_RU.KOI8-R", "ru_RU", "KOI8-R" },
	{ "zh_CN.GB18030", "zh_CN", "GB18030" }, { "lt_LT.ISO-8859-13", "lt_LT", "ISO-8859-13" }, { "th_TH.TIS-620", "th_TH", "TIS-620" } };
static std::vector<locale_t> threadLocales;

void mon::begin(Ctx&)
{
	char exe[4096];
	ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
	S dir = S(exe, n > 0 ? (size_t)n : 0);
	dir.resize(dir.rfind('/') + 1);
	dir += "locales";
	mkdir(dir.c_str(), 0755);
	int fd = open((dir + "/lock").c_str(), O_CREAT | O_RDWR, 0644);
	if (fd < 0 || flock(fd, LOCK_EX) != 0) { perror(dir.c_str()); _exit(3); }
	for (auto& l : locs)
	{
		S to = dir + "/" + l.name, tmp = to + ".new";
		struct stat st;
		if (stat((to + "/LC_CTYPE").c_str(), &st) != 0)
		{
			S cmd = "rm -rf '" + tmp + "'; localedef --no-warnings=ascii -c -i " + l.def + " -f " + l.charset + " '" + tmp + "' >/dev/null 2>&1; mv '" + tmp + "' '" + to + "'";
			if (system(cmd.c_str()) != 0) { fprintf(stderr, "localedef failed: %s\n", cmd.c_str()); _exit(3); }
		}
	}
	close(fd);
	setenv("LOCPATH", dir.c_str(), 1);
	for (auto& l : locs)
	{
		locale_t t = newlocale(LC_ALL_MASK, l.name, (locale_t)0);
		if (!t || !setlocale(LC_ALL, l.name)) { fprintf(stderr, "locale %s is not usable\n", l.name); _exit(3); }
		threadLocales.push_back(t);
	}
	setlocale(LC_ALL, "C");
}

struct Grouping : std::numpunct<char>
{
	char do_decimal_point() const override { return ','; }
	char do_thousands_sep() const override { return '.'; }
	std::string do_grouping() const override { return "\3"; }
};

// The locale in force for as long as this lives.
struct Under
{
	int how;
	Under(size_t l, int h) : how(h)
	{
		if ((how & 1) && !setlocale(LC_ALL, names()[l].c_str())) { fprintf(stderr, "setlocale failed\n"); _exit(3); }
		if (how & 2) uselocale(threadLocales[l]);
		if (how & 4) std::locale::global(std::locale(std::locale::classic(), new Grouping));
	}
	~Under()
	{
		if (how & 4) std::locale::global(std::locale::classic());
		if (how & 2) uselocale(LC_GLOBAL_LOCALE);
		if (how & 1) setlocale(LC_ALL, "C");
	}
	static const std::vector<S>& names() { static std::vector<S> v; if (v.empty()) for (auto& l : locs) v.push_back(l.name); return v; }
};

static S recase(Rng& r, S t)
{
	// names: from the start of a line to the colon
	bool name = true;
	for (size_t i = 0; i < t.size(); ++i)
	{
		char& c = t[i];
		if (c == '\n') name = true;
		else if (c == ':') name = false;
		else if (name && ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) && r.chance(1, 3)) c ^= 0x20;
		else if (name && r.chance(1, 60)) c = (char)(0x80 + r.below(0x80));
	}
	return t;
}

// Options whose header lists are edited in another letter case, used to sign; the result is verified again.
static S options(uint64_t seed)
{
	Rng r(seed);
	gen::Message m = gen::message(r, true);
	gen::Cfg cfg = gen::config(r, m);
	dk::KeyHold hold;
	entry::Seen s;
	DKIM::SignatoryOptions o;
	auto other = [&](S n) { for (char& c : n) if (((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) && r.chance(1, 2)) c ^= 0x20; return n; };
	S text = recase(r, m.text(&r, (int)r.below(3)));
	entry::add(s, dk::call([&] {
		dk::apply(cfg, o, hold);
		std::list<S> del;
		for (auto& h : o.GetHeaders()) if (r.chance(1, 4)) del.push_back(other(h));
		std::list<S> add = { other("List-Id"), other("X-Originating-IP"), "\xc4\xb0nfo", "\xdd\xee" };
		o.AddHeaders(add);
		o.DelHeaders(del);
		if (r.chance(1, 3)) o.SetOversignHeaders({ other("from"), other("mime-version") });
	}));
	for (auto& h : o.GetHeaders()) entry::add(s, h);
	S sig;
	entry::add(s, dk::call([&] { sig = dk::sign(text, o); }));
	entry::add(s, sig);
	if (sig.empty()) return s.text;
	dk::Dns d = dk::zoneFor(cfg);
	for (auto& v : dk::verifyText(recase(r, sig) + "\r\n" + text, cfg.arc != 0, d)) entry::add(s, v);
	return s.text;
}

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	size_t l = r.chance(1, 2) ? r.below(2) : r.below(sizeof locs / sizeof *locs);
	static const int hows[] = { 1, 1, 1, 2, 4, 5, 6, 7 };
	int how = hows[r.below(8)];
	S where = Under::names()[l] + (how & 1 ? " process" : "") + (how & 2 ? " thread" : "") + (how & 4 ? " digit grouping" : "");
	c.state(where);
	c.ev("locale: " + where);
	S want, got, what;
	if (r.chance(1, 4))
	{
		uint64_t seed = r.next();
		what = "options";
		want = options(seed);
		{ Under u(l, how); got = options(seed); }
		c.nontrivial(want);
	}
	else
	{
		entry::Input in = hostile::any(r);
		if (r.chance(2, 3)) in.a = recase(r, in.a);
		if (in.which == entry::VALUES || in.which == entry::NAMES || in.which == entry::SIGN) in.b = recase(r, in.b);
		if (r.chance(1, 4)) { S t = r.pick({ "I", "i", "\xdd", "\xfd", "\xa0", "\x85", "\xc4\xb1", "\x9a", "FROM", "MIME-Version" }); in.a.insert(r.below(in.a.size() + 1), t); }
		what = S(entry::name(in.which)) + " " + quote(in.a, 3000) + " / " + quote(in.b, 500);
		want = entry::run(in).text;
		{ Under u(l, how); got = entry::run(in).text; }
		c.ev(S("entry: ") + entry::name(in.which));
		if (want.find("[ok]") != S::npos || want.find("[pass]") != S::npos) c.nontrivial(what);
	}
	c.check(got == want, "locale-changes-result", [&] { return where + "\n" + what + "\nthere     " + quote(got, 3000) + "\nin the C locale " + quote(want, 3000); });
	c.ev("results compared");
	c.sample(where + ": " + what.substr(0, 200));
}
