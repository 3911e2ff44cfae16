// C30: the command-line tool, run as a process.
#include "dk.hpp"
#include "dnspkt.hpp"
#include "keys.hpp"
#include "sigtext.hpp"
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"The sanitized tool is run as a process on generated message files, key files, DNS zones (interposed resolver) and option spellings (short, "
	"long, joined, separate, any order). Validate mode: the lines and their number must be those of the reference's verdicts; sign mode: the "
	"printed field must verify by the reference and name what was asked for; unusable input: exit status and no signature. "
	"Non-trivial: distinct (arguments, files) runs.";
uint64_t mon::cases(bool th) { return th ? 40000 : 1600; }
unsigned mon::cpu_limit() { return 60; }

static S dir, toolPath;

void mon::begin(Ctx&)
{
	const char* w = getenv("MON_WORK");
	const char* t = getenv("TOOL");
	if (!w || !t) { fprintf(stderr, "MON_WORK and TOOL must be set\n"); exit(3); }
	toolPath = t;
	ref::exactClock = true;
	dir = S(w) + "/tool." + std::to_string(getpid());
	mkdir(dir.c_str(), 0700);
	mkdir((dir + "/adir").c_str(), 0700);
}

static void put(const S& name, const S& content)
{
	S p = dir + "/" + name;
	FILE* f = fopen(p.c_str(), "w");
	if (!f || fwrite(content.data(), 1, content.size(), f) != content.size()) { fprintf(stderr, "cannot write %s\n", p.c_str()); exit(3); }
	fclose(f);
}

static S get(const S& name)
{
	S p = dir + "/" + name, r;
	FILE* f = fopen(p.c_str(), "r");
	if (!f) { fprintf(stderr, "cannot read %s\n", p.c_str()); exit(3); }
	char b[65536];
	for (size_t n; (n = fread(b, 1, sizeof b, f)) > 0;) r.append(b, n);
	fclose(f);
	return r;
}

static const long NOW = 1795000000;

struct Run { int status = 0; bool signalled = false; S out, err, cmd; };

static Run runTool(Ctx& c, const std::vector<S>& args)
{
	Run r;
	std::vector<char*> av;
	av.push_back((char*)"dkimtool");
	for (auto& a : args) { av.push_back((char*)a.c_str()); r.cmd += " " + quote(a, 300); }
	av.push_back(nullptr);
	S out = dir + "/stdout", err = dir + "/stderr", zone = dir + "/zone";
	setenv("TOOL_ZONE", zone.c_str(), 1);
	setenv("TOOL_TIME", std::to_string(NOW).c_str(), 1);
	pid_t p = fork();
	if (p < 0) { fprintf(stderr, "fork failed\n"); exit(3); }
	if (p == 0)
	{
		int n = open("/dev/null", O_RDONLY), o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		dup2(n, 0); dup2(o, 1); dup2(e, 2);
		rlimit rl = { 20, 25 };
		setrlimit(RLIMIT_CPU, &rl);
		if (chdir(dir.c_str()) != 0) _exit(125);
		execv(toolPath.c_str(), av.data());
		_exit(125);
	}
	int st = 0;
	while (waitpid(p, &st, 0) < 0) {}
	r.signalled = WIFSIGNALED(st);
	r.status = r.signalled ? WTERMSIG(st) : WEXITSTATUS(st);
	if (!r.signalled && r.status == 125) { fprintf(stderr, "could not run the tool\n"); exit(3); }
	r.out = get("stdout");
	r.err = get("stderr");
	c.ev("runs of the tool");
	c.check(!r.signalled && r.status != 98, "tool-crash", [&] { return (r.signalled ? "signal " : "exit ") + std::to_string(r.status) + " of" + r.cmd + "\n" + r.err.substr(0, 6000); });
	return r;
}

// an option in one of its spellings
static void opt(Rng& r, std::vector<std::vector<S>>& o, char sh, const S& lg, const S* value)
{
	if (!value) { o.push_back({ r.chance(1, 2) ? S("-") + sh : "--" + lg }); return; }
	switch (r.below(4))
	{
		case 0: o.push_back({ S("-") + sh, *value }); break;
		case 1: if (!value->empty()) { o.push_back({ S("-") + sh + *value }); break; }	// fall through
		case 2: o.push_back({ "--" + lg, *value }); break;
		default: o.push_back({ "--" + lg + "=" + *value });
	}
}

static std::vector<S> flat(Rng& r, std::vector<std::vector<S>> o, const std::vector<S>& files)
{
	r.shuffle(o);
	std::vector<S> a;
	for (auto& x : o) a.insert(a.end(), x.begin(), x.end());
	bool dash = r.chance(1, 8);
	for (auto& f : files) if (f[0] == '-') dash = true;
	if (dash) a.push_back("--");
	a.insert(a.end(), files.begin(), files.end());
	return a;
}

static bool hasSignature(const S& out)
{
	S l = ref::lower(out);
	return l.find("dkim-signature") != S::npos || l.find("arc-message-signature") != S::npos;
}

static S fileName(Rng& r, size_t i)
{
	S n = r.pick({ "m", "a b", "x%s%n", "-v", "--help", "\xc3\xa4", "OK", "]["});
	return n + std::to_string(i) + (r.chance(1, 2) ? ".eml" : "");
}

// ---------------------------------------------------------------- signing

static S keyText(Rng& r, const ref::Key& k, bool& usable)
{
	usable = true;
	if (k.kind == ref::RSA_KEY)
		switch (r.below(4))
		{
			case 0: return k.pem1;
			case 1: return k.der64;
			case 2: return k.der64 + "\n";
			default: return k.pem + (r.chance(1, 4) ? "\n" : "");
		}
	switch (r.below(6))
	{
		case 0: return k.seed;
		case 1: return k.sk;
		case 2: return ref::b64(k.sk);
		case 3: return ref::b64(k.sk) + "\n";
		case 4: return ref::b64(k.seed) + "\n";
		default: return ref::b64(k.seed);
	}
}

static S badKey(Rng& r, bool rsa)
{
	switch (r.below(8))
	{
		case 0: return "";
		case 7: { S k = ref::edKey(0).seed + ref::edKey(1).sk.substr(32); return r.chance(1, 2) ? k : ref::b64(k); }	// halves of two keys
		case 1: return r.bytes(r.below(30));	// neither 32 nor 64 bytes
		case 2: return keys::ec256;
		case 3: return "-----BEGIN PUBLIC KEY-----\n" + ref::rsaKeys()[0]->pub64 + "\n-----END PUBLIC KEY-----\n";
		case 4: return rsa ? ref::b64(ref::edKey(0).seed) : ref::rsaKeys()[0]->pem;
		case 5: { S p = ref::rsaKeys()[0]->pem; return p.substr(0, p.size() / 2); }
		default: return ref::b64(r.bytes(10 + r.below(11)));	// shorter than 32 characters
	}
}

static void signMode(Ctx& c)
{
	Rng& r = c.r;
	gen::Message m = gen::message(r, true, r.chance(1, 60));
	S text = m.text(&r, (int)r.below(3));
	bool rsa = r.chance(1, 2);
	const ref::Key& k = rsa ? *ref::rsaKeys()[r.below(2)] : ref::edKey((unsigned)r.below(8));
	S d = gen::caseMix(r, gen::domain(r)), s = gen::domain(r);
	unsigned long arc = r.chance(1, 3) ? 1 + r.below(50) : 0;
	bool usable = true;
	S key = keyText(r, k, usable), keyFile = r.chance(1, 2) ? "key.pem" : "k %d", msg = fileName(r, 0);
	std::vector<std::vector<S>> o;
	S type = rsa ? "rsa" : "ed25519";
	bool missing = false, bad = false;
	S why;
	unsigned what = (unsigned)r.below(12);
	if (what == 1) { key = badKey(r, rsa); bad = true; why = "unusable key"; }
	if (what == 2) { d = r.pick({ "a b.example", "a;b.example", "a..example", "exa\tmple", "a:b/c" }); bad = true; why = "unusable domain"; }
	if (what == 3) { bad = true; why = "message not readable"; }
	if (what == 4) { bad = true; why = "key file not readable"; }
	if (what == 5) { bad = true; missing = true; why = "option missing"; }
	if (what == 6) { bad = true; why = "unknown option"; }
	put(keyFile, key);
	put(msg, text);
	put("zone", "");
	S keyArg = r.chance(1, 3) ? dir + "/" + keyFile : keyFile, msgArg = r.chance(1, 3) ? dir + "/" + msg : msg;
	if (what == 3) msgArg = r.chance(1, 2) ? "nothing-here" : "adir";
	if (what == 4) keyArg = r.chance(1, 2) ? "nothing-here" : "adir";
	unsigned leave = missing ? (unsigned)r.below(4) : 9;
	bool empty = missing && r.chance(1, 3);
	S none;
	if (leave != 0 || empty) opt(r, o, 's', "selector", leave == 0 ? &none : &s);
	if (leave != 1 || empty) opt(r, o, 'd', "domain", leave == 1 ? &none : &d);
	if (leave != 2 || empty) opt(r, o, 'k', "keyfile", leave == 2 ? &none : &keyArg);
	if (!rsa || r.chance(1, 2)) opt(r, o, 'K', "keytype", &type);
	S as = S(r.chance(1, 4) ? 1 + r.below(3) : 0, '0') + std::to_string(arc);
	if (arc) opt(r, o, 'A', "arcinstance", &as);
	if (arc && r.chance(1, 3)) opt(r, o, 'a', "arc", nullptr);
	if (what == 6) o.push_back({ r.pick({ "-z", "--unknown", "-q", "--domains=x" }) });
	std::vector<S> files = { msgArg };
	if (leave == 3) files.clear();
	Run t = runTool(c, flat(r, o, files));
	auto ctx = [&] { return "dkimtool" + t.cmd + "\nexit " + std::to_string(t.status) + "\nstdout " + quote(t.out, 2000) + "\nstderr " + quote(t.err, 500) + "\nmessage " + quote(text, 3000); };
	c.nontrivial(t.cmd + text);
	if (bad)
	{
		c.check(t.status != 0, "failure-reported-as-success", [&] { return why + "\n" + ctx(); });
		c.check(!hasSignature(t.out), "signature-in-spite-of-failure", [&] { return why + "\n" + ctx(); });
		c.ev("refused: " + why);
		return;
	}
	c.check(t.status == 0, "signing-failed", ctx);
	c.check(t.out.size() > 2 && t.out.compare(t.out.size() - 2, 2, "\r\n") == 0, "field-not-terminated", ctx);
	ref::Msg om = ref::parse(t.out);
	c.check(om.f.size() == 1 && om.body == -1 && om.f[0].raw + "\r\n" == t.out, "not-exactly-one-field", ctx);
	c.check(ref::iequal(om.f[0].name, arc ? "ARC-Message-Signature" : "DKIM-Signature"), "field-name", ctx);
	ref::Sig sg = ref::parseSig(om.f[0], NOW);
	c.check(sg.ok && !sg.unspec, "malformed-field", [&] { return sg.why + "\n" + ctx(); });
	c.check(ref::iequal(sg.d, d) && sg.s == s, "domain-or-selector", ctx);
	c.check(sg.relH && sg.relB, "not-relaxed", ctx);
	c.check(sg.rsa == rsa, "key-type", ctx);
	c.check(!arc || sg.inst == arc, "arc-instance", ctx);
	bool unspec = false;
	auto v = ref::verdict(t.out + text, 0, NOW, 0, k.record(), unspec);
	c.check(!unspec && v.size() == 1 && *v.begin() == "pass", "field-does-not-verify", [&] { return *v.begin() + "\n" + ctx(); });
	c.ev(S("fields signed, ") + (arc ? "arc " : "dkim ") + type);
	c.state(S("sign") + type + (arc ? "arc" : ""));
	if (c.idx < 20) c.sample(ctx().substr(0, 900));
	if (r.chance(1, 4))
	{
		// and its own validate mode agrees
		put("signed.eml", t.out + text);
		put("zone", s + "._domainkey." + d + " " + hex(dnspkt::build(r, dnspkt::reply(r, s + "._domainkey." + d, k.record()))) + "\n");
		std::vector<std::vector<S>> vo;
		opt(r, vo, 'v', "validate", nullptr);
		if (arc) opt(r, vo, 'a', "arc", nullptr);
		Run w = runTool(c, flat(r, vo, { "signed.eml" }));
		S want = "[signed.eml][" + ref::lower(d) + "][" + s + "] OK\n";
		c.check(w.status == 0 && ref::lower(w.out).find(ref::lower(want)) == 0, "own-field-not-validated", [&] { return ctx() + "\n" + w.cmd + "\n" + w.out + "\nwant " + want; });
		c.ev("signed and validated");
	}
}

// ---------------------------------------------------------------- validating

struct File { S name, text; bool readable = true; };
struct Rec { int lookup; S text; };

static File someFile(Rng& r, size_t i, bool arc, std::map<S, Rec>& zone)
{
	File f;
	f.name = fileName(r, i);
	gen::Message m = gen::message(r, true, r.chance(1, 80));
	for (size_t n = r.below(4); n; --n)
	{
		gen::SignSpec s = gen::signSpec(r, m);
		if (s.key->kind == ref::RSA_KEY) s.key = ref::rsaKeys()[r.below(2)];
		if (arc != (s.arc > 0) && r.chance(5, 6)) s.arc = arc ? 1 + (unsigned)r.below(9) : 0;
		if (r.chance(1, 6)) s.x = std::to_string(NOW + r.range(-2, 2));
		if (s.arc) { s.hasI = false; }
		S name = ref::lower(s.s + "._domainkey." + s.d);
		if (zone.count(name)) continue;
		gen::signInto(r, m, r.below(m.fields.size() + 1), s);
		Rec z{ 0, gen::recordFor(r, *s.key) };
		switch (r.below(9))
		{
			case 0: z.text = S("v=DKIM1; t=y; k=") + (s.key->kind == ref::RSA_KEY ? "rsa" : "ed25519") + "; p=" + s.key->pub64; break;
			case 1:
			{
				const ref::Key& o = s.key->kind == ref::RSA_KEY ? *ref::rsaKeys()[2 + r.below(2)] : ref::edKey((unsigned)r.below(8));
				z.text = S("v=DKIM1; ") + (r.chance(1, 2) ? "t=y:s; " : "t=x : y; ") + "k=" + (o.kind == ref::RSA_KEY ? "rsa" : "ed25519") + "; p=" + o.pub64;
				break;
			}
			case 2: z.text = S("v=DKIM1; t=y") + (r.chance(1, 2) ? "; p=" : "; h=sha384; p=" + s.key->pub64); break;
			case 3: z.lookup = 1; break;
			case 4: z.lookup = 2; break;
			case 5: z.text = gen::mutateBytes(r, z.text, 1); break;
			case 6:
			{
				// a record that tries to write a line of its own
				S line = r.pick({ "\n", "\r\n", "\r" }) + S("[") + f.name + "][" + ref::lower(s.d) + "][" + s.s + "] OK" + r.pick({ "\n", "\r\n", "" }) + "x";
				z.text = r.pick({ "v=DKIM1; k=", "v=", "v=DKIM1; h=", "k=rsa; s=", "k=rsa; t=y; p=" }) + line + "; p=" + s.key->pub64;
				break;
			}
			default: break;
		}
		zone[name] = z;
	}
	if (r.chance(1, 4))
	{
		sigtext::Tags t = sigtext::tags(r, arc, gen::domain(r));
		if (r.chance(1, 2) && !t.empty()) t.erase(t.begin() + (long)r.below(t.size()));
		r.shuffle(t);
		S x = sigtext::layout(r, arc ? "ARC-Message-Signature" : "DKIM-Signature", t);
		m.fields.insert(m.fields.begin() + (long)r.below(m.fields.size() + 1), x);
	}
	if (r.chance(1, 4)) m.body = gen::mutateBytes(r, m.body.empty() ? S("x\r\n") : m.body, 1);
	if (r.chance(1, 6) && !m.fields.empty())
	{
		// lines that look like output
		m.fields.insert(m.fields.begin(), S("DKIM-Signature: v=1; d=x.example; s=\n [") + f.name + "][x.example][s] OK\n ; t=[" + f.name + "] OK");
	}
	f.text = m.text(&r, r.chance(1, 2) ? 0 : (int)r.below(3));
	if (r.chance(1, 10)) f.text = gen::mutateBytes(r, f.text, 1);
	return f;
}

static void validateMode(Ctx& c)
{
	Rng& r = c.r;
	bool arc = r.chance(1, 3);
	std::map<S, Rec> zone;
	std::vector<File> files;
	for (size_t n = 1 + r.below(4), i = 0; i < n; ++i)
	{
		files.push_back(someFile(r, i, arc, zone));
		if (r.chance(1, 12)) { files.back().readable = false; files.back().name = r.chance(1, 2) ? "nothing-here" : "adir"; }
		else put(files.back().name, files.back().text);
		if (r.chance(1, 10)) files.push_back(files[r.below(files.size())]);
	}
	S z;
	for (auto& e : zone)
		z += e.first + " " + (e.second.lookup == 1 ? "!again" : e.second.lookup == 2 ? r.pick({ "!nx", "!nodata" }) : hex(dnspkt::build(r, dnspkt::reply(r, e.first, e.second.text)))) + "\n";
	put("zone", z);
	std::vector<std::vector<S>> o;
	if (arc && r.chance(1, 3)) o.push_back({ r.pick({ "-av", "-va" }) });
	else
	{
		opt(r, o, 'v', "validate", nullptr);
		if (arc) opt(r, o, 'a', "arc", nullptr);
	}
	std::vector<S> names;
	for (auto& f : files) names.push_back(f.name);
	Run t = runTool(c, flat(r, o, names));
	std::vector<S> lines;
	for (size_t i = 0; i < t.out.size();)
	{
		size_t e = t.out.find('\n', i);
		if (e == S::npos) { lines.push_back(t.out.substr(i) + "<unterminated>"); break; }
		lines.push_back(t.out.substr(i, e - i));
		i = e + 1;
	}
	S want;		// for the report
	auto ctx = [&] {
		S s = "dkimtool" + t.cmd + "\nexit " + std::to_string(t.status) + "\nstdout:\n" + t.out.substr(0, 3000) + "\nstderr " + quote(t.err, 500) + "\nexpected:\n" + want;
		for (auto& f : files) s += "file " + f.name + ": " + (f.readable ? quote(f.text, 3000) : "not readable") + "\n";
		for (auto& e : zone) s += "zone " + e.first + " " + std::to_string(e.second.lookup) + " " + quote(e.second.text, 800) + "\n";
		return s;
	};
	c.check(t.out.find('\r') == S::npos, "carriage-return-in-output", ctx);
	size_t at = 0;
	bool unreadable = false, allGood = true;
	for (auto& f : files)
	{
		if (!f.readable) { unreadable = true; c.ev("unreadable files"); continue; }
		ref::Msg m = ref::parse(f.text);
		size_t nth = 0;
		for (size_t i = 0; i < m.f.size(); ++i)
		{
			if (!ref::iequal(m.f[i].name, arc ? "arc-message-signature" : "dkim-signature")) continue;
			++nth;
			ref::Sig s = ref::parseSig(m.f[i], NOW);
			auto e = zone.find(ref::lower(s.s + "._domainkey." + s.d));
			int lookup = e == zone.end() ? 2 : e->second.lookup;
			S rec = e == zone.end() ? S() : e->second.text;
			if (lookup == 0 && rec.empty()) lookup = 2;
			bool unspec = false;
			std::set<S> v = ref::verdict(f.text, i, NOW, lookup, rec, unspec);
			S vs;
			for (auto& x : v) vs += x + " ";
			want += f.name + " " + s.d + " " + s.s + ": " + vs + (unspec ? "(open)" : "") + s.why + "\n";
			c.check(at < lines.size(), "line-missing", ctx);
			S l = lines[at++];
			S head = "[" + f.name + "]";
			c.check(l.compare(0, head.size(), head) == 0, "file-name", [&] { return l + "\n" + ctx(); });
			l.erase(0, head.size());
			// the rest of the heading
			S cls;
			bool parsed = s.ok && !s.unspec;
			S rest;
			if (parsed)
			{
				// white space within a value may be shown in another way
				S h1 = "[" + ref::noWs(s.d) + "][", h2 = ref::noWs(s.s) + "]";
				size_t at1 = 0, k = 0;
				for (S h = h1 + h2; k < h.size() && at1 < l.size(); ++at1)
				{
					if (ref::lwsp(l[at1])) continue;
					if (l[at1] != h[k] && (k >= h1.size() || !ref::iequal(S(1, l[at1]), S(1, h[k])))) break;
					++k;
				}
				c.check(k == h1.size() + h2.size(), "domain-or-selector-in-line", [&] { return "want " + h1 + h2 + " in " + l + "\n" + ctx(); });
				rest = l.substr(at1);
			}
			else
			{
				if (l.size() > 3 && l.compare(l.size() - 3, 3, " OK") == 0 && l.find("](") == S::npos) rest = " OK";
				else for (const char* k : { "](permerror)", "](fail)", "](temperror)" }) if (l.find(k) != S::npos && rest.empty()) rest = l.substr(l.find(k) + 1);
			}
			bool soft = false, temp = false;
			if (rest == " OK") cls = "pass";
			else if (!rest.empty() && rest[0] == '(')
			{
				size_t p = rest.find(')');
				cls = p == S::npos ? rest : rest.substr(1, p - 1);
				S tail = p == S::npos ? S() : rest.substr(p + 1);
				soft = tail.compare(0, 6, " SOFT:") == 0;
				temp = tail.compare(0, 9, " TEMPERR:") == 0;
				c.check(soft || temp || tail.compare(0, 2, " =") == 0, "unknown-line-form", [&] { return lines[at - 1] + "\n" + ctx(); });
			}
			else c.fail("unknown-line-form", lines[at - 1] + "\n" + ctx());
			c.check(cls == "pass" || cls == "fail" || cls == "permerror" || cls == "temperror", "unknown-class", [&] { return lines[at - 1] + "\n" + ctx(); });
			c.check(temp == (cls == "temperror"), "temperr-mark", [&] { return lines[at - 1] + "\n" + ctx(); });
			if (cls != "pass") allGood = false;
			if (unspec) { c.ev("left open by the rules"); continue; }
			c.check(v.count(cls) > 0, ("line-says-" + cls + "-instead-of-" + *v.begin()).c_str(), [&] { return lines[at - 1] + "\n" + ctx(); });
			if (parsed && (cls == "fail" || cls == "permerror"))
			{
				ref::Record k = ref::parseRecord(rec);
				bool fetched = !s.xbad && !s.expired && lookup == 0;
				S cb = ref::canonBody(ref::bodyOf(f.text, m), s.relB);
				if (s.hasL && s.l <= cb.size()) cb.resize(s.l);
				// a body that does not match fails before, or after, there is a key;
				// a record that is refused is no key: then the mark is left open
				if (ref::sha(s.sha256, cb) != s.bh) c.check(!soft || (fetched && k.y), "soft-without-testing-key", [&] { return lines[at - 1] + "\n" + ctx(); });
				else if (!fetched) c.check(!soft, "soft-without-key", [&] { return lines[at - 1] + "\n" + ctx(); });
				else if (k.ok && !k.unspec && (k.anyHash || k.sha1 || k.sha256)) { c.check(soft == k.y, "soft-mark", [&] { return lines[at - 1] + "\n" + ctx(); }); c.ev(k.y ? "failures in testing mode" : "failures, not testing"); }
			}
			c.ev("lines: " + cls);
			c.state(cls + (soft ? "soft" : "") + (arc ? "arc" : "") + std::to_string(nth));
		}
	}
	c.check(at == lines.size(), "more-lines-than-signatures", [&] { return std::to_string(lines.size()) + " lines, " + std::to_string(at) + " signatures\n" + ctx(); });
	if (unreadable) c.check(t.status != 0, "unreadable-file-not-reported", ctx);
	else if (allGood) c.check(t.status == 0, "exit-status", ctx);
	c.nontrivial(t.cmd + z + files[0].text);
	if (c.idx < 20) c.sample("dkimtool" + t.cmd + " -> " + quote(t.out, 600));
}

// ---------------------------------------------------------------- usage

static void usageMode(Ctx& c)
{
	Rng& r = c.r;
	put("m.eml", "From: a@b\r\n\r\nx\r\n");
	put("zone", "");
	std::vector<S> a;
	bool help = false;
	switch (r.below(7))
	{
		case 0: break;
		case 1: help = true; a = { r.chance(1, 2) ? "-h" : "--help" }; if (r.chance(1, 2)) a.push_back("m.eml"); if (r.chance(1, 3)) a.insert(a.begin(), "-v"); break;
		case 2: a = { r.chance(1, 2) ? "-v" : "--validate" }; break;
		case 3: a = { "m.eml" }; break;
		case 4: a = { "-v", r.pick({ "-x", "-Z", "--nothing", "--sel3ctor=a", "-?" }), "m.eml" }; break;
		case 5: a = { "-v", "m.eml", r.pick({ "-d", "--domain", "-s", "--selector", "-k", "--keyfile", "-K", "--keytype", "-A", "--arcinstance" }) }; break;
		default: a = { r.pick({ "--validate=yes", "--arc=1", "--help=me" }), "m.eml" }; break;
	}
	Run t = runTool(c, a);
	auto ctx = [&] { return "dkimtool" + t.cmd + "\nexit " + std::to_string(t.status) + "\nstdout " + quote(t.out, 500) + "\nstderr " + quote(t.err, 500); };
	if (help) c.check(t.status == 0 && !t.out.empty(), "no-help", ctx);
	else c.check(t.status != 0, "misuse-not-reported", ctx);
	c.check(t.out.find("] OK\n") == S::npos, "verdict-without-validation", ctx);
	c.ev(help ? "help" : "misuse");
	c.nontrivial(t.cmd);
}

void mon::run(Ctx& c)
{
	unsigned k = (unsigned)c.r.below(20);
	if (k == 0) usageMode(c);
	else if (k < 9) signMode(c);
	else validateMode(c);
}
