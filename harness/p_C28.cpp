// C28: results do not depend on what happened before.
#include "frozen.hpp"
#include "hostile.hpp"
#include "streams.hpp"
#include <cerrno>
#include <openssl/err.h>
#include <sys/wait.h>
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Histories: a signer and a verifier used again and again (disturbed stream position and state, other objects on the same stream, reused result objects), "
	"parsers used again, operations behind arbitrary others with errno and OpenSSL's error queue polluted, and "
	"operations behind others on an input of the same length that differs in one or two bytes. Every result must be that of fresh objects; "
	"for the last two kinds, of a process in which nothing else has run. Non-trivial: distinct histories.";
uint64_t mon::cases(bool th) { return th ? 400000 : 8000; }

// --- results in a clean process ---
static int toZ = -1, fromZ = -1;

static void put(int fd, const S& s)
{
	uint32_t n = (uint32_t)s.size();
	S m((char*)&n, 4);
	m += s;
	for (size_t o = 0; o < m.size();) { ssize_t k = write(fd, m.data() + o, m.size() - o); if (k <= 0) _exit(3); o += (size_t)k; }
}

static bool get(int fd, S& s)
{
	auto all = [&](char* p, size_t n) { for (size_t o = 0; o < n;) { ssize_t k = read(fd, p + o, n - o); if (k <= 0) return false; o += (size_t)k; } return true; };
	uint32_t n;
	if (!all((char*)&n, 4)) return false;
	s.resize(n);
	return n == 0 || all(&s[0], n);
}

void mon::begin(Ctx&)
{
	int a[2], b[2];
	if (pipe(a) || pipe(b)) { perror("pipe"); _exit(3); }
	pid_t p = fork();
	if (p < 0) { perror("fork"); _exit(3); }
	if (p == 0)
	{
		close(a[1]);
		close(b[0]);
		S req;
		while (get(a[0], req))
		{
			pid_t k = fork();
			if (k < 0) _exit(3);
			if (k == 0)
			{
				alarm(60);
				put(b[1], entry::run(entry::unpack(req)).text);
				_exit(0);
			}
			int st = 0;
			waitpid(k, &st, 0);
			if (!WIFEXITED(st) || WEXITSTATUS(st)) put(b[1], "the operation ended the process");
		}
		_exit(0);
	}
	close(a[0]);
	close(b[1]);
	toZ = a[1];
	fromZ = b[0];
}

static S clean(const entry::Input& in)
{
	put(toZ, entry::pack(in));
	S out;
	if (!get(fromZ, out)) { fprintf(stderr, "the clean process is gone\n"); _exit(3); }
	return out;
}

static void pollute(Rng& r)
{
	errno = r.chance(1, 2) ? ERANGE : (int)r.below(40);
	if (r.chance(1, 2)) ERR_raise(ERR_LIB_RSA, 1 + (int)r.below(20));
}

static entry::Input variant(Rng& r, entry::Input in)
{
	switch (r.below(5))
	{
		case 0: in.a = hostile::damage(r, in.a); break;
		case 1: in.b = hostile::damage(r, in.b); break;
		case 2: in.b = r.chance(1, 2) ? hostile::record(r, r.chance(1, 2)) : S(); break;
		case 3: if (!in.a.empty()) { size_t p = r.below(in.a.size()); in.a[p] = (char)(in.a[p] ^ (1 << r.below(3))); } break;
		default: in.opt ^= 1u << r.below(8);
	}
	return in;
}

static void process(Ctx& c)
{
	Rng& r = c.r;
	entry::Input x;
	do x = hostile::any(r); while (x.a.size() > 60000);
	S hist;
	for (size_t n = r.below(4); n; --n)
	{
		entry::Input y = r.chance(1, 2) ? variant(r, x) : hostile::any(r);
		entry::run(y);
		hist += S(" ") + entry::name(y.which);
		if (r.chance(1, 3)) pollute(r);
	}
	S want = clean(x);
	for (int k = 0; k < 2; ++k)
	{
		if (r.chance(1, 2)) pollute(r);
		S got = entry::run(x).text;
		c.check(got == want, "differs-from-clean-process", [&] {
			return S(entry::name(x.which)) + " opt " + std::to_string(x.opt) + (k ? " (repeated)" : "") + " behind" + hist + "\na " + quote(x.a, 2500) + "\nb " + quote(x.b, 1500) + "\ngot   " + quote(got, 1500) + "\nclean " + quote(want, 1500); });
		c.ev("results compared with a clean process");
	}
	ERR_clear_error();
	c.ev(S("entry: ") + entry::name(x.which));
	c.nontrivial(entry::pack(x) + hist);
}

// Inputs of the same length that differ in one place only, one behind the other.
static void twins(Ctx& c)
{
	Rng& r = c.r;
	using namespace entry;
	entry::Input x;
	do x = hostile::any(r); while (x.a.size() > 60000);
	auto grow = [&](const S& unit) { S s; for (size_t n = 1 + r.below(40); n; --n) s += unit + r.from("abcdefghijklmnop0123456789", 1 + r.below(30)); return s; };
	if (r.chance(3, 4))
		switch (x.which)
		{
			case CANON_HEADER: x.a = gen::fieldName(r) + ":" + grow(r.pick({ " ", "  ", "\r\n ", "\t" })); break;
			case CANON_BODY: x.a = grow(r.pick({ " ", "\r\n", "\r\n\r\n", " \r\n" })); x.b = r.chance(1, 2) ? S() : x.b; break;
			case WORDS: x.a = grow(r.pick({ " ", "=?utf-8?Q?a_b?= ", "=?utf-8?B?YWJj?=\r\n " })); break;
			case QP: x.a = grow(r.pick({ "=20", "=\r\n", "_", " " })); break;
			case BASE64: case ENCODE: x.a = grow(""); break;
			case TAGS: x.a = "v=DKIM1; p=" + grow(""); x.b = "p"; break;
			case VALUES: x.a = "a" + grow(":"); break;
			case ADDRESSES: x.a = "x@y.z" + grow(", a@"); break;
			case MESSAGE: x.a = "X: y" + grow("\r\nX: ") + "\r\n\r\n" + grow("\r\n"); break;
			case SIGN: x.a = "From: a@b.c" + grow("\r\nSubject: ") + "\r\n\r\n" + grow("\r\n"); break;
			default: break;
		}
	bool second = !x.b.empty() && r.chance(1, 4);
	entry::Input y = x;
	S& t = second ? y.b : y.a;
	if (t.empty()) return;
	for (size_t n = r.chance(2, 3) ? 1 : 2; n; --n)
	{
		size_t p = r.chance(1, 3) ? t.size() - 1 - r.below(std::min<size_t>(t.size(), 30)) : r.below(t.size());
		// preferably one that leaves the input as well formed as it was
		for (size_t k = 0; k < t.size() && !isalnum((unsigned char)t[p]); ++k) p = (p + 1) % t.size();
		t[p] = r.chance(9, 10) ? r.from("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOP0123456789", 1)[0] : (char)r.next();
	}
	S cx = clean(x), cy = clean(y);
	for (int k = 0; k < 4; ++k)
	{
		const entry::Input& in = k & 1 ? y : x;
		S got = entry::run(in).text;
		const S& want = k & 1 ? cy : cx;
		c.check(got == want, "differs-behind-a-similar-input", [&] {
			return S(entry::name(x.which)) + " opt " + std::to_string(x.opt) + "\na " + quote(in.a, 2500) + "\nb " + quote(in.b, 1500) + "\nother a " + quote((k & 1 ? x : y).a, 2500) +
				"\ngot   " + quote(got, 1500) + "\nclean " + quote(want, 1500); });
		c.ev("results behind a similar input compared");
	}
	if (cx != cy) c.ev("similar inputs with different results");
	ERR_clear_error();
	c.ev(S("entry: ") + entry::name(x.which));
	c.nontrivial(entry::pack(x) + entry::pack(y));
}

// --- one object, many uses ---
static void disturb(Rng& r, std::iostream& s, size_t size)
{
	switch (r.below(6))
	{
		case 0: s.clear(); s.seekg((long)r.below(size + 1)); break;
		case 1: s.setstate(std::ios::failbit); break;
		case 2: { S x; s.clear(); std::getline(s, x, '\0'); break; }
		case 3: s.clear(); s.seekg(0, std::ios::end); s.get(); break;
		case 4: s.clear(); s.seekg(0); break;
		default: break;
	}
}

static void signer(Ctx& c)
{
	Rng& r = c.r;
	gen::Message m = gen::message(r, true);
	S text = m.text(&r, (int)r.below(3));
	if (r.chance(1, 3)) text = hostile::damage(r, text);
	if (r.chance(1, 8)) text = r.pick({ "\r\n", "\n", "", "\r\n\r\n" }) + (r.chance(1, 2) ? text : S());	// no header fields
	struct One { gen::Cfg cfg; dk::KeyHold hold; DKIM::SignatoryOptions o; S want; };
	std::vector<std::unique_ptr<One>> opts;
	for (size_t n = 1 + r.below(3); n; --n)
	{
		std::unique_ptr<One> o(new One);
		o->cfg = gen::config(r, m);
		if (r.chance(1, 6)) { o->cfg.hasL = true; o->cfg.l = 1u << 30; }	// refused
		dk::apply(o->cfg, o->o, o->hold);
		entry::Seen s;
		std::istringstream in(text);
		entry::signWith(s, in, o->o);
		o->want = s.text;
		opts.push_back(std::move(o));
	}
	std::stringstream in(text);
	DKIM::Signatory g(in);
	S hist;
	for (size_t n = 2 + r.below(4), k = 0; k < n; ++k)
	{
		One& o = *opts[r.below(opts.size())];
		if (k)
		{
			disturb(r, in, text.size());
			if (r.chance(1, 4))
			{
				// another object on the stream
				in.clear();
				in.seekg(0);
				hist += " other";
				if (r.chance(1, 2)) dk::call([&] { DKIM::Signatory h(in); h.CreateSignature(opts[0]->o); });
				else dk::call([&] { DKIM::Validatory v(in); for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i) { DKIM::Signature s; v.GetSignature(i, s); } });
			}
			if (r.chance(1, 4)) pollute(r);
		}
		entry::Seen s;
		S out;
		entry::add(s, dk::call([&] { out = g.CreateSignature(o.o); }));
		entry::add(s, out);
		hist += " sign";
		c.check(s.text == o.want, "repeated-signature-differs", [&] {
			return "use " + std::to_string(k + 1) + " of the signer (" + hist + ")\ngot   " + quote(s.text, 1500) + "\nfresh " + quote(o.want, 1500) + "\n" + o.cfg.str() + "\n" + quote(text, 3000); });
		c.ev("repeated signatures compared");
	}
	ERR_clear_error();
	c.nontrivial(text + hist);
	c.state("signer:" + hist);
}

static void verifier(Ctx& c)
{
	Rng& r = c.r;
	// up to three signatures with records of their own
	gen::Message m = gen::message(r, true);
	std::map<S, S> zone;
	bool arc = r.chance(1, 8);
	for (size_t n = 1 + r.below(3); n; --n)
	{
		gen::SignSpec s = gen::signSpec(r, m);
		bool rsa = r.chance(1, 2);
		s.key = rsa ? ref::rsaKeys()[r.below(2)] : &ref::edKey((unsigned)r.below(8));
		s.sha256 = !rsa || r.chance(1, 2);
		s.arc = arc ? 1 + (unsigned)r.below(50) : 0;
		if (arc) s.hasI = false;
		gen::signInto(r, m, r.below(m.fields.size() + 1), s);
		zone[s.s + "._domainkey." + ref::lower(s.d)] = r.chance(1, 8) ? hostile::record(r, rsa) : r.chance(1, 12) ? S("!") : gen::recordFor(r, *s.key);
	}
	if (r.chance(1, 6)) m.body += "x";
	S text = m.text(&r, (int)r.below(3));
	if (r.chance(1, 5)) text = hostile::damage(r, text);
	bool nest = false;
	auto resolver = [&](const S& n, S& out, void*) {
		// the callback may use the library itself
		auto inside = [&] { if (nest && r.chance(1, 8)) { entry::run(hostile::verification(r)); c.ev("verifications inside a lookup"); } };
		inside();
		auto i = zone.find(n);
		if (i == zone.end()) { if (r.chance(1, 2)) out.clear(); return true; }
		if (i->second == "!") return false;
		out = i->second;
		inside();
		return true;
	};
	auto type = arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM;

	// with fresh objects throughout
	struct Fresh { S sig, key, check, hash; };
	std::vector<Fresh> want;
	auto one = [&](DKIM::Validatory& v, const DKIM::Validatory::SignatureList::const_iterator& i, DKIM::Signature& sig, DKIM::PublicKey& pub) {
		Fresh f;
		entry::Seen s;
		dk::Out o = dk::call([&] { v.GetSignature(i, sig); });
		entry::add(s, o);
		entry::readSignature(s, sig);	// what is left behind by a refusal, too
		f.sig = s.text;
		if (!o.ok()) return f;
		s = entry::Seen();
		o = dk::call([&] { v.GetPublicKey(sig, pub); });
		entry::add(s, o);
		if (o.ok()) entry::readRecord(s, pub);
		f.key = s.text;
		f.hash = dk::call([&] { v.CheckBodyHash(sig); }).cls;
		if (o.ok()) f.check = dk::call([&] { v.CheckSignature(i, sig, pub); }).cls;
		return f;
	};
	{
		std::istringstream in(text);
		std::unique_ptr<DKIM::Validatory> v;
		if (!dk::call([&] { v.reset(new DKIM::Validatory(in, type)); }).ok()) { c.ev("messages refused"); return; }
		v->CustomDNSResolver = resolver;
		for (auto i = v->GetSignatures().begin(); i != v->GetSignatures().end(); ++i)
		{
			DKIM::Signature sig;
			DKIM::PublicKey pub;
			want.push_back(one(*v, i, sig, pub));
		}
	}
	std::stringstream in(text);
	DKIM::Validatory v(in, type);
	v.CustomDNSResolver = resolver;
	std::vector<DKIM::Validatory::SignatureList::const_iterator> its;
	for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i) its.push_back(i);
	c.check(its.size() == want.size(), "signatures-found-differ", [&] { return quote(text, 3000); });
	if (its.empty()) return;
	DKIM::Signature sig;
	DKIM::PublicKey pub;
	S hist;
	nest = true;
	std::unique_ptr<DKIM::Validatory> w;
	for (size_t n = 2 + r.below(6), k = 0; k < n; ++k)
	{
		if (r.chance(1, 2)) disturb(r, in, text.size());
		if (r.chance(1, 6))
		{
			in.clear();
			in.seekg(0);
			hist += " other";
			dk::call([&] { w.reset(new DKIM::Validatory(in, type)); w->CustomDNSResolver = resolver; for (auto i = w->GetSignatures().begin(); i != w->GetSignatures().end(); ++i) { DKIM::Signature s; w->GetSignature(i, s); } });
		}
		if (r.chance(1, 6)) { DKIM::SignatoryOptions o; o.SetSignatureAlgorithm(DKIM::DKIM_SA_ED25519).SetDomain("a.b").SetSelector("s"); o.SetPrivateKey(ref::edKey(0).seed); in.clear(); in.seekg(0); dk::call([&] { DKIM::Signatory(in).CreateSignature(o); }); hist += " sign"; }
		if (r.chance(1, 4)) pollute(r);
		if (r.chance(1, 3)) { sig.Reset(); hist += " rs"; }
		if (r.chance(1, 3)) { pub.Reset(); hist += " rp"; }
		size_t j = r.below(its.size());
		Fresh got = one(v, its[j], sig, pub);
		hist += " v" + std::to_string(j);
		const Fresh& f = want[j];
		c.check(got.sig == f.sig && got.key == f.key && got.check == f.check && got.hash == f.hash, "repeated-verification-differs", [&] {
			return "history" + hist + "\ngot   " + quote(got.sig, 1000) + " / " + quote(got.key, 500) + " / " + got.hash + " / " + got.check + "\nfresh " + quote(f.sig, 1000) + " / " + quote(f.key, 500) + " / " + f.hash + " / " + f.check + "\n" + quote(text, 4000); });
		c.ev("repeated verifications compared");
		c.ev("outcome " + (f.check.empty() ? S("before the signature check") : f.check));
	}
	ERR_clear_error();
	c.nontrivial(text + hist);
	c.state("verifier:" + hist);
}

static void parsers(Ctx& c)
{
	Rng& r = c.r;
	DKIM::Signature sig;
	DKIM::PublicKey pub;
	DKIM::TagList tags;
	DKIM::Message msg;
	S hist;
	for (size_t n = 2 + r.below(6); n; --n)
	{
		entry::Seen a, b;
		S in;
		switch (r.below(4))
		{
			case 0:
			{
				in = hostile::record(r, r.chance(1, 2));
				if (r.chance(1, 4)) in = r.pick({ "", "p=", "v=DKIM1", "t=y", "h=sha256", "k=ed25519" });
				bool reset = r.chance(1, 2);
				if (reset) pub.Reset();
				DKIM::PublicKey f;
				dk::Out o = dk::call([&] { pub.Parse(in); });
				entry::add(a, o);
				entry::readRecord(a, pub);
				o = dk::call([&] { f.Parse(in); });
				entry::add(b, o);
				entry::readRecord(b, f);
				hist += reset ? " record after reset" : " record";
				break;
			}
			case 1:
			{
				bool arc = r.chance(1, 3);
				sigtext::Tags t = sigtext::tags(r, arc, gen::domain(r));
				if (r.chance(1, 3)) t.erase(t.begin() + (long)r.below(t.size()));
				if (r.chance(1, 4)) t.resize(r.below(t.size() + 1));
				in = sigtext::layout(r, arc ? "ARC-Message-Signature" : "DKIM-Signature", t);
				if (r.chance(1, 4)) in = hostile::damage(r, in);
				auto h = std::make_shared<DKIM::Header>();
				std::stringstream l(in);
				S line;
				if (!dk::call([&] { while (std::getline(l, line)) { if (!line.empty() && line.back() == '\r') line.pop_back(); h->ParseLine(line); } }).ok()) continue;
				bool reset = r.chance(1, 2);
				if (reset) sig.Reset();
				DKIM::Signature f;
				dk::Out o = dk::call([&] { sig.Parse(h); });
				entry::add(a, o);
				entry::readSignature(a, sig);
				o = dk::call([&] { f.Parse(h); });
				entry::add(b, o);
				entry::readSignature(b, f);
				hist += reset ? " signature after reset" : " signature";
				break;
			}
			case 2:
			{
				in = hostile::odd(r, gen::recordFor(r, gen::anyKey(r, false)));
				tags.Reset();
				DKIM::TagList f;
				auto read = [&](DKIM::TagList& t, entry::Seen& s) {
					entry::add(s, dk::call([&] { t.Parse(in); }));
					for (auto i = t.cbegin(); i != t.cend(); ++i) { entry::add(s, i->first); entry::add(s, i->second.GetValue() + std::to_string(i->second.GetValueOffset())); }
				};
				read(tags, a);
				read(f, b);
				hist += " tags";
				break;
			}
			default:
			{
				in = hostile::odd(r, gen::message(r, true).text(&r, (int)r.below(3)));
				msg.Reset();
				DKIM::Message f;
				auto read = [&](DKIM::Message& m, entry::Seen& s) {
					std::istringstream is(in);
					dk::Out o = dk::call([&] { while (!m.IsDone() && m.ParseLine(is)) {} });
					entry::add(s, o);
					for (auto& h : m.GetHeaders()) { entry::add(s, h->GetName()); entry::add(s, h->GetHeader()); }
					entry::add(s, std::to_string((long)m.GetBodyOffset()));
				};
				read(msg, a);
				read(f, b);
				hist += " message";
			}
		}
		c.check(a.text == b.text, "reused-parser-differs", [&] { return "history" + hist + "\nreused " + quote(a.text, 1500) + "\nfresh  " + quote(b.text, 1500) + "\n" + quote(in, 3000); });
		c.ev("reused parsers compared");
		c.nontrivial(hist + in);
	}
	c.state("parsers:" + hist);
}

void mon::run(Ctx& c)
{
	switch (c.r.below(8))
	{
		case 0: case 1: process(c); break;
		case 2: case 6: twins(c); break;
		case 3: signer(c); break;
		case 4: case 5: verifier(c); break;
		default: parsers(c);
	}
}
