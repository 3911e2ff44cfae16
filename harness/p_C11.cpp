// C11: the identity stays inside the signing domain.
#include "dk.hpp"
#include "sigtext.hpp"
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Fields with crafted d= and i= (equal, sub-domain, suffix without a dot, parent, prefix, other case, encoded in any legal way, empty parts) are "
	"parsed: acceptance and the reported identity are compared with the reference; signed ones are verified against records with and without "
	"the s flag. Non-trivial: distinct (d, i) pairs.";
uint64_t mon::cases(bool th) { return th ? 2000000 : 60000; }

static S enc(Rng& r, const S& s)
{
	S e;
	for (char ch : s)
	{
		S q = ref::qpEnc(S(1, ch));
		if (q.size() == 1 && r.chance(1, 8)) { char b[4]; snprintf(b, sizeof b, "=%02X", (unsigned char)ch); q = b; }
		if (!e.empty() && r.chance(1, 30)) e += gen::fws(r);
		e += q;
	}
	return e;
}

static S identityDomain(Rng& r, const S& d)
{
	// any byte at a boundary (what ends a string or a label for some, is data for others)
	auto odd = [&] { return r.chance(1, 2) ? S(1, '\0') : r.chance(1, 2) ? S(1, (char)r.below(256)) : S(r.pick({ ".", "..", "@", "%", " ", "\t", "\r\n", "/", ":", ",", ";", "\xff", "\x80" })); };
	switch (r.below(15))
	{
		case 12: return d + odd() + (r.chance(1, 2) ? S() : (r.chance(1, 2) ? "." : "") + gen::domain(r));
		case 13: return (r.chance(1, 2) ? gen::label(r) : gen::domain(r)) + odd() + (r.chance(1, 2) ? "" : ".") + d;
		case 14: { S x = r.chance(1, 2) ? d + d : d + "." + d; if (r.chance(1, 2)) x.insert(r.below(x.size() + 1), odd()); return x; }
		case 0: case 1: return d;
		case 2: return gen::label(r) + "." + d;
		case 3: return gen::label(r) + "." + gen::label(r) + "." + d;
		case 4: return gen::label(r) + d;	// no label boundary
		case 5: return d + "." + gen::label(r);
		case 6: { size_t p = d.find('.'); return p == S::npos ? S("x") : d.substr(p + 1); }
		case 7: return gen::domain(r);
		case 8: return d.substr(0, d.size() - 1);
		case 9: return r.chance(1, 2) ? S() : d + ".";
		case 10: { S x = d; x[r.below(x.size())] ^= 1; return x; }
		default: return "-" + d;
	}
}

static void parse(Ctx& c)
{
	Rng& r = c.r;
	S d = gen::domain(r);
	bool arc = r.chance(1, 10);
	sigtext::Tags tags = sigtext::tags(r, arc, gen::caseMix(r, d));
	S loc = r.chance(1, 3) ? S() : r.chance(1, 2) ? gen::word(r) : r.bytes(r.below(10));
	for (char& ch : loc) if (ch == '@' && !r.chance(1, 10)) ch = '_';
	if (r.chance(1, 8)) loc = gen::quotedLocal(r);
	S id = gen::caseMix(r, identityDomain(r, d));
	S i = loc + (r.chance(1, 15) ? "" : "@") + id;
	bool has = !arc && r.chance(9, 10);
	if (has) sigtext::set(tags, "i", enc(r, i));
	else if (!arc) { sigtext::Tags t; for (auto& x : tags) if (x.first != "i") t.push_back(x); tags = t; }
	r.shuffle(tags);
	S text = sigtext::layout(r, arc ? "ARC-Message-Signature" : "DKIM-Signature", tags) + "\r\n\r\n";
	std::istringstream in(text);
	DKIM::Message msg;
	while (msg.ParseLine(in) && !msg.IsDone()) {}
	ref::Msg m = ref::parse(text);
	ref::Sig want = ref::parseSig(m.f[0], (long)time(nullptr));
	DKIM::Signature sig;
	dk::Out o = dk::call([&] { sig.Parse(msg.GetHeaders().front()); });
	auto ctx = [&] { return "d=" + d + " identity " + quote(i) + "\n" + quote(m.f[0].raw, 2000) + "\nlibrary: " + o.cls + " " + o.what + "\nreference: " + (want.ok ? "accept" : "refuse: " + want.why)
		+ (o.ok() ? "\nreported " + quote(sig.GetMailLocalPart()) + " at " + quote(sig.GetMailDomain()) : S()); };
	c.check(o.ok() || o.cls == "permerror", "wrong-class", ctx);
	c.nontrivial(d + "\n" + i);
	if (o.ok() && !arc)
	{
		// whatever the layout: what is reported lies inside the domain
		S md = sig.GetMailDomain(), dl = ref::lower(d);
		c.check(sig.GetDomain() == dl, "domain-differs", ctx);
		c.check(md == dl || (md.size() > dl.size() && md.compare(md.size() - dl.size() - 1, S::npos, "." + dl) == 0), "identity-outside-domain", ctx);
		c.ev("accepted identities inside the domain");
	}
	if (want.unspec) { c.ev("left open by the rules"); return; }
	c.check(o.ok() == want.ok, want.ok ? "valid-identity-refused" : "foreign-identity-accepted", ctx);
	if (!want.ok) { c.ev("foreign identities refused"); return; }
	if (!arc)
	{
		c.check(sig.GetMailLocalPart() == want.local, "local-part-differs", ctx);
		c.check(sig.GetMailDomain() == want.mdom, "identity-domain-differs", ctx);
		c.ev(has ? "identities compared" : "default identities compared");
	}
	if (c.idx < 40) c.sample(ctx());
}

static void flags(Ctx& c)
{
	Rng& r = c.r;
	gen::Message m = gen::message(r, true);
	gen::SignSpec s = gen::signSpec(r, m);
	s.key = r.chance(1, 2) ? ref::rsaKeys()[0] : &ref::edKey((unsigned)r.below(8));
	if (s.key->kind == ref::ED_KEY) s.sha256 = true;
	bool sub = false;
	if (!s.arc)
	{
		s.hasI = r.chance(4, 5);
		sub = s.hasI && r.chance(1, 2);
		S pre = gen::label(r) + ".";
		// sub-domains that begin with, or contain, the domain itself and bytes that end a string for some
		if (r.chance(1, 4)) pre = (r.chance(1, 3) ? S() : s.d) + (r.chance(2, 3) ? S(1, '\0') : S(1, (char)r.below(256))) + (r.chance(1, 2) ? S() : gen::label(r)) + ".";
		s.i = "u@" + gen::caseMix(r, (sub ? pre : S()) + s.d);
	}
	gen::signInto(r, m, 0, s);
	S text = m.text();
	S flag = r.chance(1, 6) ? S(r.pick({ "", "; t=" })) : "; t=" + gen::wordList(r, { "s", "y", "x" }, { "S", "ss", "ys", "sy", "z" });
	dk::Dns dns;
	dns.zone[s.s + "._domainkey." + ref::lower(s.d)] = { 0, s.key->record() + flag };
	bool strict = ref::parseRecord(s.key->record() + flag).strict;
	auto j = dk::verifyText(text, s.arc > 0, dns);
	S want = strict && sub ? "permerror" : "pass";
	c.check(!j.empty() && j[0].cls == want, "strict-flag", [&] {
		return "flag " + flag + " identity " + (s.hasI ? s.i : S("none")) + " d=" + s.d + ": " + (j.empty() ? S("no signature") : j[0].cls + " " + j[0].what) + " instead of " + want + "\n" + quote(text, 3000); });
	c.ev(S(strict ? "strict key, " : "lax key, ") + (s.arc ? "ARC" : sub ? "sub-domain" : "same domain") + ": " + want);
	c.nontrivial(text);
}

void mon::run(Ctx& c)
{
	if (c.idx % 16 == 0) flags(c);
	else parse(c);
}
