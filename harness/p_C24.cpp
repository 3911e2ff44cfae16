// C24: only the two error kinds, with the right class.
#include "hostile.hpp"
#include "streams.hpp"
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Every entry point is called with hostile input and each exception is examined (type, class, text); signed messages with chosen defects (body, "
	"headers, signature value, key, record, lookup, tags, expiry, unreadable stream) are verified and the class compared with the reference's. "
	"Non-trivial: distinct inputs.";
uint64_t mon::cases(bool th) { return th ? 2000000 : 40000; }

static void examine(Ctx& c, const dk::Out& o, const std::function<S()>& ctx)
{
	auto say = [&] { return o.cls + " (" + o.what + ")\n" + ctx(); };
	if (o.ok() || o.cls == "pass") return;
	c.check(o.perm || o.temp, "another-exception-escapes", say);
	if (o.perm) c.check(o.cls == "permerror" || o.cls == "fail", "class-of-a-permanent-error", say);
	if (o.temp) c.check(o.cls == "temperror", "class-of-a-temporary-error", say);
	c.check(!o.what.empty(), "no-explanation", say);
	c.ev("errors examined: " + o.cls);
}

static void anyEntry(Ctx& c)
{
	entry::Input in = hostile::any(c.r);
	entry::Seen s = entry::run(in);
	auto ctx = [&] { return S(entry::name(in.which)) + " opt " + std::to_string(in.opt) + "\na " + quote(in.a, 3000) + "\nb " + quote(in.b, 3000); };
	for (auto& o : s.outs)
	{
		examine(c, o, ctx);
		if (in.which > entry::VERIFY_DNS)
			c.check(o.ok() || o.cls == "permerror", "class-outside-verification", [&] { return o.cls + " " + o.what + "\n" + ctx(); });
		if (in.which == entry::VERIFY || in.which == entry::VERIFY_ARC)
			c.check(o.cls != "temperror" || in.b == "!", "temperror-without-a-reason", [&] { return o.what + "\n" + ctx(); });
	}
	c.ev(S("entry: ") + entry::name(in.which));
	c.nontrivial(entry::pack(in));
}

static void verdicts(Ctx& c)
{
	Rng& r = c.r;
	gen::Message m = gen::message(r, true);
	gen::SignSpec s = gen::signSpec(r, m);
	s.key = r.chance(1, 2) ? ref::rsaKeys()[r.below(2)] : &ref::edKey((unsigned)r.below(8));
	s.sha256 = s.key->kind == ref::ED_KEY || r.chance(1, 2);
	std::vector<std::pair<S, S>> tags = gen::tagsOf(r, m, s);
	S what, rec = gen::recordFor(r, *s.key);
	int lookup = 0;
	auto tag = [&](const S& n) -> std::pair<S, S>* { for (auto& t : tags) if (t.first == n) return &t; return nullptr; };
	size_t defect = r.below(17);
	// defects that are signed
	switch (defect)
	{
		case 0: { size_t k = r.below(tags.size()); what = "without " + tags[k].first; if (tags[k].first != "b") tags.erase(tags.begin() + (long)k); break; }
		case 1: { size_t k = r.below(tags.size()); if (tags[k].first != "b") { what = "damaged " + tags[k].first; tags[k].second = r.chance(1, 2) ? hostile::damage(r, tags[k].second) : hostile::nonsense(r, 3); } break; }
		case 2: what = "expired"; { auto x = tag("x"); if (x) x->second = "1"; else tags.push_back({ "x", r.pick({ "1", "1000000000", "0" }) }); } break;
		case 15: what = "odd i"; { auto x = tag("i"); S v = r.pick({ "@", "a@", "", "@.", "a@.", "=40", "a=40", "@@", "@x", "a@-", "\"@", "\"\"@", "=", "a@ " }); if (x) x->second = v; else tags.push_back({ "i", v }); } break;
		case 3: what = "another bh"; { auto x = tag("bh"); if (x) { S h; ref::unb64(ref::noWs(x->second), h); x->second = ref::b64(r.chance(3, 4) ? gen::wrongHash(r, h) : r.bytes(r.below(40))); } } break;
	}
	// no line end or separator may end up in the header that is not there
	for (auto& t : tags) for (char& ch : t.second) if (ch == ';' || ch == '\0') ch = ':';
	S raw = gen::signTags(r, m, r.below(m.fields.size() + 1), s, tags, r.chance(1, 2));
	switch (defect)
	{
		case 4: what = "body"; m.blank = true; m.body = hostile::damage(r, m.body); break;
		case 5: what = "header"; for (auto& f : m.fields) if (f != raw && r.chance(1, 2)) f += "x"; break;
		case 6: what = "lookup fails"; lookup = 1; break;
		case 7: what = "no record"; lookup = 2; break;
		case 8: what = "another key"; rec = gen::recordFor(r, s.key->kind == ref::RSA_KEY ? *ref::rsaKeys()[r.below(2)] : ref::edKey((unsigned)r.below(8))); break;
		case 9: what = "key of the other type"; rec = gen::recordFor(r, gen::anyKey(r, s.key->kind != ref::RSA_KEY)); break;
		case 10: what = "odd record"; rec = hostile::record(r, s.key->kind == ref::RSA_KEY); break;
		case 11: what = "signature field damaged"; for (auto& f : m.fields) if (f == raw) f = hostile::damage(r, f); break;
		case 12: what = "stray CR"; m.fields[r.below(m.fields.size())] += "\rx"; break;
		case 13: what = "restricted record"; rec = r.pick({ "h=sha1; ", "h=sha256;", "t=s;", "s=x;", "v=DKIM2; ", "t=y:s;", "h=md5;" }) + rec; break;
		case 14: what = "from removed"; for (auto& f : m.fields) if (f != raw && ref::iequal(f.substr(0, 4), "from")) f = "x" + f; break;
		default: break;
	}
	S text = m.text(&r, (int)r.below(3));
	if (r.chance(1, 8))
	{
		// the message cannot be read
		streams::Buf buf(text);
		buf.chunk = 1 + r.below(200);
		buf.failAt = (long)r.below(text.size() + 1);
		if (buf.failAt >= (long)text.size()) buf.failAt = (long)text.size() - 1;
		std::istream in(&buf);
		dk::Dns dns;
		dns.zone[s.s + "._domainkey." + ref::lower(s.d)] = { 0, s.key->record() };
		std::vector<dk::Out> outs;
		dk::Out o = dk::call([&] {
			DKIM::Validatory v(in, s.arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
			v.CustomDNSResolver = std::ref(dns);
			for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i) outs.push_back(dk::verify(v, i));
		});
		outs.push_back(o);
		auto ctx = [&] { return "unreadable at " + std::to_string(buf.failAt) + ", " + std::to_string(buf.faults) + " failed reads\n" + quote(text, 3000); };
		for (auto& x : outs) examine(c, x, ctx);
		// every result that comes from the message's data needs all of it: nothing may pass or fail on a part
		if (buf.faults)
		{
			bool header = buf.failAt < (ref::parse(text).body < 0 ? (long)text.size() : ref::parse(text).body);
			if (header) c.check(o.cls == "temperror", "unreadable-header-not-temperror", [&] { return o.cls + " " + o.what + "\n" + ctx(); });
			else for (auto& x : outs) c.check(x.cls != "pass" && x.cls != "fail", "verdict-on-an-unreadable-message", [&] { return x.cls + "\n" + ctx(); });
			c.ev("unreadable messages judged");
		}
		c.nontrivial(text + std::to_string(buf.failAt));
		return;
	}
	dk::Dns dns;
	ref::Msg pm = ref::parse(text);
	for (auto& f : pm.f)
	{
		ref::Sig g = ref::parseSig(f, (long)time(nullptr));
		dns.zone[g.s + "._domainkey." + g.d] = { lookup, rec };
	}
	auto ctx = [&] { return "defect: " + what + "\nrecord " + quote(rec, 800) + "\n" + quote(text, 4000); };
	dk::Judged j = dk::judge(c, text, s.arc != 0, dns, ctx, "class");
	std::vector<dk::Out> lib = dk::verifyText(text, s.arc != 0, dns);
	for (auto& o : lib) examine(c, o, ctx);
	for (auto& x : j.cls) { c.ev("defect " + (what.compare(0, 7, "damaged") == 0 || what.compare(0, 7, "without") == 0 ? what.substr(0, 7) + " tag" : what) + ": " + x); }
	c.nontrivial(text + rec);
	if (c.idx < 20 && !j.cls.empty()) c.sample(what + ": " + j.cls[0]);
}

void mon::run(Ctx& c)
{
	if (c.r.chance(1, 2)) anyEntry(c);
	else verdicts(c);
}
