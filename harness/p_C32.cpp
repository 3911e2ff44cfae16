// C32: every signature field is found and judged on its own.
#include "dk.hpp"
#include "frozen.hpp"
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Messages with up to 40 signature fields (DKIM and ARC; valid, damaged, emptied, copied; names in any case, with white space before the colon; near misses of the names "
	"between them) at any place. The list of each kind of verifier must be the reference's, in order; each verdict must be the reference's, the one in a message "
	"without the other signature fields, and the same in any order of checking, step by step or with the steps of several signatures interleaved. Non-trivial: distinct "
	"messages with two or more signature fields.";
uint64_t mon::cases(bool th) { return th ? 200000 : 3000; }

static S renamed(Rng& r, const S& raw, const S& name)
{
	size_t p = raw.find(':');
	return name + (r.chance(1, 6) ? " " : "") + raw.substr(p);
}

static S nearName(Rng& r)
{
	if (r.chance(1, 3)) return gen::oddName(r, gen::caseMix(r, r.pick({ "DKIM-Signature", "ARC-Message-Signature" })));
	return r.pick({ "X-DKIM-Signature", "DKIM-Signatures", "DKIM-Signatur", "DKIM_Signature", "DKIM--Signature", "DomainKey-Signature", "DKIMSignature", "ARC-Message-Signatures",
		"ARC-Message", "ARC-Seal", "ARC-Authentication-Results", "X-ARC-Message-Signature", "Original-DKIM-Signature", "DKIM-Signature-Original", "Resent-DKIM-Signature", "Signature",
		"DKIM-Sig\xee" "ature", "ARC-DKIM-Signature", "DKIM-Signature2", "ADKIM-Signature" });
}

// damage that keeps it one header field
static S damaged(Rng& r, const S& raw)
{
	size_t p = raw.find(':') + 1;
	S n = raw.substr(0, p), v = raw.substr(p);
	switch (r.below(8))
	{
		case 0: return n;
		case 1: return n + " " + gen::word(r);
		case 2:
		{
			v.resize(r.below(v.size() + 1));
			while (!v.empty() && (v.back() == '\r' || v.back() == '\n')) v.pop_back();
			return n + v;
		}
		case 3: return n + v + "; b=AAAA";
		case 4: { size_t b = v.find("bh="); if (b != S::npos) v.insert(b + 3, "AAAA"); return n + v; }
		case 5: { size_t b = v.find("v=1"); if (b != S::npos) v[b + 2] = '2'; return n + v; }
		default:
		{
			for (int k = 0; k < 10; ++k)
			{
				size_t b = r.below(v.size());
				char ch = "abcxyzABC0129=;:"[r.below(16)];
				if (v[b] == '\r' || v[b] == '\n' || v[b] == ' ' || v[b] == '\t') continue;
				v[b] = ch;
				break;
			}
			return n + v;
		}
	}
}

static std::vector<S> found(const S& text, DKIM::Validatory::ValidatorType type)
{
	std::istringstream in(text);
	DKIM::Validatory v(in, type);
	std::vector<S> o;
	for (auto& h : v.GetSignatures()) o.push_back(h->GetHeader());
	return o;
}

static S join(const std::vector<S>& v) { S o; for (auto& x : v) o += quote(x, 200) + "\n"; return o; }

// very many fields, only listed
static void crowd(Ctx& c)
{
	Rng& r = c.r;
	S text;
	std::vector<S> want[2];
	for (size_t n = gen::sizeUpTo(r, r.chance(1, 8) ? 20000 : 1500), i = 0; i < n; ++i)
	{
		int a = r.chance(1, 10) ? 1 : 0;
		S f = gen::caseMix(r, a ? "ARC-Message-Signature" : "DKIM-Signature") + ": " + (r.chance(1, 50) ? "" : "v=1; n=" + std::to_string(i));
		if (r.chance(1, 30)) text += (r.chance(1, 3) ? nearName(r) : S("From")) + ": x\r\n";
		text += f + "\r\n";
		want[a].push_back(f);
	}
	text += "\r\nx\r\n";
	for (int a = 0; a < 2; ++a)
	{
		std::vector<S> got = found(text, a ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
		c.check(got == want[a], "signature-fields-listed", [&] { return S(a ? "ARC " : "DKIM ") + std::to_string(got.size()) + " of " + std::to_string(want[a].size()) + " fields\n" + quote(text, 2000); });
		c.ev("signature fields listed in crowded messages", got.size());
	}
	c.nontrivial(text);
}

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	if (r.chance(1, 40)) { crowd(c); return; }
	gen::Message m = gen::message(r, true);
	dk::Dns dns;
	size_t n = r.chance(1, 12) ? 8 + r.below(33) : r.chance(1, 10) ? r.below(2) : 2 + r.below(5);
	std::vector<S> sigs;
	for (size_t k = 0; k < n; ++k)
	{
		size_t pos = r.chance(1, 3) ? 0 : r.below(m.fields.size() + 1);
		S raw;
		if (!sigs.empty() && r.chance(1, 4))
		{
			raw = r.pick(sigs);
			if (r.chance(1, 4)) raw = renamed(r, raw, gen::caseMix(r, r.pick({ "DKIM-Signature", "ARC-Message-Signature" })));
			if (r.chance(3, 4)) raw = damaged(r, raw);
			m.fields.insert(m.fields.begin() + (long)pos, raw);
			c.ev("damaged or copied field");
		}
		else if (r.chance(1, 8))
		{
			raw = nearName(r) + ": " + (sigs.empty() ? gen::word(r) : gen::word(r) + "; " + r.pick(sigs));
			m.fields.insert(m.fields.begin() + (long)pos, raw);
			c.ev("field with a similar name");
			continue;
		}
		else if (r.chance(1, 4))
		{
			gen::Cfg cfg = gen::config(r, m, false);
			S text = m.text();
			dk::Out o = dk::call([&] { raw = dk::sign(text, cfg); });
			if (!o.ok() || raw.empty()) { c.ev("configurations refused"); continue; }
			for (auto& e : dk::zoneFor(cfg).zone) dns.zone[e.first] = e.second;
			if (r.chance(1, 4)) { size_t e = raw.find(':'); raw = gen::caseMix(r, raw.substr(0, e)) + raw.substr(e); }
			m.fields.insert(m.fields.begin(), raw);
			c.ev("signed by the library");
		}
		else
		{
			gen::SignSpec s = gen::signSpec(r, m);
			raw = gen::signInto(r, m, pos, s);
			S key = s.s + "._domainkey." + ref::lower(s.d);
			switch (r.below(10))
			{
				case 0: dns.zone[key] = { 1, S() }; break;
				case 1: dns.zone[key] = { 2, S() }; break;
				case 2: dns.zone[key] = { 0, ref::edKey((unsigned)r.below(8)).record() }; break;
				case 3: dns.zone[key] = { 0, "v=DKIM1; p=" }; break;
				default: dns.zone[key] = { 0, s.key->record() };
			}
			c.ev("signed by the independent signer");
		}
		sigs.push_back(raw);
	}
	if (r.chance(1, 10)) m.body += "changed\r\n";
	S text = m.text();
	auto ctx = [&] { return quote(text, 6000); };
	ref::Msg pm = ref::parse(text);

	// the lists
	std::vector<size_t> at[2];
	for (size_t i = 0; i < pm.f.size(); ++i)
	{
		if (ref::iequal(pm.f[i].name, "dkim-signature")) at[0].push_back(i);
		if (ref::iequal(pm.f[i].name, "arc-message-signature")) at[1].push_back(i);
	}
	for (int a = 0; a < 2; ++a)
	{
		std::vector<S> want, got = found(text, a ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
		for (size_t i : at[a]) want.push_back(pm.f[i].raw);
		c.check(got == want, "signature-fields-listed", [&] { return S(a ? "ARC" : "DKIM") + "\ngot\n" + join(got) + "want\n" + join(want) + ctx(); });
		c.ev("signature fields listed", want.size());
	}
	c.check(found(text, DKIM::Validatory::NONE).empty(), "signature-fields-listed-for-none", ctx);
	if (at[0].size() + at[1].size() >= 2) c.nontrivial(text);
	c.state(std::to_string(at[0].size()) + "/" + std::to_string(at[1].size()));

	for (int a = 0; a < 2; ++a)
	{
		if (at[a].empty()) continue;
		bool arc = a == 1;
		dk::Judged j = dk::judge(c, text, arc, dns, ctx);
		if (j.cls.size() != at[a].size()) return;

		// in any order on one object, whole or with the steps interleaved
		std::istringstream in(text);
		DKIM::Validatory v(in, arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
		v.CustomDNSResolver = std::ref(dns);
		std::vector<DKIM::Validatory::SignatureList::const_iterator> its;
		for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i) its.push_back(i);
		size_t k = its.size();
		std::vector<size_t> order;
		for (size_t i = 0; i < k; ++i) { order.push_back(i); if (r.chance(1, 3)) order.push_back(i); }
		r.shuffle(order);
		for (size_t i : order)
		{
			dk::Out o = dk::verify(v, its[i]);
			c.check(o.cls == j.cls[i], "order-matters", [&] { return "field " + std::to_string(i) + ": " + o.cls + " instead of " + j.cls[i] + "\n" + ctx(); });
		}
		struct Job { size_t i; int step = 0; DKIM::Signature sig; DKIM::PublicKey pub; };
		std::vector<std::unique_ptr<Job>> jobs;
		for (size_t i = 0; i < k; ++i) { jobs.emplace_back(new Job); jobs.back()->i = i; }
		while (!jobs.empty())
		{
			size_t w = r.below(jobs.size());
			Job& job = *jobs[w];
			dk::Out o = dk::call([&] {
				switch (job.step)
				{
					case 0: v.GetSignature(its[job.i], job.sig); break;
					case 1: v.GetPublicKey(job.sig, job.pub); break;
					default: v.CheckSignature(its[job.i], job.sig, job.pub);
				}
			});
			++job.step;
			if (o.ok() && job.step < 3) continue;
			S cls = o.ok() ? S("pass") : o.cls;
			c.check(cls == j.cls[job.i], "interleaved-steps-matter", [&] { return "field " + std::to_string(job.i) + ": " + cls + " instead of " + j.cls[job.i] + "\n" + ctx(); });
			jobs.erase(jobs.begin() + (long)w);
			c.ev("verdicts with interleaved steps");
		}

		// without the others, as far as h= does not name them
		for (size_t x = 0; x < k && x < 6; ++x)
		{
			size_t mine = k <= 6 ? x : r.below(k);
			ref::Sig s = ref::parseSig(pm.f[at[a][mine]], (long)time(nullptr));
			bool named[2] = { false, false };
			for (auto& h : s.h) { if (ref::iequal(h, "dkim-signature")) named[0] = true; if (ref::iequal(h, "arc-message-signature")) named[1] = true; }
			gen::Message rest = m;
			rest.fields.clear();
			size_t index = 0;
			for (size_t i = 0; i < pm.f.size(); ++i)
			{
				int which = ref::iequal(pm.f[i].name, "dkim-signature") ? 0 : ref::iequal(pm.f[i].name, "arc-message-signature") ? 1 : -1;
				bool drop = which >= 0 && i != at[a][mine] && !named[which];
				if (drop) continue;
				if (which == a && i < at[a][mine]) ++index;
				rest.fields.push_back(pm.f[i].raw);
			}
			S t = rest.text();
			auto alone = dk::verifyText(t, arc, dns);
			c.check(alone.size() > index, "signature-not-found", [&] { return quote(t, 4000) + "\nfrom\n" + ctx(); });
			c.check(alone[index].cls == j.cls[mine], "other-signatures-matter", [&] {
				return "field " + std::to_string(mine) + ": " + j.cls[mine] + ", without the others " + alone[index].cls + "\n" + quote(t, 4000) + "\nfrom\n" + ctx(); });
			c.ev("verdicts without the other signatures");
			if (rest.fields.size() == pm.f.size()) c.ev("nothing could be taken away");
		}
	}
	if (c.idx < 10) c.sample(std::to_string(at[0].size()) + " DKIM and " + std::to_string(at[1].size()) + " ARC signature fields");
}
