// C18: header instances bottom-up, oversigning.
#include "dk.hpp"
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Signed messages (library's signer with oversigning, or the independent signer with arbitrary h=) get fields inserted, removed, moved, "
	"duplicated and swapped at every place; the signature must survive exactly when the sequence of denoted fields (from the bottom, without "
	"regard to case) keeps its canonical bytes. Non-trivial: distinct rewritten messages.";
uint64_t mon::cases(bool th) { return th ? 600000 : 9000; }

static S sequence(const S& text, long self, const ref::Sig& s)
{
	ref::Msg m = ref::parse(text);
	S o;
	for (long k : ref::denoted(m, self, s.h))
	{
		S x = m.f[(size_t)k].raw;
		if (s.relH && !ref::relaxHeader(S(x), x)) return "(refused)";
		o += x + "\r\n";
	}
	return o;
}

static long sigIndex(const S& text, const S& raw)
{
	ref::Msg m = ref::parse(text);
	for (size_t i = 0; i < m.f.size(); ++i) if (m.f[i].raw == raw) return (long)i;
	return -1;
}

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	gen::Message m = gen::message(r, true);
	// more instances of fewer names
	for (size_t n = r.below(4); n; --n)
	{
		S name = gen::caseMix(r, r.pick({ "Subject", "To", "From", "X-A", "Received", "X-B" }));
		m.fields.insert(m.fields.begin() + (long)r.below(m.fields.size() + 1), gen::field(r, name));
	}
	S name, sigRaw;
	dk::Dns dns;
	bool arc = false;
	if (r.chance(1, 3))
	{
		gen::Cfg cfg = gen::config(r, m, false);
		const ref::Key& k = ref::edKey((unsigned)r.below(8));
		cfg.sigs[0].key = &k;
		cfg.sigs[0].form = (int)r.below(4);
		cfg.sha256 = true;
		if (r.chance(3, 4))
		{
			cfg.oversign.push_back(r.pick({ "from", "subject", "To", "X-A", "x-new", "From" }));
			if (r.chance(1, 2)) cfg.oversign.push_back(r.pick({ "from", "Subject", "to", "x-b", "received", "X-B" }));
		}
		S text = m.text(), f;
		dk::Out o = dk::call([&] { f = dk::sign(text, cfg); });
		if (!o.ok()) { c.ev("configurations refused"); return; }
		for (auto& e : dk::zoneFor(cfg).zone) dns.zone[e.first] = e.second;
		if (!cfg.oversign.empty())
		{
			// one entry for each field that is signed, and one for each name given
			ref::Sig made = ref::parseSig(ref::parse(f + "\r\n\r\n").f.at(0), (long)time(nullptr));
			std::map<S, long> want, got;
			for (auto& h : made.h) ++got[ref::lower(h)];
			for (auto& o : cfg.oversign) want[ref::lower(o)] = 0;
			for (auto& o : cfg.oversign) ++want[ref::lower(o)];
			for (auto& x : ref::parse(text).f) if (want.count(ref::lower(x.name))) ++want[ref::lower(x.name)];
			for (auto& w : want)
				c.check(!made.ok || got[w.first] == w.second, "oversigned-name-listed-too-seldom-or-often", [&] { return quote(w.first) + " " + std::to_string(got[w.first]) + " times instead of " + std::to_string(w.second) + "\n" + cfg.str() + "\n" + quote(f, 1500) + "\n" + quote(text, 2000); });
			c.ev("oversigned names counted", want.size());
		}
		m.fields.insert(m.fields.begin(), f);
		sigRaw = f;
		arc = cfg.arc != 0;
		c.ev("signed by the library");
	}
	else
	{
		gen::SignSpec s = gen::signSpec(r, m);
		s.key = &ref::edKey((unsigned)r.below(8));
		s.sha256 = true;
		for (size_t n = r.below(4); n; --n) s.h.push_back(gen::caseMix(r, r.pick({ "subject", "to", "from", "x-a", "received", "x-b", "x-none" })));
		for (auto& h : s.h) for (char& ch : h) if (ch == ';' || ch == ':') ch = '-';
		size_t pos = r.chance(1, 2) ? 0 : r.below(m.fields.size() + 1);
		sigRaw = gen::signInto(r, m, pos, s);
		dns.zone[s.s + "._domainkey." + ref::lower(s.d)] = { 0, s.key->record() };
		arc = s.arc != 0;
		c.ev("signed by the independent signer");
	}
	S text = m.text();
	long self = sigIndex(text, sigRaw);
	if (self < 0) { c.ev("field not found again"); return; }
	ref::Msg pm = ref::parse(text);
	ref::Sig sig = ref::parseSig(pm.f[(size_t)self], (long)time(nullptr));
	if (!sig.ok || sig.unspec) { c.ev("left open by the rules"); return; }
	S before = sequence(text, self, sig);
	for (int round = 0; round < 8; ++round)
	{
		gen::Message n = m;
		S what;
		for (size_t k = round == 0 ? 0 : 1 + r.below(2); k; --k)
		{
			auto& f = n.fields;
			size_t at = r.below(f.size() + 1), a = r.below(f.size()), b = r.below(f.size());
			S nm = r.chance(2, 3) && !sig.h.empty() ? gen::caseMix(r, r.pick(sig.h)) : gen::fieldName(r);
			switch (r.below(7))
			{
				case 0: f.insert(f.begin(), gen::field(r, nm)); what += " top:" + nm; break;
				case 1: f.insert(f.begin() + (long)at, gen::field(r, nm)); what += " insert:" + nm; break;
				case 2: f.push_back(gen::field(r, nm)); what += " bottom:" + nm; break;
				case 3: if (f[a] != sigRaw) { f.erase(f.begin() + (long)a); what += " remove"; } break;
				case 4: std::swap(f[a], f[b]); what += " swap"; break;
				case 5: if (f[a] != sigRaw) { S x = f[a]; f.insert(f.begin() + (long)at, x); what += " duplicate"; } break;
				default:
				{
					S x = f[a];
					f.erase(f.begin() + (long)a);
					f.insert(f.begin() + (long)r.below(f.size() + 1), x);
					what += " move";
				}
			}
			if (f.empty()) break;
		}
		S t = n.text();
		if (n.fields.empty()) continue;
		long at = sigIndex(t, sigRaw);
		if (at < 0) { c.ev("field not found again"); continue; }
		S after = sequence(t, at, sig);
		// which of the verifier's results is ours
		ref::Msg tm = ref::parse(t);
		size_t mine = 0;
		for (long i = 0; i < at; ++i) if (ref::iequal(tm.f[(size_t)i].name, arc ? "arc-message-signature" : "dkim-signature")) ++mine;
		if (!ref::iequal(tm.f[(size_t)at].name, arc ? "arc-message-signature" : "dkim-signature")) continue;
		auto v = dk::verifyText(t, arc, dns);
		c.check(v.size() > mine, "signature-not-found", [&] { return quote(t, 3000); });
		S want = after == "(refused)" ? "permerror" : after == before ? "pass" : "fail";
		c.check(v[mine].cls == want, (S("binding-") + v[mine].cls + "-instead-of-" + want).c_str(), [&] {
			return "after" + what + ": " + v[mine].cls + " (" + v[mine].what + ") instead of " + want + "\ndenoted before\n" + quote(before, 1500) + "\ndenoted after\n" + quote(after, 1500) + "\n" + quote(t, 4000); });
		c.ev(after == before ? (round ? "harmless rewriting survived" : "unchanged message passes") : want == "fail" ? "harmful rewriting detected" : "stray CR refused");
		if (round) c.nontrivial(t);
		if (c.idx < 10) c.sample("after" + what + ": " + want);
	}
}
