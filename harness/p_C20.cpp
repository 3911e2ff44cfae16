// C20: rewriting in transport.
#include "dk.hpp"
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Signed messages (library's and independent signer, the four canonicalization pairs) pass through chains of up to six rewritings: refolding, "
	"other white space, case of names, CRLF/LF, white space at line ends, empty lines at the end, new fields on top. Rewriting both modes "
	"tolerate must leave a pass; otherwise the verdict follows the reference's canonical bytes. Non-trivial: distinct rewritten messages.";
uint64_t mon::cases(bool th) { return th ? 500000 : 8000; }

// other amounts of white space in every line, none before the line end needed
static S bodySpace(Rng& r, const S& b, bool ends)
{
	S o;
	for (size_t i = 0; i < b.size();)
	{
		if (ref::wsp(b[i]) || b[i] == '\n' || (b[i] == '\r' && i + 1 < b.size() && b[i + 1] == '\n'))
		{
			size_t j = i;
			while (j < b.size() && ref::wsp(b[j])) ++j;
			bool end = j == b.size() || b[j] == '\n' || (b[j] == '\r' && j + 1 < b.size() && b[j + 1] == '\n');
			if (end && ends) o += r.chance(1, 3) ? gen::fws(r, false) : S();
			else if (!end && j > i && !ends) o += r.chance(1, 2) ? gen::fws(r, false) : b.substr(i, j - i);
			else o += b.substr(i, j - i);
			i = j;
			if (i < b.size() && b[i] == '\r') o += b[i++];
			if (i < b.size() && b[i] == '\n') o += b[i++];
		}
		else o += b[i++];
	}
	return o;
}

static S sequence(const S& text, long self, const ref::Sig& s)
{
	ref::Msg m = ref::parse(text);
	S o;
	if (!ref::signedData(m, (size_t)self, s, o)) return "(refused)";
	return o;
}

static long sigIndex(const ref::Msg& m, const S& b)
{
	// found by its signature value, which no rewriting here changes
	for (size_t i = 0; i < m.f.size(); ++i) if (ref::noWs(m.f[i].raw).find(b) != S::npos) return (long)i;
	return -1;
}

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	gen::Message m = gen::message(r, true, r.chance(1, 60));
	m.blank = true;
	// a CR alone is not a line end anywhere: keep the conversions reversible
	for (size_t i = 0; i < m.body.size(); ++i)
		if (m.body[i] == '\r' && (i + 1 == m.body.size() || m.body[i + 1] != '\n')) m.body[i] = '.';
	dk::Dns dns;
	bool arc = false;
	S raw;
	if (r.chance(1, 2))
	{
		gen::Cfg cfg = gen::config(r, m, false);
		if (r.chance(3, 4)) { cfg.sigs[0].key = &ref::edKey((unsigned)r.below(8)); cfg.sigs[0].form = (int)r.below(4); cfg.sha256 = true; }
		S text = m.text(&r, (int)r.below(3));
		dk::Out o = dk::call([&] { raw = dk::sign(text, cfg); });
		c.check(o.ok(), "signing-refused", [&] { return o.what + cfg.str() + quote(text, 3000); });
		dns = dk::zoneFor(cfg);
		m.fields.insert(m.fields.begin(), raw);
		arc = cfg.arc != 0;
	}
	else
	{
		gen::SignSpec s = gen::signSpec(r, m);
		if (r.chance(3, 4)) { s.key = &ref::edKey((unsigned)r.below(8)); s.sha256 = true; }
		raw = gen::signInto(r, m, r.chance(1, 2) ? 0 : r.below(m.fields.size() + 1), s);
		dns.zone[s.s + "._domainkey." + ref::lower(s.d)] = { 0, s.key->record() };
		arc = s.arc != 0;
	}
	S text = m.text();
	ref::Msg pm = ref::parse(text);
	long self = -1;
	for (size_t i = 0; i < pm.f.size(); ++i) if (pm.f[i].raw == raw) { self = (long)i; break; }
	if (self < 0) { c.ev("field not found again"); return; }
	ref::Sig sig = ref::parseSig(pm.f[(size_t)self], (long)time(nullptr));
	if (!sig.ok || sig.unspec) { c.ev("left open by the rules"); return; }
	S b = ref::noWs(pm.f[(size_t)self].raw.substr(pm.f[(size_t)self].voff + sig.boff, sig.blen));
	if (b.size() < 20) return;
	S hBefore = sequence(text, self, sig), bBefore = ref::canonBody(m.body, sig.relB);
	if (sig.hasL) bBefore.resize(std::min<size_t>(bBefore.size(), sig.l));
	for (int round = 0; round < 6; ++round)
	{
		gen::Message n = m;
		bool tolerated = true;
		S what;
		int eol = 0;
		for (size_t k = round ? 1 + r.below(6) : 0; k; --k)
		{
			switch (r.below(9))
			{
				case 0: case 1:	// refold
				{
					bool nameCase = r.chance(1, 2);
					what += nameCase ? " refold+case" : " refold";
					for (auto& f : n.fields)
					{
						size_t colon = f.find(':');
						if (colon == S::npos || colon == 0 || ref::wsp(f[0]) || r.chance(1, 4)) continue;
						f = gen::refold(r, f, nameCase);
					}
					if (!sig.relH) tolerated = false;
					break;
				}
				case 2:	// white space at the ends of fields
					what += " field-ends";
					for (auto& f : n.fields) if (f.find(':') != S::npos && r.chance(1, 2)) f += r.pick({ " ", "\t", "  \t" });
					if (!sig.relH) tolerated = false;
					break;
				case 3: what += " body-space"; n.body = bodySpace(r, n.body, false); if (!sig.relB) tolerated = false; break;
				case 4: what += " body-line-ends"; n.body = bodySpace(r, n.body, true); if (!sig.relB) tolerated = false; break;
				case 5:
					what += " empty-lines";
					for (size_t j = 1 + r.below(r.chance(1, 20) ? 9000 : 5); j; --j) n.body += "\r\n";
					break;
				case 6:
					if (!sig.relB) break;
					what += " blank-lines";
					// the text before has to end in a line end, or white space would be inserted into its last line: that is harmless, too
					for (size_t j = 1 + r.below(4); j; --j) n.body += "\r\n" + S(r.below(4), ' ');
					break;
				case 7:
				{
					S name = r.chance(1, 2) ? S(r.pick({ "Received", "X-Spam-Status", "Return-Path", "Authentication-Results", "DKIM-Signature", "ARC-Seal", "Delivered-To" })) : gen::fieldName(r);
					// a name that is listed more often than there are fields would be filled up by the new one
					size_t listed = 0, there = 0;
					for (auto& h : sig.h) if (ref::iequal(h, name)) ++listed;
					ref::Msg x = ref::parse(n.text());
					for (auto& f : x.f) if (ref::iequal(f.name, name)) ++there;
					if (ref::iequal(name, arc ? "arc-message-signature" : "dkim-signature") && there) --there;
					if (listed > there) break;
					what += " top:" + name;
					n.fields.insert(n.fields.begin(), gen::field(r, name));
					break;
				}
				default: eol = 1 + (int)r.below(2); what += eol == 1 ? " LF" : " mixed"; break;
			}
		}
		S t = n.text(&r, eol);
		ref::Msg tm = ref::parse(t);
		long at = sigIndex(tm, b);
		if (at < 0) { c.ev("field not found again"); continue; }
		// the rewritten field says the same, in other places
		ref::Sig now = ref::parseSig(tm.f[(size_t)at], (long)time(nullptr));
		c.check(now.ok, "rewritten-field-not-parsed-by-the-reference", [&] { return now.why + "\n" + quote(t, 3000); });
		S hAfter = sequence(t, at, now), bAfter = ref::canonBody(ref::bodyOf(t, tm), sig.relB);
		if (sig.hasL) bAfter.resize(std::min<size_t>(bAfter.size(), sig.l));
		// a listed name with white space inside is no name a field can legally have: no rewriting is harmless then
		for (auto& h : sig.h) if (h.find_first_of(" \t\r\n") != S::npos) tolerated = false;
		bool same = tolerated || (hAfter == hBefore && bAfter == bBefore);
		size_t mine = 0;
		for (long i = 0; i < at; ++i) if (ref::iequal(tm.f[(size_t)i].name, arc ? "arc-message-signature" : "dkim-signature")) ++mine;
		auto v = dk::verifyText(t, arc, dns);
		auto ctx = [&] {
			return "after" + what + " with c=" + (sig.relH ? "relaxed/" : "simple/") + (sig.relB ? "relaxed" : "simple") + ": " + (mine < v.size() ? v[mine].cls + " (" + v[mine].what + ")" : S("not found")) +
				"\nsigned\n" + quote(text, 3000) + "\nrewritten\n" + quote(t, 3000); };
		c.check(v.size() > mine, "signature-not-found", ctx);
		c.check((v[mine].cls == "pass") == same, same ? tolerated ? "harmless-rewriting-broke-it" : "unchanged-canonical-form-rejected" : "rewriting-not-noticed", ctx);
		c.ev(!round ? "unchanged message passes" : tolerated ? "tolerated rewriting passes" : same ? "rewriting without effect passes" : "rewriting beyond the mode detected");
		if (round)
		{
			c.ev(S("rewritten under ") + (sig.relH ? "relaxed/" : "simple/") + (sig.relB ? "relaxed" : "simple"));
			c.nontrivial(t);
		}
		if (c.idx < 10 && round == 1) c.sample("after" + what + ": " + v[mine].cls);
	}
}
