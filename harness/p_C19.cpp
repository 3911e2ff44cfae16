// C19: body length limits.
#include "dk.hpp"
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Messages are signed with l=n (0, the exact length, one off, around line ends, anywhere) by the library and by the independent signer; then "
	"bodies are edited before, at and behind the limit, appended to and cut, and the verdict must follow the first n canonical bytes alone. "
	"The signer is asked for limits beyond the body, too. Non-trivial: distinct edited messages.";
uint64_t mon::cases(bool th) { return th ? 500000 : 5000; }

// an edit of a raw body that is likely to matter near the place where the limit falls
static S edit(Rng& r, const S& body, size_t near, S& what)
{
	S b = body;
	size_t at = r.chance(1, 2) ? r.below(b.size() + 1) : std::min(b.size(), near + r.below(7) - std::min<size_t>(near, 3));
	switch (r.below(10))
	{
		case 0: what += " append"; b += r.from("abc \t\r\n", 1 + r.below(20)); break;
		case 1: what += " append-text"; b += "appended text\r\n"; break;
		case 2: what += " empty-lines"; for (size_t n = 1 + r.below(4); n; --n) b += "\r\n"; break;
		case 3: what += " insert"; b.insert(at, r.from("abc \t", 1 + r.below(3))); break;
		case 4:
		{
			what += " insert-lines";
			S z;
			for (size_t n = r.chance(1, 80) ? gen::sizeUpTo(r, 140000) : 1; n; --n) z += "\r\n";
			b.insert(at, z);
			break;
		}
		case 5: if (!b.empty()) { at = std::min(at, b.size() - 1); what += " change"; b[at] = (char)(b[at] ^ (1 << r.below(7))); } break;
		case 6: what += " cut"; b.resize(at); break;
		case 7: if (!b.empty()) { at = std::min(at, b.size() - 1); what += " delete"; b.erase(at, 1 + r.below(3)); } break;
		case 8: what += " space-at-line-end"; { size_t p = b.find("\r\n", at); if (p != S::npos) b.insert(p, " "); } break;
		default: what += " append-big"; b += S(1 + r.below(r.chance(1, 10) ? 200000 : 20000), r.pick({ "x", " ", "\n" })[0]); break;
	}
	return b;
}

static size_t limited(Rng& r, size_t len)
{
	switch (r.below(6))
	{
		case 0: return 0;
		case 1: return len;
		case 2: return len - std::min<size_t>(len, 1 + r.below(4));
		case 3: return std::min<size_t>(len, 1 + r.below(4));
		default: return (size_t)r.below(len + 1);
	}
}

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	gen::Message m = gen::message(r, true, r.chance(1, 60));
	m.blank = true;
	if (r.chance(1, 250)) m.body = S(gen::sizeUpTo(r, 300000), r.pick({ "x", " ", "\n" })[0]) + "y\r\n" + m.body;
	if (r.chance(1, 12))
	{
		// signed with a limit that is far beyond the body, over what is left of the limit in fewer bits
		gen::Message x = m;
		gen::SignSpec s = gen::signSpec(r, x);
		s.hasL = true;
		S full = ref::canonBody(x.body, s.relB);
		// (a limit beyond the body over all of the body is accepted: nothing of it is ignored)
		s.l = r.below(full.size() + 1);
		if (s.l && s.l == full.size()) --s.l;
		auto tags = gen::tagsOf(r, x, s);
		for (auto& t : tags)
			if (t.first == "l")
			{
				static const unsigned bits[] = { 8, 16, 31, 32, 33, 48, 63 };
				unsigned long add = (1ul + (r.chance(1, 4) ? r.below(3) : 0)) << bits[r.below(7)];
				if (s.l + add <= full.size()) add = 1ul << 32;
				t.second = std::to_string(s.l + add);
			}
		gen::signTags(r, x, 0, s, tags, true);
		dk::Dns d;
		d.zone[s.s + "._domainkey." + ref::lower(s.d)] = { 0, s.key->record() };
		S t = x.text();
		auto v = dk::verifyText(t, s.arc > 0, d);
		c.check(full.empty() || (!v.empty() && v[0].cls != "pass"), "limit-cut-short", [&] { return "canonical body " + std::to_string(full.size()) + "\n" + quote(t, 4000); });
		c.ev("limits that need more bits judged");
	}
	struct Sig { bool relB, hasL; size_t n; S raw; };
	std::vector<Sig> sigs;
	dk::Dns dns;
	bool arc = false;
	auto limit = [&](size_t len) { return limited(r, len); };
	if (r.chance(1, 2))
	{
		// the library signs
		gen::Cfg cfg = gen::config(r, m, true);
		for (auto& s : cfg.sigs) if (r.chance(3, 4)) { s.key = &ref::edKey((unsigned)r.below(8)); s.form = (int)r.below(4); cfg.sha256 = true; }
		S text = m.text(), full = ref::canonBody(m.body, cfg.relB);
		cfg.hasL = r.chance(7, 8);
		cfg.l = limit(full.size());
		bool beyond = cfg.hasL && r.chance(1, 4);
		if (beyond) cfg.l = r.chance(1, 2) ? full.size() + 1 + r.below(3) : r.chance(1, 2) ? full.size() + 1 + r.below(100000) : (unsigned long)-1 - r.below(3);
		S out;
		dk::Out o = dk::call([&] { out = dk::sign(text, cfg); });
		auto ctx = [&] { return o.cls + " " + o.what + "\n" + cfg.str() + " canonical body " + std::to_string(full.size()) + "\n" + quote(text, 2000) + "\nresult " + quote(out, 2000); };
		if (beyond)
		{
			c.check(!o.ok() && o.cls == "permerror", "limit-beyond-body-accepted", ctx);
			c.ev("limits beyond the body refused");
			return;
		}
		c.check(o.ok(), "signing-refused", ctx);
		for (auto& f : ref::parse(out + "\r\n").f)
		{
			ref::Sig s = ref::parseSig(f, (long)time(nullptr));
			c.check(s.ok && s.hasL == cfg.hasL && (!cfg.hasL || s.l == cfg.l), "emitted-limit", ctx);
			c.check(s.bh == ref::sha(cfg.sha256, cfg.hasL ? full.substr(0, cfg.l) : full), "emitted-body-hash", ctx);
			c.ev("emitted limits and hashes recomputed");
			sigs.push_back({ cfg.relB, cfg.hasL, (size_t)cfg.l, f.raw });
		}
		c.check(sigs.size() == cfg.sigs.size(), "number-of-fields", ctx);
		for (size_t i = sigs.size(); i-- > 0;) m.fields.insert(m.fields.begin(), sigs[i].raw);
		dns = dk::zoneFor(cfg);
		arc = cfg.arc != 0;
	}
	else
	{
		// several independent signatures, each with its own mode and limit
		arc = r.chance(1, 6);
		for (size_t n = 1 + r.below(3); n; --n)
		{
			gen::SignSpec s = gen::signSpec(r, m);
			s.h.clear();
			s.h.push_back("from");
			s.key = &ref::edKey((unsigned)r.below(8));
			s.sha256 = true;
			s.arc = arc ? 1 + (unsigned)r.below(50) : 0;
			if (arc) s.hasI = false;
			S full = ref::canonBody(m.body, s.relB);
			s.hasL = r.chance(3, 4);
			s.l = limit(full.size());
			S raw = gen::signInto(r, m, 0, s);
			sigs.insert(sigs.begin(), { s.relB, s.hasL, (size_t)s.l, raw });
			dns.zone[s.s + "._domainkey." + ref::lower(s.d)] = { 0, s.key->record() };
		}
	}
	// fields of a signature's name that were there before
	S name = arc ? "arc-message-signature" : "dkim-signature";
	S before[2] = { ref::canonBody(m.body, false), ref::canonBody(m.body, true) };
	for (int round = 0; round < 10; ++round)
	{
		gen::Message n = m;
		S what;
		for (size_t k = round ? 1 + r.below(2) : 0; k; --k)
			n.body = edit(r, n.body, sigs[r.below(sigs.size())].n, what);
		S text = n.text(), after[2] = { ref::canonBody(n.body, false), ref::canonBody(n.body, true) };
		auto v = dk::verifyText(text, arc, dns);
		ref::Msg pm = ref::parse(text);
		size_t k = 0;
		for (auto& f : pm.f)
		{
			if (!ref::iequal(f.name, name)) continue;
			c.check(k < v.size(), "signature-not-found", [&] { return quote(text, 3000); });
			const dk::Out& o = v[k++];
			const Sig* s = nullptr;
			for (auto& x : sigs) if (x.raw == f.raw) s = &x;
			if (!s) continue;
			const S &a = after[s->relB], &b = before[s->relB];
			bool same = s->hasL ? a.size() >= s->n && a.compare(0, s->n, b, 0, s->n) == 0 : a == b;
			c.check((o.cls == "pass") == same, same ? "unsigned-part-matters" : "signed-part-ignored", [&] {
				return "after" + what + ": " + o.cls + " (" + o.what + ")" + (s->hasL ? " limit " + std::to_string(s->n) : S(" no limit")) +
					" canonical body " + std::to_string(b.size()) + " -> " + std::to_string(a.size()) + "\nbefore " + quote(b, 1500) + "\nafter  " + quote(a, 1500) + "\n" + quote(text, 2500); });
			c.ev(same ? a == b ? "canonical body unchanged: passes" : "only behind the limit: passes" : s->hasL ? "before the limit: detected" : "no limit: detected");
			if (s->hasL && s->n == 0) c.ev("limit 0 judged");
		}
		if (round) c.nontrivial(text);
		if (c.idx < 10 && round == 1) c.sample("after" + what + ": " + (v.empty() ? S() : v[0].cls));
	}
}
