// C29: read errors never turn into a signature or a pass.
#include "frozen.hpp"
#include "entry.hpp"
#include "hostile.hpp"
#include "streams.hpp"
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"For each message (also ones of which a part alone would verify) and each operation (sign, verify), every byte position, every repositioning and every "
	"question for the position is made to fail, once and for good (bigger messages: all chunk ends and a sample); the outcome must be an error or that of the "
	"complete message, and that of the complete message once a transient fault is over. Non-trivial: distinct (message, operation, fault) of which the fault was hit.";
uint64_t mon::cases(bool th) { return th ? 5000 : 110; }
unsigned mon::cpu_limit() { return 120; }

struct Fault
{
	int kind;	// 0 read, 1 seek, 2 tell
	long at;
	long times;
	bool throwing;	// the stream reports badbit by exception
	S str() const { return S(kind == 0 ? "read at byte " : kind == 1 ? "repositioning " : "position ") + std::to_string(at) + (times < 0 ? " for good" : " once") + (throwing ? ", throwing stream" : ""); }
};

struct Stream
{
	streams::Buf buf;
	std::istream in;
	Stream(const S& t, size_t chunk, const Fault* f) : buf(t), in(nullptr)
	{
		buf.chunk = chunk;
		if (f)
		{
			if (f->kind == 0) { buf.failAt = f->at; buf.failTimes = f->times; }
			if (f->kind == 1) { buf.failSeek = f->at; buf.failSeekTimes = f->times; }
			if (f->kind == 2) { buf.failTell = f->at; buf.failTellTimes = f->times; }
		}
		in.rdbuf(&buf);
		in.clear();
		if (f && f->throwing) in.exceptions(std::ios::badbit);
	}
	unsigned long hits() const { return buf.faults + buf.seekFaults + buf.tellFaults; }
};

struct SignRun { dk::Out first, again; S out, outAgain; unsigned long hits = 0, seeks = 0, tells = 0; };

static SignRun signing(const S& text, size_t chunk, const DKIM::SignatoryOptions& o, const Fault* f)
{
	SignRun r;
	Stream s(text, chunk, f);
	DKIM::Signatory g(s.in);
	r.first = dk::call([&] { r.out = g.CreateSignature(o); });
	r.hits = s.hits();
	r.seeks = s.buf.seeks;
	r.tells = s.buf.tells;
	if (f) r.again = dk::call([&] { r.outAgain = g.CreateSignature(o); });
	return r;
}

struct VerifyRun { dk::Out ctor; std::vector<S> first, again, again2; unsigned long hits = 0, hitsLater = 0, seeks = 0, tells = 0; };

static VerifyRun verifying(const S& text, size_t chunk, bool arc, const std::map<S, S>& zone, const Fault* f)
{
	VerifyRun r;
	Stream s(text, chunk, f);
	std::unique_ptr<DKIM::Validatory> v;
	r.ctor = dk::call([&] { v.reset(new DKIM::Validatory(s.in, arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM)); });
	if (v)
	{
		v->CustomDNSResolver = [&](const S& n, S& out, void*) { auto i = zone.find(n); if (i != zone.end()) out = i->second; return true; };
		auto all = [&](std::vector<S>& to) { for (auto i = v->GetSignatures().begin(); i != v->GetSignatures().end(); ++i) to.push_back(dk::verify(*v, i).cls); };
		all(r.first);
		r.hitsLater = s.hits();
		if (f) { all(r.again); }
	}
	r.hits = s.hits();
	r.seeks = s.buf.seeks;
	r.tells = s.buf.tells;
	return r;
}

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	bool big = r.chance(1, 10);
	gen::Message m = gen::message(r, true, big);
	if (!big && m.body.size() > 700) m.body.resize(700);
	while (m.fields.size() > 6) m.fields.erase(m.fields.begin() + 1 + (long)r.below(m.fields.size() - 1));
	bool arc = false;
	std::map<S, S> zone;
	size_t sigs = 1 + r.below(2);
	bool from = false;
	for (auto& f : m.fields) if (ref::iequal(f.substr(0, 4), "from")) from = true;
	if (!from) m.fields.push_back("From: a@b.c");
	gen::Cfg cfg = gen::config(r, m);
	for (size_t k = 0; k < sigs; ++k)
	{
		gen::SignSpec s = gen::signSpec(r, m);
		s.key = &ref::edKey((unsigned)r.below(8));
		s.sha256 = true;
		if (k && (s.arc != 0) != arc) s.arc = arc ? 1 : 0;
		arc = s.arc != 0;
		if (arc) s.hasI = false;
		gen::signInto(r, m, r.below(m.fields.size() + 1), s);
		zone[s.s + "._domainkey." + ref::lower(s.d)] = s.key->record();
	}
	gen::Message whole = m;
	S what = "as signed";
	switch (r.below(5))
	{
		// only a part of these was signed
		case 0: whole.body += (whole.body.empty() || whole.body.back() == '\n' ? "" : "\r\n") + S(r.chance(1, 2) ? "more\r\n" : "x"); whole.blank = true; what = "body appended"; break;
		case 1: whole.fields.push_back(r.pick({ "From: other@b.c", "Subject: another", "Date: now", "To: x" })); what = "field appended"; break;
		case 2: whole.body = gen::body(r); if (whole.body.size() > 700 && !big) whole.body.resize(700); whole.blank = true; what = "another body"; break;
		default: break;
	}
	S text = whole.text(&r, (int)r.below(3));
	size_t chunk = big ? 1 + r.below(9000) : 1 + r.below(300);

	// signing: deterministic keys
	for (auto& s : cfg.sigs) { s.key = &ref::edKey((unsigned)r.below(8)); s.form = 0; }
	cfg.sha256 = true;
	dk::KeyHold hold;
	DKIM::SignatoryOptions o;
	dk::apply(cfg, o, hold);

	SignRun sw = signing(text, chunk, o, nullptr);
	VerifyRun vw = verifying(text, chunk, arc, zone, nullptr);

	std::vector<Fault> faults;
	auto add = [&](int kind, long at) {
		bool th = r.chance(1, 16);
		faults.push_back({ kind, at, 1, th });
		faults.push_back({ kind, at, -1, th });
	};
	if (text.size() <= 1600) for (size_t k = 0; k < text.size(); ++k) add(0, (long)k);
	else
	{
		for (size_t k = 0; k < 150; ++k) add(0, (long)r.below(text.size()));
		for (size_t k = chunk; k < text.size() && faults.size() < 600; k += chunk) { add(0, (long)k - 1); add(0, (long)k); }
		for (size_t k = 0; k < 20 && k < text.size(); ++k) add(0, (long)(text.size() - 1 - k));
		long b = ref::parse(text).body;
		for (long k = b - 3; k < b + 3; ++k) if (k >= 0 && k < (long)text.size()) add(0, k);
	}
	for (unsigned long k = 0; k < std::max(sw.seeks, vw.seeks) + 1; ++k) add(1, (long)k);
	for (unsigned long k = 0; k < std::max(sw.tells, vw.tells) + 1; ++k) add(2, (long)k);

	for (auto& f : faults)
	{
		auto ctx = [&](const S& x) { return x + "\nfault: " + f.str() + ", chunks of " + std::to_string(chunk) + ", " + what + "\n" + cfg.str() + "\n" + quote(text, 4000); };
		// sign
		SignRun s = signing(text, chunk, o, &f);
		bool same = s.first.cls == sw.first.cls && s.out == sw.out;
		if (!s.hits) c.check(same, "sign-differs-without-a-fault", [&] { return ctx(s.first.cls + " " + s.first.what + " " + quote(s.out, 600)); });
		else
		{
			c.check(same || (!s.first.ok() && s.out.empty()), "signature-over-a-part", [&] { return ctx("signed " + quote(s.out, 800) + "\ncomplete " + sw.first.cls + " " + quote(sw.out, 800)); });
			c.check(s.first.ok() || s.first.perm || s.first.temp || f.throwing, "another-exception", [&] { return ctx(s.first.cls); });
			c.ev(same ? "signing unaffected by the fault" : "signing refused");
			c.ev(S("faults hit while signing: ") + (f.kind == 0 ? "read" : f.kind == 1 ? "reposition" : "position"));
			c.nontrivial(text + "s" + f.str() + cfg.str());
		}
		c.check(!s.again.ok() || (sw.first.ok() && s.outAgain == sw.out), "second-signature-over-a-part", [&] { return ctx("signed " + quote(s.outAgain, 800) + "\ncomplete " + sw.first.cls + " " + quote(sw.out, 800)); });
		// verify
		VerifyRun v = verifying(text, chunk, arc, zone, &f);
		if (!v.hits) { c.check(v.ctor.cls == vw.ctor.cls && v.first == vw.first, "verdict-differs-without-a-fault", [&] { return ctx(v.ctor.cls); }); continue; }
		c.ev(S("faults hit while verifying: ") + (f.kind == 0 ? "read" : f.kind == 1 ? "reposition" : "position"));
		c.nontrivial(text + "v" + f.str());
		if (!v.ctor.ok())
		{
			c.check(v.ctor.perm || v.ctor.temp || f.throwing, "another-exception", [&] { return ctx(v.ctor.cls); });
			c.ev("verifier not constructed");
			continue;
		}
		c.check(v.first.size() == vw.first.size(), "signatures-missing", [&] { return ctx(std::to_string(v.first.size()) + " instead of " + std::to_string(vw.first.size())); });
		for (size_t k = 0; k < v.first.size(); ++k)
		{
			c.check(v.first[k] != "pass" || vw.first[k] == "pass", "pass-of-a-part", [&] { return ctx("signature " + std::to_string(k) + " passes, complete: " + vw.first[k]); });
			c.check(v.first[k] != "fail" || vw.first[k] == "fail", "fail-of-a-part", [&] { return ctx("signature " + std::to_string(k) + " fails, complete: " + vw.first[k]); });
			c.ev(v.first[k] == vw.first[k] ? "verdicts of the complete message" : "verdicts replaced by " + v.first[k]);
		}
		if (f.times == 1 && v.hitsLater == 1)
			for (size_t k = 0; k < v.again.size(); ++k)
			{
				c.check(v.again[k] == vw.first[k], "wrong-after-recovery", [&] { return ctx("signature " + std::to_string(k) + ": " + v.again[k] + ", complete: " + vw.first[k]); });
				c.ev("verdicts after recovery");
			}
		else
			for (size_t k = 0; k < v.again.size(); ++k)
				c.check(v.again[k] != "pass" || vw.first[k] == "pass", "pass-of-a-part", [&] { return ctx("signature " + std::to_string(k) + " passes when tried again"); });
	}
	c.ev("faults injected", faults.size() * 2);
	if (c.idx < 20 && !vw.first.empty()) c.sample(std::to_string(text.size()) + " bytes " + what + ", " + std::to_string(faults.size()) + " faults, complete: " + vw.first[0]);
}
