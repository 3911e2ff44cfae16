// C04: the emitted signature field states the truth.
#include "dk.hpp"
#include <algorithm>
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"A random message is signed under a random configuration; the text returned is parsed by the reference and every tag, the "
	"h= list, the body hash and the signature value are recomputed from message and configuration. Non-trivial: message and "
	"configuration pair whose fields were checked.";
uint64_t mon::cases(bool th) { return th ? 300000 : 16000; }

static bool listable(const S& n)
{
	if (n.empty()) return false;
	for (unsigned char ch : n) if (ch == ';' || ((ch < 0x21 || ch > 0x7e) && ch != ' ' && ch != '\t')) return false;
	return true;
}

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	gen::Message m = gen::message(r, r.chance(9, 10), r.chance(1, 80));
	if (r.chance(1, 200)) { m.blank = true; m.body = S(gen::sizeUpTo(r, 300000), r.pick({ "x", " ", "\n" })[0]) + "y\r\n" + m.body; }
	gen::Cfg cfg = gen::config(r, m);
	if (r.chance(1, 10)) cfg.headers.erase(std::remove_if(cfg.headers.begin(), cfg.headers.end(), [](const S& x) { return ref::iequal(x, "from"); }), cfg.headers.end());
	if (cfg.hmode == 1 && cfg.headers.empty()) cfg.hmode = 2;
	if (r.chance(1, 4)) { cfg.hasX = true; cfg.xabs = r.chance(1, 2); cfg.x = (long)r.below(1ul << 45); }
	S text = m.text(&r, (int)r.below(3));

	dk::KeyHold hold;
	DKIM::SignatoryOptions o;
	dk::apply(cfg, o, hold);
	std::set<S> selected;
	{
		DKIM::SignatoryOptions fresh;
		std::vector<S> l;
		if (cfg.hmode == 0 || cfg.hmode == 3)
		{
			l = dk::recommended;
			for (auto& h : fresh.GetHeaders()) l.push_back(ref::lower(h));
		}
		if (cfg.hmode == 1) for (auto& h : cfg.headers) l.push_back(ref::lower(h));
		if (cfg.hmode == 3)
		{
			for (auto& h : cfg.add) l.push_back(ref::lower(h));
			for (auto& h : cfg.del) l.erase(std::remove(l.begin(), l.end(), ref::lower(h)), l.end());
		}
		selected.insert(l.begin(), l.end());
	}
	bool all = selected.empty();
	for (auto& h : cfg.oversign) if (!all) selected.insert(ref::lower(h));

	long before = (long)time(nullptr);
	S out;
	dk::Out res = dk::call([&] { out = dk::sign(text, o); });
	long after = (long)time(nullptr);
	auto ctx = [&] { return cfg.str() + "\nmessage: " + quote(text, 3000) + "\nsignature: " + quote(out, 3000); };
	c.check(res.ok(), "signing-refused", [&] { return res.what + "\n" + ctx(); });

	ref::Msg pm = ref::parse(text);
	S fullBody = ref::canonBody(ref::bodyOf(text, pm), cfg.relB);
	if (cfg.hasL) fullBody.resize(cfg.l);

	std::vector<S> h;
	std::vector<size_t> inst;
	for (size_t i = pm.f.size(); i-- > 0;)
	{
		S n = ref::lower(pm.f[i].name);
		if (!listable(n)) continue;
		if (!all && !selected.count(n)) continue;
		h.push_back(n);
		inst.push_back(i);
	}
	for (auto& x : cfg.oversign) h.push_back(ref::lower(x));
	S hdata;
	for (size_t i : inst)
	{
		S x = pm.f[i].raw;
		if (cfg.relH) ref::relaxHeader(S(x), x);
		hdata += x + "\r\n";
	}

	// well-formed folded fields: every line ends in CRLF, continuation lines start with white space
	c.check(ref::parse(out + "\r\n\r\n").body == (long)out.size() + 4, "empty-line-in-output", ctx);
	for (size_t i = 0; i < out.size(); ++i)
	{
		if (out[i] == '\n') c.check(i && out[i - 1] == '\r', "bare-lf-in-output", ctx);
		if (out[i] == '\r') c.check(i + 1 < out.size() && out[i + 1] == '\n', "bare-cr-in-output", ctx);
		c.check((unsigned char)out[i] < 127 && out[i] != 0, "unprintable-in-output", ctx);
	}
	ref::Msg om = ref::parse(out + "\r\n");
	c.check(om.f.size() == cfg.sigs.size(), "number-of-fields", ctx);
	std::vector<bool> used(cfg.sigs.size());
	for (auto& f : om.f)
	{
		c.check(f.name == (cfg.arc ? "ARC-Message-Signature" : "DKIM-Signature"), "field-name", ctx);
		std::vector<ref::Tag> t;
		c.check(ref::tagList(f.raw.substr(f.voff), t), "tag-list", ctx);
		std::map<S, S> tag;
		for (auto& x : t) tag[x.name] = x.value;
		// which configured signature is it
		size_t k = cfg.sigs.size();
		for (size_t i = 0; i < cfg.sigs.size(); ++i)
			if (!used[i] && ref::iequal(tag["d"], cfg.sigs[i].domain) && tag["s"] == cfg.sigs[i].selector) { k = i; break; }
		c.check(k < cfg.sigs.size(), "domain-or-selector-tag", ctx);
		used[k] = true;
		const gen::SigCfg& sc = cfg.sigs[k];
		std::set<S> expect = { "a", "c", "d", "s", "h", "bh", "b" };
		auto is = [&](const char* n, const S& v) {
			c.check(tag.count(n) && tag[n] == v, (S("tag-") + n).c_str(), [&] { return S(n) + "=" + quote(tag[n]) + " instead of " + quote(v) + "\n" + ctx(); });
			c.ev(S("tag checked: ") + n); };
		is("d", sc.domain);
		is("a", S(sc.key->kind == ref::RSA_KEY ? "rsa" : "ed25519") + (cfg.sha256 ? "-sha256" : "-sha1"));
		is("c", S(cfg.relH ? "relaxed/" : "simple/") + (cfg.relB ? "relaxed" : "simple"));
		if (cfg.arc) { is("i", std::to_string(cfg.arc)); expect.insert("i"); }
		else
		{
			is("v", "1");
			expect.insert("v");
			if (!cfg.identity.empty())
			{
				S dec;
				c.check(tag.count("i") && ref::qpDec(tag["i"], dec) && dec == cfg.identity, "tag-i", [&] { return quote(dec) + "\n" + ctx(); });
				expect.insert("i");
				c.ev("tag checked: i");
			}
		}
		if (cfg.hasL) { is("l", std::to_string(cfg.l)); expect.insert("l"); }
		long t0 = -1, t1 = -1;
		if (cfg.hasT)
		{
			expect.insert("t");
			if (cfg.t != -1) { is("t", std::to_string(cfg.t)); t0 = t1 = cfg.t; }
			else
			{
				c.check(tag.count("t") && tag["t"].find_first_not_of("0123456789") == S::npos, "tag-t", ctx);
				t0 = t1 = strtol(tag["t"].c_str(), nullptr, 10);
				c.check(t0 >= before && t0 <= after, "tag-t-now", ctx);
			}
		}
		else { t0 = before; t1 = after; }
		if (cfg.hasX)
		{
			expect.insert("x");
			long lo = cfg.xabs ? cfg.x : t0 + cfg.x, hi = cfg.xabs ? cfg.x : t1 + cfg.x;
			c.check(tag.count("x") && tag["x"].find_first_not_of("0123456789") == S::npos, "tag-x", ctx);
			long x = strtol(tag["x"].c_str(), nullptr, 10);
			c.check(x >= lo && x <= hi, "tag-x", [&] { return std::to_string(x) + " not in " + std::to_string(lo) + ".." + std::to_string(hi) + "\n" + ctx(); });
			c.ev("tag checked: x");
		}
		for (auto& x : tag) c.check(expect.count(x.first), "unconfigured-tag", [&] { return x.first + "\n" + ctx(); });
		for (auto& x : expect) c.check(tag.count(x), "missing-tag", [&] { return x + "\n" + ctx(); });
		std::vector<S> got;
		c.check(ref::valueList(tag["h"], got) || h.empty(), "h-list", ctx);
		c.check(got == h, "h-list", [&] { S w; for (auto& x : h) w += x + ":"; return "expected " + w + "\n" + ctx(); });
		c.ev("h= names checked", h.size());
		is("bh", ref::b64(ref::sha(cfg.sha256, fullBody)));
		S b;
		c.check(ref::unb64(ref::noWs(tag["b"]), b), "b-base64", ctx);
		// the field itself, b= emptied
		const ref::Tag* bt = ref::findTag(t, "b");
		S self = f.raw.substr(0, f.voff + bt->off) + f.raw.substr(f.voff + bt->off + bt->value.size());
		if (cfg.relH) ref::relaxHeader(S(self), self);
		c.check(ref::verify(*sc.key, cfg.sha256, ref::sha(cfg.sha256, hdata + self), b), "signature-value", ctx);
		c.ev("signature values verified by the reference");
	}
	c.nontrivial(text + cfg.str());
	if (c.idx < 40) c.sample(cfg.str() + " -> " + quote(out, 500));
}
