// C21: nothing can be injected through configuration or content.
#include "dk.hpp"
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Strings as domain and selector (valid, one character off, arbitrary bytes) go through the setters of primary and additional signatures and are "
	"judged by the grammar; then messages and identities with separators, line breaks, tag-like text and arbitrary bytes are signed and the returned "
	"text is taken apart: exactly the configured fields and tags. Non-trivial: distinct setter strings and signed pairs.";
uint64_t mon::cases(bool th) { return th ? 1000000 : 40000; }

static bool alnum(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }

static bool validName(const S& s)
{
	size_t i = 0;
	for (;;)
	{
		size_t e = s.find('.', i);
		S l = s.substr(i, e == S::npos ? S::npos : e - i);
		if (l.empty() || !alnum(l[0]) || !alnum(l.back())) return false;
		for (char c : l) if (!alnum(c) && c != '-') return false;
		if (e == S::npos) return true;
		i = e + 1;
	}
}

static S nameCandidate(Rng& r)
{
	S d = gen::domain(r);
	if (r.chance(1, 12))
	{
		// long ones, with something wrong anywhere, or not
		size_t max = std::max<size_t>(gen::sizeUpTo(r, r.chance(1, 4) ? 1500 : 240), 1);
		while (d.size() < max) d += "." + (r.chance(1, 2) ? gen::label(r) : S(r.pick({ "a", "0", "b" })));
		d.resize(max);
		if (d.back() == '.' || d.back() == '-') d.back() = 'x';
		if (r.chance(1, 3)) return d;
	}
	else if (r.chance(1, 12))
	{
		// or a long label
		S l = r.from("abcxyz-0189", gen::sizeUpTo(r, 600));
		l = "a" + l + "z";
		d = r.chance(1, 2) ? l : r.chance(1, 2) ? l + "." + d : d + "." + l;
		if (r.chance(1, 3)) return d;
	}
	static const S nasty("\0\r\n\t ;:=@_.-/\\\"<>(),*?!\x7f\x80\xe9\xff\x01", 27);
	switch (r.below(12))
	{
		case 0: case 1: return d;
		case 2: d.insert(r.below(d.size() + 1), 1, nasty[r.below(nasty.size())]); return d;
		case 3: d[r.below(d.size())] = nasty[r.below(nasty.size())]; return d;
		case 4: return d + r.pick({ ".", "-", "\n", "\r\n", " ", "; d=evil.example", "\r\nX-Evil: 1", "..", "-.", ";", "_" });
		case 5: return S(r.pick({ ".", "-", "\n", " ", ".-", "_", "..", "@" })) + d;
		case 6: { size_t p = d.find('.'); if (p == S::npos) return d + "-." + d; d.replace(p, 1, r.pick({ "-.", ".-", "..", "._.", ". .", "-.-", ".-." })); return d; }
		case 7: return r.pick({ "", ".", "-", "..", "a", "0", "a.b", "a-b", "a--b", "-a", "a-", "a.-b", "a-.b", "xn--a", "_a", "a_b", "a.b.", "1.2.3.4", "[1.2.3.4]", " ", "*", "a." });
		case 8: return r.bytes(r.below(20));
		case 9: return d + S(1, '\0') + (r.chance(1, 2) ? gen::domain(r) : S());
		case 10: return r.from("ab.-0Z", 1 + r.below(9));
		default: { S o = d; o[r.below(o.size())] = (char)r.next(); return o; }
	}
}

static bool listable(const S& n)
{
	if (n.empty()) return false;
	for (unsigned char ch : n) if (ch == ';' || ((ch < 0x21 || ch > 0x7e) && ch != ' ' && ch != '\t')) return false;
	return true;
}

static S hostile(Rng& r)
{
	S o;
	for (size_t n = r.below(6); n; --n)
		o += r.chance(1, 2) ? S(r.pick({ ";", "; d=evil", "\r\n", "\r\n\r\n", "\n", "\r", "\r\n ", ";b=", "=", "=3B", "@", " ", "\t", ";\r\n\ti=x", "\r\nX-Evil: yes\r\n", ":", "%s%n", "\\", "\"" }))
			: r.chance(1, 2) ? gen::word(r) : r.chance(1, 3) ? S(1, '\0') : r.bytes(1 + r.below(5));
	return o;
}

template <class O> static void setters(Ctx& c, O& o, S& dom, S& sel)
{
	Rng& r = c.r;
	for (size_t n = 1 + r.below(6); n; --n)
	{
		bool isDom = r.chance(1, 2);
		S v = nameCandidate(r);
		bool want = validName(v);
		dk::Out res = dk::call([&] { if (isDom) o.SetDomain(v); else o.SetSelector(v); });
		auto ctx = [&] { return S(isDom ? "domain " : "selector ") + quote(v) + ": " + res.cls + " " + res.what; };
		// no domain name is longer than 253, no label than 63: those may be refused
		bool tooLong = want && v.size() > 253;
		for (size_t i = 0, k = 0; want && i < v.size(); ++i) { k = v[i] == '.' ? 0 : k + 1; if (k > 63) tooLong = true; }
		if (tooLong) { c.ev("too long for a domain name"); want = res.ok(); }
		c.check(res.ok() == want, want ? "valid-name-refused" : "invalid-name-accepted", ctx);
		if (!want) c.check(res.perm, "refused-with-another-error", ctx);
		if (want) (isDom ? dom : sel) = v;
		c.check(o.GetDomain() == dom && o.GetSelector() == sel, "value-kept-or-set-wrongly", [&] { return ctx() + " now d=" + quote(o.GetDomain()) + " s=" + quote(o.GetSelector()); });
		c.ev(want ? "names accepted" : "names refused");
		c.nontrivial(v);
	}
	if (dom.empty()) { dom = gen::domain(r); o.SetDomain(dom); }
	if (sel.empty()) { sel = gen::domain(r); o.SetSelector(sel); }
}

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	gen::Message m = gen::message(r, r.chance(3, 4));
	for (size_t n = r.below(5); n; --n)
	{
		// field names made to break out of h=
		S name;
		switch (r.below(6))
		{
			case 0: name = S("x; d=evil.example; h=from"); break;
			case 1: name = gen::word(r) + r.pick({ ";", "; b=", ";b", " ; i=a@b", "\t;", "\r;" }) + gen::word(r); break;
			case 2: name = r.bytes(1 + r.below(10)); break;
			case 3: name = S("a") + r.pick({ "\xff", "\x80", "\x01", "\x7f", "\v", "\r" }) + "b"; break;
			case 4: name = S(60 + r.below(200), 'n') + r.pick({ ";x", " x", "" }); break;
			default: name = gen::word(r) + r.pick({ " ", "\t", "=" }) + gen::word(r); break;
		}
		for (char& ch : name) if (ch == '\n') ch = ';';
		if (name.empty() || ref::wsp(name[0])) name = "y" + name;
		m.fields.insert(m.fields.begin() + (long)r.below(m.fields.size() + 1), name + ": " + gen::word(r));
	}
	S text = m.text();
	DKIM::SignatoryOptions o;
	gen::SigCfg k0 = { &ref::edKey((unsigned)r.below(8)), (int)r.below(4), "x", "y" };
	dk::KeyHold hold;
	std::vector<std::pair<S, S>> ds(1);
	o.SetSignatureAlgorithm(DKIM::DKIM_SA_ED25519);
	o.SetPrivateKey(k0.key->seed);
	setters(c, o, ds[0].first, ds[0].second);
	for (size_t n = r.chance(1, 3) ? 1 + r.below(2) : 0; n; --n)
	{
		DKIM::AdditionalSignaturesOptions& a = o.AddAdditionalSignature();
		a.SetSignatureAlgorithm(DKIM::DKIM_SA_ED25519);
		a.SetPrivateKey(k0.key->seed);
		ds.push_back({});
		setters(c, a, ds.back().first, ds.back().second);
	}
	bool relH = r.chance(1, 2), relB = r.chance(1, 2);
	o.SetCanonModeHeader(relH ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE);
	o.SetCanonModeBody(relB ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE);
	unsigned long arc = r.chance(1, 6) ? 1 + r.below(50) : 0;
	if (arc) o.SetARCInstance(arc);
	S identity;
	if (r.chance(2, 3))
	{
		identity = hostile(r);
		if (r.chance(1, 60)) identity += r.chance(1, 2) ? r.bytes(gen::sizeUpTo(r, 2000)) : gen::longText(r, gen::sizeUpTo(r, 2000));
		if (r.chance(1, 2)) identity += "@" + (r.chance(1, 2) ? ds[0].first : hostile(r));
		o.SetIdentity(identity);
	}
	std::vector<S> names;
	bool all = false;
	ref::Msg pm = ref::parse(text);
	if (r.chance(1, 2)) { o.SetHeaders({}); all = true; }
	else if (r.chance(1, 2))
	{
		std::list<S> l = { "From" };
		for (size_t n = r.below(4); n; --n) l.push_back(r.chance(1, 2) || pm.f.empty() ? hostile(r) : pm.f[r.below(pm.f.size())].name);
		o.SetHeaders(l);
		all = l.empty();
	}
	std::vector<S> over;
	for (size_t n = r.below(3); n; --n)
	{
		std::list<S> l;
		bool ok = true;
		for (size_t k = 1 + r.below(3); k; --k)
		{
			S x = r.chance(2, 3) ? gen::fieldName(r) : r.chance(1, 2) ? hostile(r) : gen::word(r) + r.pick({ ":", ";", " ", "\x7f", "\xff", "", "\n" });
			if (x.empty()) ok = false;
			for (unsigned char ch : x) if (ch < 0x21 || ch > 0x7e || ch == ':' || ch == ';') ok = false;
			l.push_back(x);
		}
		dk::Out res = dk::call([&] { o.SetOversignHeaders(l); });
		// names that can be listed have to work; the others must not get into the field (refused or left out)
		if (ok) c.check(res.ok(), "oversign-names-refused", [&] { S w; for (auto& x : l) w += quote(x) + " "; return w + res.what; });
		else c.check(res.ok() || res.perm, "refused-with-another-error", [&] { return res.cls + res.what; });
		if (res.ok() && ok) over.assign(l.begin(), l.end());
		if (res.ok() && !ok)
		{
			over.clear();
			for (auto& x : l) if (listable(x) && x.find(':') == S::npos) over.push_back(x);
		}
		c.ev(ok ? "oversign lists accepted" : "oversign lists with impossible names");
	}
	S out;
	dk::Out res = dk::call([&] { out = dk::sign(text, o); });
	auto ctx = [&] {
		S d;
		for (auto& x : ds) d += " d=" + quote(x.first) + " s=" + quote(x.second);
		return "identity " + quote(identity) + d + "\nmessage " + quote(text, 3000) + "\nresult " + quote(out, 3000) + "\n" + res.cls + " " + res.what; };
	if (!res.ok())
	{
		// a message with stray CR in a signed field cannot be signed
		c.check(res.perm, "refused-with-another-error", ctx);
		bool stray = false;
		for (auto& f : pm.f) { S x; if (relH && !ref::relaxHeader(f.raw, x)) stray = true; }
		c.check(stray, "signing-refused", ctx);
		c.ev("messages with stray CR refused");
		return;
	}
	c.nontrivial(text + identity);
	for (size_t i = 0; i < out.size(); ++i)
	{
		unsigned char ch = (unsigned char)out[i];
		bool crlf = (ch == '\r' && i + 1 < out.size() && out[i + 1] == '\n') || (ch == '\n' && i && out[i - 1] == '\r');
		c.check((ch >= 0x20 && ch < 0x7f) || ch == '\t' || crlf, "control-character-in-output", ctx);
	}
	c.check(out.size() > 2 && out[out.size() - 1] != '\n', "trailing-line-end", ctx);
	// lines: either the start of a configured field or a continuation line
	size_t starts = 0;
	for (size_t i = 0; i < out.size();)
	{
		size_t e = out.find("\r\n", i);
		S line = out.substr(i, e == S::npos ? S::npos : e - i);
		if (line.compare(0, arc ? 23 : 16, arc ? "ARC-Message-Signature: " : "DKIM-Signature: ") == 0) ++starts;
		else c.check(!line.empty() && ref::wsp(line[0]) && line.find_first_not_of(" \t") != S::npos, "foreign-line", [&] { return quote(line) + "\n" + ctx(); });
		if (e == S::npos) break;
		i = e + 2;
	}
	ref::Msg om = ref::parse(out + "\r\n");
	c.check(starts == ds.size() && om.f.size() == ds.size(), "number-of-fields", ctx);
	std::set<S> have;
	for (auto& f : pm.f) if (listable(f.name)) have.insert(ref::lower(f.name));
	for (auto& x : over) have.insert(ref::lower(x));
	for (size_t i = 0; i < om.f.size(); ++i)
	{
		std::vector<ref::Tag> t;
		c.check(ref::tagList(om.f[i].raw.substr(om.f[i].voff), t), "tag-list", ctx);
		std::map<S, S> tag;
		for (auto& x : t)
		{
			c.check(!tag.count(x.name), "tag-twice", [&] { return x.name + "\n" + ctx(); });
			tag[x.name] = x.value;
		}
		std::set<S> want = { "a", "c", "d", "s", "h", "bh", "b" };
		if (arc) want.insert("i");
		else
		{
			want.insert("v");
			if (!identity.empty()) want.insert("i");
		}
		std::set<S> got;
		for (auto& x : tag) got.insert(x.first);
		c.check(got == want, "tags", ctx);
		size_t k = 0;
		while (k < ds.size() && !(ds[k].first == tag["d"] && ds[k].second == tag["s"])) ++k;
		c.check(k < ds.size(), "domain-or-selector", ctx);
		if (arc) c.check(tag["i"] == std::to_string(arc), "instance", ctx);
		else if (!identity.empty())
		{
			S dec;
			c.check(ref::qpDec(tag["i"], dec) && dec == identity, "identity", [&] { return quote(dec) + "\n" + ctx(); });
			c.ev("hostile identities recovered");
		}
		std::vector<S> h;
		c.check(tag["h"].empty() || ref::valueList(tag["h"], h), "h-list", ctx);
		for (auto& x : h) c.check(have.count(ref::lower(x)), "foreign-name-in-h", [&] { return quote(x) + "\n" + ctx(); });
		c.ev("fields taken apart");
	}
	if (c.idx < 20) c.sample(quote(identity, 100) + " -> " + quote(out, 400));
}
