// C09: signature fields are accepted exactly when valid, and read exactly.
#include "dk.hpp"
#include "sigtext.hpp"
#include <errno.h>
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Signature fields (DKIM and ARC, random layout and tags) are valid, or have tags removed, repeated, emptied, replaced by boundary values or "
	"mutated; the library's acceptance and every getter of an accepted field are compared with the reference's reading. errno is "
	"set to a stale value at random. Non-trivial: distinct fields.";
uint64_t mon::cases(bool th) { return th ? 3000000 : 100000; }

static S badValue(Rng& r, const S& tag)
{
	if (r.chance(1, 2))
	{
		if (tag == "v") return gen::nearMiss(r, "1");
		if (tag == "a") return gen::nearMiss(r, r.pick({ "rsa-sha256", "rsa-sha1", "ed25519-sha256" }));
		if (tag == "c") { S a = r.pick({ "simple", "relaxed" }), b = r.pick({ "simple", "relaxed" }); S v = r.chance(1, 3) ? a : a + "/" + b; return r.chance(1, 2) ? v : gen::nearMiss(r, v); }
		if (tag == "q") return gen::wordList(r, { "dns/txt", "dns/txt", "x" }, { "dns", "txt", "http/a", "DNS/TXT" }, true);
		if (tag == "h") return gen::wordList(r, { "from", "to", "subject", "From" }, { "x-from", "from-x", "reply-to", "dkim-signature" }, true);
		if (tag == "l" || tag == "i") return r.chance(1, 2) ? std::to_string(r.below(60)) : gen::nearMiss(r, std::to_string(r.next() >> r.below(64)));
		if (tag == "d" || tag == "s") return gen::nearMiss(r, gen::domain(r));
		if (tag == "b" || tag == "bh") return gen::nearMiss(r, ref::b64(r.bytes(r.below(80))));
		return gen::nearMiss(r, gen::word(r));
	}
	if (tag == "v") return r.pick({ "1", "2", "", "01", "1.0", "DKIM1", "11", "0" });
	if (tag == "a") return r.pick({ "rsa-sha256", "rsa-sha1", "ed25519-sha256", "rsa-sha512", "RSA-SHA256", "rsa", "rsa-sha", "rsa-sha2566", "ed25519", "", "sha256", "rsa-sha256:x", "dsa-sha256", "rsa-md5" });
	if (tag == "c") return r.pick({ "simple", "relaxed", "relaxed/relaxed", "/", "relaxed/", "/relaxed", "simple/simple/simple", "Relaxed", "nofws", "relaxed/x", "x/relaxed", "", "simple/Simple", "relaxed/simple/", "relaxe", "simplex", "relaxed/relaxedd" });
	if (tag == "l") return r.pick({ "0", "1", "00000000000000000000000000000000000000000000000000000000000000000000000000000001",
		"0000000000000000000000000000000000000000000000000000000000000000000000000001", "00000000000000000000000000000000000000000000000000000000000000000000000000001",
		"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "9999999999999999999999", "18446744073709551617",
		"36893488147419103233", "-1", "+1", "1a", "0x10", "", "1 2", "4294967296", "2147483648", "99999999999999999999999999999999999999999999999999999999999999999999999999999" });
	if (tag == "q") return r.pick({ "dns/txt", "dns", "dns/txt2", "DNS/TXT", "txt", "", "a:b", "dns/txt:x", "x:dns/txt", "a : dns/txt : b", "dns/", "dns/mx", ":dns/txt", "a::dns/txt" });
	if (tag == "i" && r.chance(1, 2))
	{
		unsigned bits = 8u << r.below(3);
		uint64_t n = (r.chance(1, 3) ? r.below(8) : 1) * (1ull << bits) + r.below(70);
		S t = std::to_string(n);
		if (r.chance(1, 6)) t = "184467440737095516" + std::to_string(16 + r.below(50));	// around 2^64
		return t;
	}
	if (tag == "i") return r.pick({ "0", "1", "50", "51", "49", "01", "-1", "1a", "", "99", "a", "1 1", "@", "user", "a@b", "=40", "a=4", "a=zz@b", "\x01" });
	if (tag == "h") return r.pick({ "from", "From", "FROM", "fro", "x-from", "from2", "to:subject", "to:from", "from:to", "to : from", "", "to::from", ":from", "f rom", "from\r\n :to", "to:cc:bcc" });
	if (tag == "d" || tag == "s") return r.pick({ "", "a", "EXAMPLE.com", "a.b.c", "-", "a b", "\"", "a@b" });
	if (tag == "b" || tag == "bh") return r.pick({ "", "AAAA", "AA==", "A A A A", "AAAA\r\n AAAA", "QUJD", "QUI=", "Q\tU\r\n I=" });
	return r.pick({ "", "x", "1" });
}

static std::unique_ptr<DKIM::Signature> reused(new DKIM::Signature);

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	bool arc = r.chance(1, 4);
	S d = gen::caseMix(r, gen::domain(r));
	sigtext::Tags tags = sigtext::tags(r, arc, d);
	r.shuffle(tags);
	if (r.chance(1, 150))
	{
		// a long list of fields
		S l;
		for (size_t n = gen::sizeUpTo(r, 2500); n; --n) l += r.chance(1, 2) ? S("x-none:") : "x-" + std::to_string(n) + ":";
		sigtext::set(tags, "h", l + (r.chance(5, 6) ? "from" : "fromm"));
	}
	if (r.chance(1, 150)) tags.insert(tags.begin() + (long)r.below(tags.size() + 1), { S(gen::sizeUpTo(r, 1000), 'n'), gen::longText(r, gen::sizeUpTo(r, 80000)) });
	size_t bad = r.chance(1, 4) ? 0 : 1 + r.below(2);
	static const std::vector<S> all = { "v", "a", "b", "bh", "c", "d", "h", "i", "l", "q", "s" };
	for (size_t i = 0; i < bad; ++i)
	{
		size_t k = r.below(tags.size());
		switch (r.below(6))
		{
			case 0: tags.erase(tags.begin() + (long)k); if (tags.empty()) tags.push_back({ "v", "1" }); break;
			case 1: tags[k].second = badValue(r, tags[k].first); break;
			case 2: { S n = r.pick(all); sigtext::set(tags, n, badValue(r, n)); break; }
			case 3: { S n = r.pick(all); sigtext::set(tags, n, badValue(r, n)); break; }
			case 4: if (r.chance(1, 4)) tags.push_back(tags[k]); else tags[k].first = gen::caseMix(r, tags[k].first); break;
			default: tags[k].second = gen::mutateBytes(r, tags[k].second, 1);
		}
	}
	S f = sigtext::layout(r, arc ? "ARC-Message-Signature" : "DKIM-Signature", tags);
	if (r.chance(1, 12)) f = gen::mutateBytes(r, f, 1);
	S text = f + "\r\n\r\n";
	std::istringstream in(text);
	DKIM::Message msg;
	while (msg.ParseLine(in) && !msg.IsDone()) {}
	ref::Msg m = ref::parse(text);
	if (msg.GetHeaders().empty() || m.f.empty()) { c.ev("no field left"); return; }
	auto h = msg.GetHeaders().front();
	long now = (long)time(nullptr);
	ref::Sig want = ref::parseSig(m.f[0], now);
	bool ok = want.ok && !want.xbad && !want.expired;
	// a field of another name (after a mutation) is none of the two kinds
	S fname = ref::lower(m.f[0].name);
	bool reuse = r.chance(1, 3);
	if (r.chance(1, 500)) reused.reset(new DKIM::Signature);
	DKIM::Signature own;
	DKIM::Signature& sig = reuse ? *reused : own;
	if (reuse) sig.Reset();
	errno = r.chance(1, 2) ? ERANGE : 0;
	dk::Out o = dk::call([&] { sig.Parse(h); });
	errno = 0;
	auto ctx = [&] { return "field " + quote(m.f[0].raw, 3000) + "\nlibrary: " + o.cls + " " + o.what + "\nreference: " + (ok ? "accept" : "refuse (" + want.why + ")"); };
	c.nontrivial(f);
	c.check(o.ok() || o.cls == "permerror", "unexpected-error", ctx);
	if (want.unspec) { c.ev("left open by the rules"); return; }
	if (!ok)
	{
		c.check(!o.ok(), "malformed-field-accepted", ctx);
		c.check(o.cls == "permerror", "refused-with-another-class", ctx);
		c.ev("refused fields");
		c.ev("refused for " + (want.why.empty() ? S("x") : want.why));
		return;
	}
	c.check(o.ok(), "valid-field-refused", ctx);
	c.ev("accepted fields");
	auto eq = [&](const char* what, const S& got, const S& w) {
		c.check(got == w, (S("wrong-") + what).c_str(), [&] { return ctx() + "\n" + what + ": got " + quote(got, 1500) + " want " + quote(w, 1500); });
		c.ev("getters compared");
	};
	auto num = [](unsigned long n) { return std::to_string(n); };
	eq("digest-algorithm", num(sig.GetDigestAlgorithm() == DKIM::DKIM_A_SHA256), num(want.sha256));
	eq("signature-algorithm", num(sig.GetSignatureAlgorithm() == DKIM::DKIM_SA_RSA), num(want.rsa));
	eq("header-canonicalization", num(sig.GetCanonModeHeader() == DKIM::DKIM_C_RELAXED), num(want.relH));
	eq("body-canonicalization", num(sig.GetCanonModeBody() == DKIM::DKIM_C_RELAXED), num(want.relB));
	eq("signature-data", sig.GetSignatureData(), want.b);
	eq("body-hash", sig.GetBodyHash(), want.bh);
	eq("domain", sig.GetDomain(), want.d);
	eq("selector", sig.GetSelector(), want.s);
	eq("query-type", num(sig.GetQueryType() == DKIM::Signature::DKIM_Q_DNSTXT), num(true));
	S gl, wl;
	for (auto& x : sig.GetSignedHeaders()) gl += x + "\n";
	for (auto& x : want.h) wl += x + "\n";
	eq("signed-headers", gl, wl);
	eq("length-limit-flag", num(sig.GetBodySizeLimit()), num(want.hasL));
	if (want.hasL) eq("length-limit", num(sig.GetBodySize()), num(want.l));
	eq("kind", num(sig.IsARC()), num(want.arc));
	if (want.arc) eq("instance", num(sig.GetARCInstance()), num(want.inst));
	else
	{
		eq("local-part", sig.GetMailLocalPart(), want.local);
		eq("identity-domain", sig.GetMailDomain(), want.mdom);
	}
	std::vector<ref::Tag> tl;
	ref::tagList(m.f[0].raw.substr(m.f[0].voff), tl);
	for (auto& t : tl)
	{
		DKIM::TagListEntry e;
		S v = sig.GetTag(t.name, e) ? e.GetValue() : S("(absent)");
		eq("tag", v, t.value);
	}
	if (c.idx < 40) c.sample(quote(f, 300) + " -> " + num(want.arc) + " " + want.d + " " + want.s);
}
