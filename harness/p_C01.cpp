// C01: whatever the signer signs, the verifier accepts.
#include "dk.hpp"
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Random message (any header/body shape, CRLF/LF/mixed line ends) signed by the library under a random accepted "
	"configuration; the output is put in front and every field is verified by the library. Non-trivial: the message and "
	"configuration pair (hash) was signed and all its fields were verified.";
uint64_t mon::cases(bool th) { return th ? 400000 : 12000; }

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	gen::Message m = gen::message(r, true, r.chance(1, 60));
	gen::Cfg cfg = gen::config(r, m);
	// two signatures must not share a key name, or one record would have to serve two keys
	for (size_t i = 0; i < cfg.sigs.size(); ++i)
		for (size_t j = 0; j < i; ++j)
			if (dk::keyName(cfg.sigs[i]) == dk::keyName(cfg.sigs[j])) cfg.sigs[i].selector += "x" + std::to_string(i);
	S text = m.text(&r, (int)r.below(3));
	S out;
	dk::Out o = dk::call([&] { out = dk::sign(text, cfg); });
	auto ctx = [&] { return cfg.str() + "\nmessage: " + quote(text, 3000) + "\nsignature: " + quote(out, 3000); };
	c.check(o.ok(), "signing-refused", [&] { return o.cls + ": " + o.what + "\n" + ctx(); });
	c.ev("fields signed", cfg.sigs.size());
	S signedText = out + "\r\n" + text;

	dk::Dns dns = dk::zoneFor(cfg);
	std::istringstream in(signedText);
	DKIM::Validatory v(in, cfg.arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
	v.CustomDNSResolver = std::ref(dns);
	// fields of the original message come behind the new ones
	size_t n = 0;
	std::set<S> seen;
	for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end() && n < cfg.sigs.size(); ++i, ++n)
	{
		DKIM::Signature sig;
		dk::Out res = dk::verify(v, i, &sig);
		c.check(res.cls == "pass", ("own-signature-" + res.cls).c_str(), [&] { return "field " + std::to_string(n) + ": " + res.what + "\n" + ctx(); });
		seen.insert(sig.GetSelector() + "/" + sig.GetDomain());
		c.ev(S("verified ") + (sig.GetSignatureAlgorithm() == DKIM::DKIM_SA_RSA ? "rsa" : "ed25519"));
	}
	c.check(n == cfg.sigs.size(), "missing-signature-fields", ctx);
	for (auto& s : cfg.sigs)
		c.check(seen.count(s.selector + "/" + ref::lower(s.domain)), "signature-for-configured-domain-missing", ctx);
	// exactly one field per configured signature
	ref::Msg pm = ref::parse(out + "\r\n");
	c.check(pm.f.size() == cfg.sigs.size(), "number-of-returned-fields", ctx);
	c.ev(cfg.arc ? "arc" : "dkim");
	c.ev(S("canon ") + (cfg.relH ? "relaxed/" : "simple/") + (cfg.relB ? "relaxed" : "simple"));
	if (cfg.hasL) c.ev("with l=");
	if (!cfg.oversign.empty()) c.ev("with oversigning");
	c.nontrivial(text + cfg.str());
	c.state(std::to_string(cfg.relH) + std::to_string(cfg.relB) + std::to_string(cfg.sha256) + std::to_string(cfg.hmode) + std::to_string(cfg.sigs.size())
		+ std::to_string(cfg.hasL) + std::to_string(cfg.hasT) + std::to_string(cfg.hasX) + std::to_string(cfg.xabs) + std::to_string(cfg.arc > 0) + std::to_string(cfg.oversign.size())
		+ std::to_string(cfg.identity.empty()) + cfg.sigs[0].key->label + std::to_string(cfg.sigs[0].form));
	if (c.idx < 40) c.sample(cfg.str() + " message " + quote(text, 200) + " -> " + quote(out, 300));
}
