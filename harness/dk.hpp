// Glue between the generators and the library under test.
#pragma once
#include "gen.hpp"
#include "mon.hpp"
#include "ref.hpp"
#include <functional>
#include <openssl/evp.h>
#include <src/Signatory.hpp>
#include <src/SignatoryOptions.hpp>
#include <src/Validatory.hpp>
#include <time.h>
#include <typeinfo>

namespace dk
{
	typedef std::string S;

	// What a call did: "ok", or the class the library reported, with the kind of exception.
	struct Out
	{
		S cls;		// ok, fail, permerror, temperror, ... , "other:<type>"
		S what;
		bool perm = false, temp = false;
		bool ok() const { return cls == "ok"; }
	};

	// told when control enters the library and when it is back, however it comes back
	inline thread_local void (*around)(bool) = nullptr;
	struct Around { Around() { if (around) around(true); } ~Around() { if (around) around(false); } };
	struct Pause { Pause() { if (around) around(false); } ~Pause() { if (around) around(true); } };

	template <class F> Out call(F f)
	{
		Out o;
		try {
			Around a;
			f();
			o.cls = "ok";
		} catch (DKIM::PermanentError& e) {
			o.cls = e.getAuthenticationResult(); o.what = e.what(); o.perm = true;
		} catch (DKIM::TemporaryError& e) {
			o.cls = e.getAuthenticationResult(); o.what = e.what(); o.temp = true;
		} catch (const mon::Abort&) {
			throw;
		} catch (const std::exception& e) {
			o.cls = S("other:") + typeid(e).name(); o.what = e.what();
		} catch (...) {
			o.cls = "other:unknown";
		}
		return o;
	}

	struct Dns
	{
		std::map<S, std::pair<int, S>> zone;	// name -> (0 record, 1 lookup fails, 2 nothing), text
		std::vector<S> asked;
		void* gotData = nullptr;
		bool operator()(const S& name, S& out, void* data)
		{
			asked.push_back(name);
			gotData = data;
			auto i = zone.find(name);
			if (i == zone.end() || i->second.first == 2) return true;
			if (i->second.first == 1) return false;
			out = i->second.second;
			return true;
		}
	};

	// The class for the whole procedure: pass, fail, permerror, temperror (or other:...).
	inline Out verify(DKIM::Validatory& v, const DKIM::Validatory::SignatureList::const_iterator& i, DKIM::Signature* sigOut = nullptr)
	{
		DKIM::Signature own;
		DKIM::Signature& sig = sigOut ? *sigOut : own;
		DKIM::PublicKey pub;
		Out o = call([&] {
			v.GetSignature(i, sig);
			v.GetPublicKey(sig, pub);
			v.CheckSignature(i, sig, pub);
		});
		if (o.ok()) o.cls = "pass";
		return o;
	}

	inline std::vector<Out> verifyText(const S& text, bool arc, Dns& dns)
	{
		std::istringstream in(text);
		DKIM::Validatory v(in, arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
		v.CustomDNSResolver = std::ref(dns);
		std::vector<Out> r;
		for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i) r.push_back(verify(v, i));
		return r;
	}

	// Keys handed over as objects have to outlive the options.
	struct KeyHold
	{
		std::vector<RSA*> held;
		~KeyHold() { for (auto k : held) RSA_free(k); }
	};

	template <class O> void setKey(O& o, const gen::SigCfg& s, KeyHold& hold)
	{
		const ref::Key& k = *s.key;
		if (k.kind == ref::RSA_KEY)
		{
			o.SetSignatureAlgorithm(DKIM::DKIM_SA_RSA);
			switch (s.form)
			{
				case 0: o.SetPrivateKey(k.pem); break;
				case 1: o.SetPrivateKey(k.der64); break;
				case 2: { RSA* r; { Pause p; r = EVP_PKEY_get1_RSA((EVP_PKEY*)k.pkey); } o.SetRSAPrivateKey(r, true); break; }
				case 3:
				{
					RSA* r;
					{ Pause p; r = EVP_PKEY_get1_RSA((EVP_PKEY*)k.pkey); hold.held.push_back(r); }
					o.SetRSAPrivateKey(r, false);
					break;
				}
				default: o.SetPrivateKey(k.pem1);
			}
		}
		else
		{
			o.SetSignatureAlgorithm(DKIM::DKIM_SA_ED25519);
			switch (s.form)
			{
				case 0: o.SetPrivateKey(k.seed); break;
				case 1: { S b; { Pause p; b = ref::b64(k.seed); } o.SetPrivateKey(b); break; }
				case 2: o.SetPrivateKey(k.sk); break;
				default: { S b; { Pause p; b = ref::b64(k.sk); } o.SetPrivateKey(b); break; }
			}
		}
		o.SetDomain(s.domain).SetSelector(s.selector);
	}

	// what RFC 6376 5.4.1, RFC 8058 and RFC 9477 ask to have signed
	inline const std::vector<S> recommended = { "from", "reply-to", "subject", "date", "to", "cc", "resent-date", "resent-from", "resent-to", "resent-cc", "in-reply-to", "references",
		"list-id", "list-help", "list-unsubscribe", "list-subscribe", "list-post", "list-owner", "list-archive", "list-unsubscribe-post", "cfbl-address", "cfbl-feedback-id", "sender",
		"message-id", "mime-version", "content-type", "content-transfer-encoding", "content-id", "content-description", "resent-sender", "resent-message-id" };

	inline std::list<S> lst(const std::vector<S>& v) { return std::list<S>(v.begin(), v.end()); }

	inline void apply(const gen::Cfg& c, DKIM::SignatoryOptions& o, KeyHold& hold)
	{
		setKey(o, c.sigs[0], hold);
		for (size_t i = 1; i < c.sigs.size(); ++i) setKey(o.AddAdditionalSignature(), c.sigs[i], hold);
		o.SetDigestAlgorithm(c.sha256 ? DKIM::DKIM_A_SHA256 : DKIM::DKIM_A_SHA1);
		o.SetCanonModeHeader(c.relH ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE);
		o.SetCanonModeBody(c.relB ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE);
		if (c.hmode == 1) o.SetHeaders(lst(c.headers));
		if (c.hmode == 2) o.SetHeaders({});
		if (c.hmode == 3) { o.AddHeaders(lst(c.add)); o.DelHeaders(lst(c.del)); }
		if (!c.oversign.empty()) o.SetOversignHeaders(lst(c.oversign));
		if (c.hasL) o.SetSignBodyLength(c.l);
		if (c.hasT) o.SetTimestamp(c.t);
		if (c.hasX) o.SetExpiration(c.x, c.xabs);
		if (!c.identity.empty()) o.SetIdentity(c.identity);
		if (c.arc) o.SetARCInstance(c.arc);
	}

	inline S sign(const S& text, const DKIM::SignatoryOptions& o)
	{
		std::istringstream in(text);
		return DKIM::Signatory(in).CreateSignature(o);
	}

	inline S sign(const S& text, const gen::Cfg& c)
	{
		KeyHold hold;
		DKIM::SignatoryOptions o;
		apply(c, o, hold);
		return sign(text, o);
	}

	inline S keyName(const gen::SigCfg& s) { return s.selector + "._domainkey." + ref::lower(s.domain); }

	inline Dns zoneFor(const gen::Cfg& c)
	{
		Dns d;
		for (auto& s : c.sigs) d.zone[keyName(s)] = { 0, s.key->record() };
		return d;
	}

	// The verdicts of the library on every signature field of a message against the reference's.
	struct Judged { std::vector<S> cls; size_t unspec = 0; };
	inline Judged judge(mon::Ctx& c, const S& text, bool arc, Dns& dns, const std::function<S()>& ctx, const char* key = "verdict")
	{
		Judged j;
		std::vector<Out> lib = verifyText(text, arc, dns);
		ref::Msg m = ref::parse(text);
		std::vector<size_t> at;
		for (size_t i = 0; i < m.f.size(); ++i)
			if (ref::iequal(m.f[i].name, arc ? "arc-message-signature" : "dkim-signature")) at.push_back(i);
		c.check(at.size() == lib.size(), "signature-fields-found", [&] { return std::to_string(lib.size()) + " instead of " + std::to_string(at.size()) + "\n" + ctx(); });
		long now = (long)time(nullptr);
		for (size_t k = 0; k < at.size(); ++k)
		{
			ref::Sig s = ref::parseSig(m.f[at[k]], now);
			auto z = dns.zone.find(s.s + "._domainkey." + s.d);
			int lookup = z == dns.zone.end() ? 2 : z->second.first;
			S rec = z == dns.zone.end() ? S() : z->second.second;
			if (lookup == 0 && rec.empty()) lookup = 2;
			bool unspec = false;
			std::set<S> want = ref::verdict(text, at[k], now, lookup, rec, unspec);
			const Out& o = lib[k];
			j.cls.push_back(o.cls);
			c.check(o.cls == "pass" || o.cls == "fail" || o.cls == "permerror" || o.cls == "temperror", "unknown-error-class",
				[&] { return o.cls + " " + o.what + "\n" + ctx(); });
			if (unspec) { ++j.unspec; c.ev("left open by the rules"); continue; }
			c.check(want.count(o.cls) > 0, (std::string(key) + "-" + o.cls + "-instead-of-" + *want.begin()).c_str(), [&] {
				S w;
				for (auto& x : want) w += x + " ";
				return "field " + std::to_string(k) + ": library says " + o.cls + " (" + o.what + "), the rules say " + w + "(" + s.why + ")\n" + ctx(); });
			c.ev("verdict " + o.cls);
		}
		return j;
	}
}
