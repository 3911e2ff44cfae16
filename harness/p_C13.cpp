// C13: which name is asked, how, and how outcomes are classified.
#include "dk.hpp"
#include "dnspkt.hpp"
#include "interpose.hpp"
#include "sigtext.hpp"
#include <netdb.h>
#include <arpa/nameser.h>
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Signatures with random selectors and domains (any case) are looked up through a recording resolver callback or through the interposed DNS "
	"functions; the monitor checks the name, the query type, the data pointer, that exactly one source is asked, and the class for failed, "
	"empty and successful lookups; the key that arrives must be the one served, records split over many strings included. "
	"Non-trivial: distinct (selector, domain, outcome).";
uint64_t mon::cases(bool th) { return th ? 600000 : 40000; }

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	bool arc = r.chance(1, 4);
	S d = gen::caseMix(r, gen::domain(r));
	// the name asked for is made of the values as they are
	if (r.chance(1, 30)) d += r.pick({ ".", "..", "-", "_" });
	if (r.chance(1, 60)) d = r.pick({ ".", "*.", "_", "xn--" }) + d;
	sigtext::Tags tags = sigtext::tags(r, arc, d);
	S sel = sigtext::find(tags, "s")->second;
	for (char& ch : sel) if (ch == '"' || ch == '\\') ch = '-';
	if (r.chance(1, 2)) sel = gen::caseMix(r, gen::domain(r));
	if (r.chance(1, 30)) sel += r.pick({ ".", "..", "-", "_", "._domainkey" });
	if (r.chance(1, 60)) sel = r.pick({ ".", "*.", "_", "*" }) + sel;
	if (r.chance(1, 60)) { while (sel.size() + d.size() < 150 + r.below(300) && sel.size() < 240) sel += "." + gen::label(r); }
	sigtext::set(tags, "s", sel);
	r.shuffle(tags);
	S text = sigtext::layout(r, arc ? "ARC-Message-Signature" : "DKIM-Signature", tags) + "\r\n\r\nx\r\n";
	std::istringstream in(text);
	DKIM::Validatory v(in, arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
	c.check(v.GetSignatures().size() == 1, "signature-not-found", [&] { return quote(text); });
	DKIM::Signature sig;
	dk::Out po = dk::call([&] { sig.Parse(*v.GetSignatures().begin()); });
	c.check(po.ok(), "valid-field-refused", [&] { return po.what + "\n" + quote(text, 2000); });
	S name = sel + "._domainkey." + ref::lower(d);
	c.nontrivial(name + std::to_string(c.idx % 8));

	const ref::Key& k = r.chance(1, 2) ? ref::edKey((unsigned)r.below(8)) : r.chance(1, 4) ? *ref::oddRsaKeys()[1] : *ref::rsaKeys()[r.below(ref::rsaKeys().size())];
	S rec = gen::recordFor(r, k);
	S flag = r.from("abcdefgh", 8);
	rec = rec + (rec.back() == ';' ? "" : ";") + " zz=" + r.from("abcdefghijklmnop 0123456789", r.chance(1, 4) ? r.chance(1, 20) ? gen::sizeUpTo(r, 30000) : 2000 : r.below(50)) + "x; ";
	std::vector<ref::Tag> have;
	if (ref::tagList(rec, have) && !ref::findTag(have, "t")) rec += "t=" + flag + ":" + (r.chance(1, 2) ? "y" : "q");
	// a record with a byte no record may hold is refused whatever stands before it
	bool cut = r.chance(1, 25);
	if (cut) rec += S(1, '\0') + r.pick({ "", "junk", ";", "; x=1" });
	int outcome = (int)r.below(5);	// 0, 1, 2: record, 3: nothing, 4: failure
	bool callback = r.chance(1, 2);
	int marker = 0;
	std::vector<S> asked;
	std::vector<void*> data;
	unsigned long dnsBefore = interpose::counts.dnsQueries;
	std::vector<S> dnsAsked;
	bool setData = r.chance(2, 3);
	int herrUsed = 0;
	interpose::dns = [&](const char* n, unsigned char* ans, int size, int& herr) -> int {
		dnsAsked.push_back(n);
		if (outcome == 4) { herr = herrUsed = r.chance(1, 2) ? TRY_AGAIN : NETDB_INTERNAL; return -1; }
		if (outcome == 3 && r.chance(2, 3)) { herr = herrUsed = r.chance(1, 2) ? NO_DATA : HOST_NOT_FOUND; return -1; }
		dnspkt::Reply p;
		if (outcome == 3) { p.qname = "example.org"; if (r.chance(1, 2)) p.answer.push_back(dnspkt::other(r, "example.org")); }
		else p = dnspkt::reply(r, "example.org", rec);
		S b = dnspkt::build(r, p);
		if ((int)b.size() > size) return (int)b.size();
		memcpy(ans, b.data(), b.size());
		return (int)b.size();
	};
	if (callback)
	{
		v.CustomDNSResolver = [&](const S& n, S& out, void* p) {
			asked.push_back(n);
			data.push_back(p);
			if (outcome == 4) return false;
			if (outcome < 3) out = rec;
			return true;
		};
		if (setData) v.CustomDNSData = &marker;
	}
	DKIM::PublicKey pub;
	int rounds = r.chance(1, 5) ? 2 : 1;
	for (int i = 0; i < rounds; ++i)
	{
		asked.clear(); data.clear(); dnsAsked.clear();
		dnsBefore = interpose::counts.dnsQueries;
		pub.Reset();
		dk::Out o = dk::call([&] { v.GetPublicKey(sig, pub); });
		auto ctx = [&] {
			S a;
			for (auto& x : asked) a += " callback:" + quote(x);
			for (auto& x : dnsAsked) a += " dns:" + quote(x);
			return S("want ") + quote(name) + ", outcome " + std::to_string(outcome) + (callback ? " (callback)" : " (dns)") + " herr " + std::to_string(herrUsed) + "\nasked" + a + "\nlibrary: " + o.cls + " " + o.what + "\nrecord " + quote(rec, 1000) + "\n" + quote(text, 1500); };
		if (callback)
		{
			c.check(asked.size() == 1 && asked[0] == name, "wrong-name", ctx);
			c.check(interpose::counts.dnsQueries == dnsBefore, "dns-asked-in-spite-of-callback", ctx);
			c.check(data[0] == (setData ? (void*)&marker : nullptr), "data-pointer", ctx);
			c.ev("callback lookups");
		}
		else
		{
			c.check(dnsAsked.size() == 1, "not-asked", ctx);
			c.check(dnsAsked[0] == name, "wrong-name", ctx);
			c.check(interpose::dnsType == T_TXT && interpose::dnsClass == C_IN, "wrong-query-type", ctx);
			c.ev("dns lookups");
		}
		if (outcome == 4)
		{
			c.check(o.cls == "temperror" && o.temp, "failed-lookup-not-temporary", ctx);
			c.ev("failed lookups");
		}
		else if (outcome == 3)
		{
			c.check(o.cls == "permerror" && o.perm, "missing-record-not-permanent", ctx);
			c.ev("missing records");
		}
		else if (cut)
		{
			c.check(o.cls == "permerror" && o.perm, "record-cut-short", ctx);
			c.ev("records with a NUL refused");
		}
		else
		{
			c.check(o.ok(), "record-refused", ctx);
			bool same;
			if (k.kind == ref::ED_KEY)
			{
				S b;
				ref::unb64(k.pub64, b);
				same = pub.GetSignatureAlgorithm() == DKIM::DKIM_SA_ED25519 && pub.GetED25519PublicKey() == b;
			}
			else
			{
				RSA* w = EVP_PKEY_get1_RSA((EVP_PKEY*)k.pkey);
				const BIGNUM *n1 = nullptr, *n2 = nullptr, *e;
				if (pub.GetRSAPublicKey()) RSA_get0_key(pub.GetRSAPublicKey(), &n1, &e, nullptr);
				RSA_get0_key(w, &n2, &e, nullptr);
				same = n1 && BN_cmp(n1, n2) == 0;
				RSA_free(w);
			}
			c.check(same, "another-key", ctx);
			ref::Record w = ref::parseRecord(rec);
			c.check(std::vector<S>(pub.GetFlags().begin(), pub.GetFlags().end()) == w.flags, "record-not-used-in-full", ctx);
			c.ev("keys compared");
		}
		outcome = (int)r.below(5);
	}
	interpose::dns = nullptr;
	if (c.idx < 20) c.sample(name + (callback ? " by callback" : " by DNS") + " outcome " + std::to_string(outcome));
}
