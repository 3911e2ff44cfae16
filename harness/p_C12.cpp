// C12: key records are read exactly, their restrictions enforced.
#include "dk.hpp"
#include <errno.h>
#include "keys.hpp"
#include <openssl/pem.h>
#include <openssl/x509.h>
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Key records (random layout, tags missing, repeated, emptied, boundary values, mutated bytes; keys of the wrong type, truncated or with junk) "
	"are parsed and acceptance, key, hashes, flags and testing mode compared with the reference; signed messages are verified under records "
	"with every kind of restriction and the verdict is compared. Non-trivial: distinct records.";
uint64_t mon::cases(bool th) { return th ? 1500000 : 24000; }

static const ref::Key& someKey(Rng& r)
{
	if (r.chance(1, 2)) return ref::edKey((unsigned)r.below(8));
	if (r.chance(1, 60)) return ref::rsaKey("huge");
	if (r.chance(1, 6)) return *ref::oddRsaKeys()[r.below(ref::oddRsaKeys().size())];
	return *ref::rsaKeys()[r.below(ref::rsaKeys().size())];
}

static S ecPub()
{
	static S p;
	if (p.empty())
	{
		// a P-256 public key: well-formed, of the wrong type
		EVP_PKEY* k = EVP_EC_gen("P-256");
		unsigned char* der = nullptr;
		int n = i2d_PUBKEY(k, &der);
		p = ref::b64(S((char*)der, (size_t)n));
		OPENSSL_free(der);
		EVP_PKEY_free(k);
	}
	return p;
}

static S pssPub()
{
	static S p;
	if (p.empty())
	{
		// RSA numbers, for another scheme
		BIO* b = BIO_new_mem_buf(keys::rsapss, -1);
		EVP_PKEY* k = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
		BIO_free(b);
		unsigned char* der = nullptr;
		int n = i2d_PUBKEY(k, &der);
		p = ref::b64(S((char*)der, (size_t)n));
		OPENSSL_free(der);
		EVP_PKEY_free(k);
	}
	return p;
}

static S wordList(Rng& r, const std::vector<S>& known, const std::vector<S>& rare) { return gen::wordList(r, known, rare, true); }

static S rec(Rng& r, const ref::Key& k)
{
	std::vector<std::pair<S, S>> t;
	bool rsa = k.kind == ref::RSA_KEY;
	if (r.chance(1, 2)) t.push_back({ "v", r.chance(5, 6) ? S("DKIM1") : r.chance(1, 2) ? gen::nearMiss(r, "DKIM1") : S(r.pick({ "DKIM2", "", "dkim1", "DKIM", "1", "DKIM11" })) });
	if (!rsa || r.chance(1, 2)) t.push_back({ "k", r.chance(6, 7) ? S(rsa ? "rsa" : "ed25519") : r.chance(1, 2) ? gen::nearMiss(r, rsa ? "rsa" : "ed25519") : S(r.pick({ "rsa", "ed25519", "", "RSA", "dsa", "x", "ed2551", "rsa2" })) });
	if (r.chance(1, 3)) t.push_back({ "h", wordList(r, { "sha1", "sha256" }, { "x", "SHA256", "sha", "sha512", "sha2566", "sha-256", "*", "sha25", "Sha1" }) });
	if (r.chance(1, 3)) t.push_back({ "s", wordList(r, { "email", "*", "x", "web" }, { "Email", "emai", "emails", "**", "tls", "e", "EMAIL", "?" }) });
	if (r.chance(1, 3)) t.push_back({ "t", wordList(r, { "y", "s", "x" }, { "Y", "S", "ys", "yy", "ss", "sy", "z", "-s" }) });
	if (r.chance(1, 6)) t.push_back({ "n", r.chance(1, 12) ? gen::longText(r, gen::sizeUpTo(r, 30000)) : S(r.pick({ "notes", "", "p=x", "a b c" })) });
	if (r.chance(1, 6)) t.push_back({ r.pick({ "g", "x", "P", "K", "V", "p2" }), r.pick({ "*", "", "abc" }) });
	S p;
	switch (r.below(12))
	{
		case 0: p = ""; break;
		case 1: p = ref::b64(r.bytes(r.below(80))); break;
		case 2: p = ref::b64(r.bytes(31 + r.below(3))); break;
		case 3:
		{
			S der;
			ref::unb64(k.pub64, der);
			if (r.chance(1, 2)) der.resize(der.size() - 1 - r.below(4));
			else if (!der.empty()) der[r.below(der.size())] ^= (char)(1 << r.below(8));
			p = ref::b64(der);
			break;
		}
		case 4: p = r.chance(1, 4) ? ecPub() : r.chance(1, 4) ? pssPub() : k.pub64; break;
		default: p = gen::foldB64(r, k.pub64);
	}
	if (!r.chance(1, 15)) t.push_back({ "p", p });
	if (r.chance(1, 20) && !t.empty()) t.push_back(t[r.below(t.size())]);
	if (r.chance(1, 2)) r.shuffle(t);
	S o;
	for (size_t i = 0; i < t.size(); ++i)
	{
		o += gen::ows(r, r.chance(1, 4)) + t[i].first + (r.chance(1, 8) ? " " : "") + "=" + (r.chance(1, 8) ? "  " : "") + t[i].second + (r.chance(1, 8) ? " " : "");
		if (i + 1 < t.size() || r.chance(1, 2)) o += ";";
	}
	if (r.chance(1, 8)) o = gen::mutateBytes(r, o, 1);
	if (r.chance(1, 40)) o += S(1, '\0') + r.pick({ "", "junk", ";", "; t=y", " " });
	else if (r.chance(1, 60)) o.insert(r.below(o.size() + 1), S(1, '\0'));
	return o;
}

static DKIM::PublicKey& reused() { static std::unique_ptr<DKIM::PublicKey> k(new DKIM::PublicKey); return *k; }

static void parse(Ctx& c)
{
	Rng& r = c.r;
	S txt = rec(r, someKey(r));
	ref::Record want = ref::parseRecord(txt);
	bool reuse = r.chance(1, 3);
	DKIM::PublicKey own;
	DKIM::PublicKey& k = reuse ? reused() : own;
	if (reuse) k.Reset();
	dk::Out o = dk::call([&] { k.Parse(txt); });
	auto ctx = [&] { return "record " + quote(txt, 3000) + "\nlibrary: " + o.cls + " " + o.what + "\nreference: " + (want.ok ? "usable" : "unusable: " + want.why); };
	c.check(o.ok() || o.cls == "permerror", "unexpected-error", ctx);
	c.nontrivial(txt);
	if (want.unspec) { c.ev("left open by the rules"); return; }
	// lists that allow nothing may be refused when parsed or when used
	if (want.ok && !want.anyHash && !want.sha1 && !want.sha256) { c.ev("records that allow no known hash"); return; }
	if (!want.ok)
	{
		c.check(!o.ok(), "unusable-record-accepted", ctx);
		c.ev("refused for " + want.why);
		return;
	}
	c.check(o.ok(), "usable-record-refused", ctx);
	c.ev("usable records");
	c.check((k.GetSignatureAlgorithm() == DKIM::DKIM_SA_RSA) == want.rsa, "key-type", ctx);
	if (want.rsa)
	{
		RSA* pub = k.GetRSAPublicKey();
		c.check(pub != nullptr, "no-key", ctx);
		const unsigned char* q = (const unsigned char*)want.keyBytes.data();
		EVP_PKEY* w = d2i_PUBKEY(nullptr, &q, (long)want.keyBytes.size());
		RSA* wr = EVP_PKEY_get1_RSA(w);
		const BIGNUM *n1, *e1, *n2, *e2;
		RSA_get0_key(pub, &n1, &e1, nullptr);
		RSA_get0_key(wr, &n2, &e2, nullptr);
		bool same = BN_cmp(n1, n2) == 0 && BN_cmp(e1, e2) == 0;
		RSA_free(wr);
		EVP_PKEY_free(w);
		c.check(same, "key-differs", ctx);
	}
	else c.check(k.GetED25519PublicKey() == want.keyBytes, "key-differs", ctx);
	auto& dl = k.GetDigestAlgorithms();
	bool s1 = dl.empty(), s2 = dl.empty();
	for (auto d : dl) { if (d == DKIM::DKIM_A_SHA1) s1 = true; if (d == DKIM::DKIM_A_SHA256) s2 = true; }
	c.check(s1 == (want.anyHash || want.sha1) && s2 == (want.anyHash || want.sha256), "allowed-hashes", ctx);
	std::vector<S> fl(k.GetFlags().begin(), k.GetFlags().end());
	c.check(fl == want.flags, "flags", ctx);
	c.check(k.SoftFail() == want.y, "testing-mode", ctx);
	c.ev(S(want.y ? "testing" : "not testing") + (want.strict ? ", strict" : ""));
	if (c.idx < 40) c.sample(quote(txt, 300));
}

static void whole(Ctx& c)
{
	Rng& r = c.r;
	gen::Message m = gen::message(r, true);
	gen::SignSpec s = gen::signSpec(r, m);
	if (s.key->kind == ref::RSA_KEY) s.key = ref::rsaKeys()[r.below(2)];
	gen::signInto(r, m, 0, s);
	S text = m.text(), name = s.s + "._domainkey." + ref::lower(s.d);
	for (int i = 0; i < 6; ++i)
	{
		dk::Dns dns;
		// mostly the right key, so that only the restriction decides
		const ref::Key& k = r.chance(4, 5) ? *s.key : someKey(r);
		S t = rec(r, k);
		if (r.chance(1, 3))
		{
			t = k.record();
			if (r.chance(1, 2)) t += "; h=" + wordList(r, { "sha1", "sha256" }, { "other", "sha512" });
			if (r.chance(1, 4)) t += "; s=" + wordList(r, { "email", "*", "web" }, { "other" });
			if (r.chance(1, 3)) t += "; t=" + wordList(r, { "y", "s", "x" }, { "S", "other" });
			if (r.chance(1, 8)) t += S(1, '\0') + r.pick({ "", "junk", ";", "; t=y", " " });
		}
		dns.zone[name] = { 0, t };
		dk::judge(c, text, s.arc > 0, dns, [&] { return "record " + quote(t, 1500) + "\n" + quote(text, 3000); }, "under-record");
		c.ev("verifications under a record");
		c.nontrivial(t);
	}
}

void mon::run(Ctx& c)
{
	if (c.idx % 12 == 0) whole(c);
	else parse(c);
}
