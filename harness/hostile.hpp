// Hostile inputs for every entry point: valid ones damaged, assembled nonsense, arbitrary bytes.
#pragma once
#include "dnspkt.hpp"
#include "entry.hpp"
#include "keys.hpp"
#include "sigtext.hpp"
#include <openssl/bn.h>
#include <openssl/x509.h>

namespace hostile
{
	typedef std::string S;
	typedef mon::Rng Rng;

	inline S splice(Rng& r)
	{
		switch (r.below(8))
		{
			case 0: return r.pick({ "=", "==", "=?", "?=", "=?utf-8?", "=?utf-8?Q?", "=?utf-8?B?", "=?a?Q?=", "=0", "=0D", "=ff", "_", "?" });
			case 1: return r.pick({ "\r\n", "\r", "\n", "\r\n ", "\r\n\r\n", "\n\n", " \r\n\t", "\r\r\n", "\t", " ", "\r\n.\r\n" });
			case 2: return r.pick({ "\"", "\\", "(", ")", "<", ">", ",", ";", ":", "@", "\"\\", "(\\", "((", "))", "<<", ">>", ",,", ";;", "::" });
			case 3: return r.pick({ "v=1", "a=rsa-sha256", "a=ed25519-sha256", "b=", "bh=", "c=relaxed", "d=", "h=from", "i=@", "l=0", "l=18446744073709551616", "q=dns/txt", "s=", "t=", "x=1", "k=ed25519", "k=rsa", "p=", "p=AAAA", "t=s", "t=y:s", "s=*", "h=sha1" });
			case 4: return S(1 + r.below(r.chance(1, 10) ? 9000 : 60), r.pick({ " ", "\t", "a", "=", ":", ";", "(", "\"", "\\", "\n", "\r", "A", "/", "\xff" })[0]);
			case 5: return r.pick({ "DKIM-Signature:", "ARC-Message-Signature:", "From:", "From: a@b.c\r\n", ":", "-----BEGIN", "dkim-signature : v=1;" });
			case 6: return S(1, '\0') + (r.chance(1, 2) ? S(3, '\0') : S());
			default: return r.bytes(1 + r.below(8));
		}
	}

	inline S damage(Rng& r, S s)
	{
		for (size_t n = r.below(5); n; --n)
		{
			size_t p = r.below(s.size() + 1), k = 1 + r.below(r.chance(1, 6) ? 200 : 6);
			switch (r.below(8))
			{
				case 0: s.insert(p, splice(r)); break;
				case 1: s.erase(p, k); break;
				case 2: if (p < s.size()) s[p] = (char)r.next(); break;
				case 3: if (p < s.size()) s[p] = (char)(s[p] ^ (1 << r.below(8))); break;
				case 4: s.resize(p); break;
				case 5: s.insert(r.below(s.size() + 1), s.substr(p, k)); break;
				case 6: if (p < s.size()) { S x = splice(r); s.replace(p, x.size(), x); } break;
				default: { size_t q = r.below(s.size() + 1); S x = s.substr(p, k); s.erase(p, k); s.insert(std::min(q, s.size()), x); break; }
			}
		}
		return s;
	}

	inline S nonsense(Rng& r, size_t max = 30)
	{
		S o;
		for (size_t n = r.below(max); n; --n) o += r.chance(2, 3) ? splice(r) : gen::word(r);
		return o;
	}

	inline S odd(Rng& r, const S& valid)
	{
		switch (r.below(6))
		{
			case 0: return valid;
			case 1: return nonsense(r);
			case 2: return r.bytes(r.below(r.chance(1, 20) ? 5000 : 100));
			default: return damage(r, valid);
		}
	}

	// SubjectPublicKeyInfo with an odd modulus and exponent
	inline S oddRsaDer(Rng& r)
	{
		RSA* k = RSA_new();
		BIGNUM *n = BN_new(), *e = BN_new();
		S nb, eb;
		switch (r.below(6))
		{
			case 0: nb = r.bytes(r.below(4)); break;
			case 1: nb = r.bytes(64 + r.below(200)); break;
			case 2: nb = S(r.below(300), '\0'); break;
			case 3: nb = r.bytes(2049); break;
			case 4: nb = S(128, '\xff'); break;
			default: nb = "\x01"; break;
		}
		switch (r.below(5))
		{
			case 0: eb = S(); break;
			case 1: eb = "\x01"; break;
			case 2: eb = r.bytes(1 + r.below(200)); break;
			case 3: eb = "\x02"; break;
			default: eb = S("\x01\x00\x01", 3); break;
		}
		BN_bin2bn((const unsigned char*)nb.data(), (int)nb.size(), n);
		BN_bin2bn((const unsigned char*)eb.data(), (int)eb.size(), e);
		RSA_set0_key(k, n, e, nullptr);
		unsigned char* p = nullptr;
		int l = i2d_RSA_PUBKEY(k, &p);
		S o = l > 0 ? S((char*)p, (size_t)l) : S();
		OPENSSL_free(p);
		RSA_free(k);
		return o;
	}

	inline S spki(const char* pem)
	{
		BIO* b = BIO_new_mem_buf(pem, -1);
		EVP_PKEY* k = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
		BIO_free(b);
		unsigned char* p = nullptr;
		int l = k ? i2d_PUBKEY(k, &p) : 0;
		S o = l > 0 ? S((char*)p, (size_t)l) : S();
		OPENSSL_free(p);
		EVP_PKEY_free(k);
		return o;
	}

	inline S record(Rng& r, bool rsa)
	{
		switch (r.below(8))
		{
			case 0: case 1: return gen::recordFor(r, gen::anyKey(r, rsa));
			case 2: return "v=DKIM1; k=ed25519; p=" + ref::b64(r.bytes(r.below(80)));
			case 3: return "p=" + ref::b64(oddRsaDer(r));
			case 4: return S("p=") + ref::b64(spki(r.chance(1, 2) ? keys::ec256 : keys::ed25519pem));
			case 5: { S d; ref::unb64(ref::rsaKey("a").pub64, d); return "p=" + ref::b64(damage(r, d)); }
			default: return odd(r, gen::recordFor(r, gen::anyKey(r, rsa)));
		}
	}

	// A signed message, often still verifying up to the signature value, which has any length.
	inline entry::Input verification(Rng& r)
	{
		entry::Input in;
		gen::Message m = gen::message(r, true);
		bool rsa = r.chance(1, 2), arc = r.chance(1, 8);
		for (size_t n = r.chance(1, 4) ? 2 : 1; n; --n)
		{
			gen::SignSpec s = gen::signSpec(r, m);
			s.key = rsa ? (r.chance(1, 10) ? r.pick(ref::oddRsaKeys()) : ref::rsaKeys()[r.below(2)]) : &ref::edKey((unsigned)r.below(8));
			s.sha256 = !rsa || r.chance(1, 2);
			s.arc = arc ? 1 + (unsigned)r.below(50) : 0;
			if (arc) s.hasI = false;
			s.plain = r.chance(1, 2);
			if (r.chance(1, 6)) s.x = r.pick({ "0", "1", "86400", "1000000000", "1794999999", "1795000000", "9223372036854775807", "99999999999999999999999" });
			if (r.chance(1, 12)) { s.hasL = true; s.l = r.chance(1, 2) ? r.below(50) : (unsigned long)r.next() >> 1; }
			S raw = gen::signInto(r, m, r.below(m.fields.size() + 1), s);
			in.b = gen::recordFor(r, *s.key);
			if (r.chance(2, 3))
				for (auto& f : m.fields)
					if (f == raw)
					{
						std::vector<ref::Tag> t;
						size_t colon = f.find(':');
						if (!ref::tagList(f.substr(colon + 1), t)) break;
						const ref::Tag* b = ref::findTag(t, "b");
						if (!b) break;
						S v;
						switch (r.below(5))
						{
							case 0: v = ref::b64(r.bytes(r.below(70))); break;
							case 1: v = ref::b64(r.bytes(r.below(600))); break;
							case 2: v = b->value.substr(0, r.below(b->value.size() + 1)); break;
							case 3: v = b->value + nonsense(r, 3); break;
							default: v = ref::b64(S(64, r.chance(1, 2) ? '\0' : '\xff')); break;
						}
						f.replace(colon + 1 + b->off, b->value.size(), v);
						break;
					}
		}
		if (r.chance(1, 10)) m.body += r.pick({ "x", "\r\n", " ", "\r\nx\r\n" });
		in.a = m.text(&r, (int)r.below(3));
		in.which = arc ? entry::VERIFY_ARC : r.chance(1, 4) ? entry::VERIFY_DNS : entry::VERIFY;
		if (r.chance(1, 3)) in.b = record(r, rsa);
		if (r.chance(1, 30)) in.b = "!";
		if (r.chance(1, 3)) in.a = damage(r, in.a);
		if (in.which == entry::VERIFY_DNS)
		{
			S p = dnspkt::build(r, dnspkt::reply(r, "s._domainkey.example.org", in.b));
			in.b = r.chance(1, 3) ? damage(r, p) : p;
			if (r.chance(1, 20)) in.b.clear();
		}
		return in;
	}

	inline entry::Input any(Rng& r)
	{
		using namespace entry;
		Input in;
		int w = (int)r.below(COUNT + 6);
		if (w >= COUNT) w = VERIFY;
		in.opt = (unsigned)r.below(256);
		switch (w)
		{
			case VERIFY: case VERIFY_ARC: case VERIFY_DNS:
			{
				unsigned o = in.opt;
				in = verification(r);
				in.opt = o;
				return in;
			}
			case SIGNATURE:
			{
				S d = gen::domain(r);
				bool arc = r.chance(1, 6);
				sigtext::Tags t = sigtext::tags(r, arc, d);
				if (r.chance(1, 2)) t[r.below(t.size())].second = r.chance(1, 2) ? nonsense(r, 4) : damage(r, t[r.below(t.size())].second);
				in.a = odd(r, sigtext::layout(r, arc ? "ARC-Message-Signature" : "DKIM-Signature", t));
				break;
			}
			case RECORD: in.a = record(r, r.chance(1, 2)); if (r.chance(1, 2)) in.b = record(r, r.chance(1, 2)); break;
			case TAGS: in.a = odd(r, gen::recordFor(r, gen::anyKey(r, false))); in.b = r.pick({ "p", "k", "v", "", "zz" }); break;
			case VALUES: in.a = odd(r, gen::word(r) + ":" + gen::fws(r) + gen::word(r) + " :" + gen::word(r)); break;
			case ADDRESSES: in.a = odd(r, "\"A (b)\" <a@b.c>, c@d (x(y)z), Group: e@f, g @ h;"); break;
			case WORDS: in.a = odd(r, "=?utf-8?Q?a=20b_c?= x =?utf-8?B?" + ref::b64(r.bytes(r.below(40))) + "?=\r\n =?x?q??="); break;
			case QP: in.a = odd(r, ref::qpEnc(r.bytes(r.below(60)))); break;
			case BASE64: in.a = odd(r, ref::b64(r.bytes(r.below(r.chance(1, 30) ? 9000 : 100)))); break;
			case PACKET:
			{
				dnspkt::Reply p = dnspkt::reply(r, "a.b", nonsense(r, 8));
				in.a = odd(r, dnspkt::build(r, p));
				if (r.chance(9, 10)) in.opt &= ~1u;
				break;
			}
			case SIGN: in.a = odd(r, gen::message(r, true).text(&r, (int)r.below(3))); in.b = nonsense(r, 4); break;
			case KEY:
			{
				const ref::Key &k = *ref::rsaKeys()[r.below(2)], &e = ref::edKey((unsigned)r.below(8));
				auto one = [&]() -> S {
					switch (r.below(12))
					{
						case 0: return k.pem;
						case 1: return k.der64;
						case 2: return e.seed;
						case 3: return e.sk;
						case 4: return ref::b64(r.chance(1, 2) ? e.seed : e.sk);
						case 5: return keys::ec256;
						case 6: return keys::ed25519pem;
						case 7: return r.bytes(r.below(140));
						case 8: return ref::b64(r.bytes(r.below(140)));
						case 9: return damage(r, k.pem);
						case 10: { S d; ref::unb64(ref::noWs(k.der64), d); return ref::b64(damage(r, d)); }
						default: return damage(r, r.chance(1, 2) ? e.sk : ref::b64(e.seed));
					}
				};
				in.a = one();
				if (r.chance(1, 3)) in.b = one();
				break;
			}
			case CANON_HEADER: in.a = odd(r, gen::field(r, gen::fieldName(r))); break;
			case CANON_BODY: in.a = odd(r, gen::body(r, r.chance(1, 40))); in.b = S(r.below(in.a.size() + 3), 'x'); break;
			case MESSAGE: in.a = odd(r, gen::message(r, r.chance(1, 2)).text(&r, (int)r.below(3))); break;
			case ENCODE: in.a = r.bytes(r.below(r.chance(1, 20) ? 9000 : 100)); break;
			default: in.a = odd(r, gen::domain(r)); in.b = odd(r, gen::domain(r)); break;
		}
		in.which = w;
		return in;
	}
}
