// C02: tampering with signed content is always detected.
#include "dk.hpp"
#include <openssl/bn.h>
#include <openssl/rsa.h>
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"A signed message (by the library or by the independent signer) is altered at random (bytes, fields, body, signature "
	"value, key record); a pass is allowed only if the reference's signed data, signed body, signature value and key are the "
	"original ones. Non-trivial: an altered message/record pair that was judged.";
uint64_t mon::cases(bool th) { return th ? 300000 : 7000; }

// What a signature of field k covers, by the reference. "" if the field is refused.
static S covered(const ref::Msg& m, const S& text, size_t k, bool sigToo)
{
	ref::Sig s = ref::parseSig(m.f[k], 0);
	if (!s.ok) return "";
	S data;
	if (!ref::signedData(m, k, s, data)) return "";
	S b = ref::canonBody(ref::bodyOf(text, m), s.relB);
	if (s.hasL && s.l < b.size()) b.resize(s.l);
	return data + "\n--body--\n" + b + (sigToo ? "\n--sig--\n" + s.b : S());
}

static S replaceB(const S& raw, size_t voff, const S& sig)
{
	std::vector<ref::Tag> t;
	ref::tagList(raw.substr(voff), t);
	const ref::Tag* b = ref::findTag(t, "b");
	return raw.substr(0, voff + b->off) + ref::b64(sig) + raw.substr(voff + b->off + b->value.size());
}

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	gen::Message m = gen::message(r, true, r.chance(1, 100));
	S text, rec, name;
	bool arc;
	const ref::Key* key;
	S what;
	if (r.chance(1, 2))
	{
		gen::Cfg cfg = gen::config(r, m, false);
		what = cfg.str();
		S t = m.text();
		S out;
		dk::Out o = dk::call([&] { out = dk::sign(t, cfg); });
		c.check(o.ok(), "signing-refused", [&] { return o.what + "\n" + what; });
		text = out + "\r\n" + t;
		arc = cfg.arc > 0;
		key = cfg.sigs[0].key;
		name = dk::keyName(cfg.sigs[0]);
	}
	else
	{
		gen::SignSpec sp = gen::signSpec(r, m);
		what = "independent signer";
		gen::signInto(r, m, 0, sp);
		text = m.text();
		arc = sp.arc > 0;
		key = sp.key;
		name = sp.s + "._domainkey." + ref::lower(sp.d);
	}
	rec = gen::recordFor(r, *key);
	ref::Msg m0 = ref::parse(text);
	S orig = covered(m0, text, 0, true), origNoSig = covered(m0, text, 0, false);
	ref::Sig s0 = ref::parseSig(m0.f[0], 0);
	c.check(!orig.empty(), "own-field-unreadable", [&] { return quote(m0.f[0].raw, 2000); });

	dk::Dns dns;
	dns.zone[name] = { 0, rec };
	std::vector<dk::Out> o = dk::verifyText(text, arc, dns);
	c.check(!o.empty() && o[0].cls == "pass", "untampered-message-refused", [&] { return (o.empty() ? S("no field") : o[0].what) + "\n" + what + "\n" + quote(text, 3000); });
	c.ev("untampered passes");

	// the key's own owner signs another body's hash: the body that is there is not the one signed
	if (r.chance(1, 4))
	{
		gen::Message x = gen::message(r, true);
		gen::SignSpec sp = gen::signSpec(r, x);
		if (r.chance(1, 6)) gen::nulHash(r, x, sp);
		auto tags = gen::tagsOf(r, x, sp);
		S h;
		for (auto& t : tags)
			if (t.first == "bh")
			{
				ref::unb64(ref::noWs(t.second), h);
				t.second = ref::b64(gen::wrongHash(r, h));
			}
		gen::signTags(r, x, 0, sp, tags, true);
		dk::Dns d;
		d.zone[sp.s + "._domainkey." + ref::lower(sp.d)] = { 0, sp.key->record() };
		S t = x.text();
		std::vector<dk::Out> v = dk::verifyText(t, sp.arc > 0, d);
		c.check(!v.empty() && v[0].cls != "pass", "wrong-body-hash-accepted", [&] { return "the body's hash is " + ref::b64(h) + "\n" + quote(t, 4000); });
		c.ev("validly signed wrong body hashes refused");
		c.nontrivial(t);
	}

	unsigned rounds = 4;
	while (rounds--)
	{
		S t2 = text, rec2 = rec;
		const ref::Key* key2 = key;
		S kind;
		switch (r.below(10))
		{
			case 0: case 1: kind = "bytes anywhere"; t2 = gen::mutateBytes(r, text, 1 + (unsigned)r.below(3)); break;
			case 2:	// inside the body
			{
				kind = "body";
				if (m0.body < 0) { t2 = text + "\r\n\r\nx"; break; }
				t2 = text.substr(0, (size_t)m0.body) + gen::mutateBytes(r, text.substr((size_t)m0.body), 1);
				break;
			}
			case 3:	// inside the signature field
			{
				kind = "signature field";
				size_t n = m0.f[0].raw.size();
				S f = gen::mutateBytes(r, text.substr(0, n), 1);
				t2 = f + text.substr(n);
				break;
			}
			case 4:	// inside one of the other fields
			{
				kind = "header";
				ref::Msg q = m0;
				if (q.f.size() < 2) break;
				size_t k = 1 + r.below(q.f.size() - 1);
				size_t p = 0;
				// rebuild with the field changed
				S raw = q.f[k].raw;
				raw = r.chance(1, 2) ? gen::mutateBytes(r, raw, 1) : raw + (r.chance(1, 2) ? "x" : " ");
				S h;
				for (size_t i = 0; i < q.f.size(); ++i) h += (i == k ? raw : q.f[i].raw) + "\r\n";
				(void)p;
				t2 = h + (m0.body < 0 ? S() : "\r\n" + text.substr((size_t)m0.body));
				break;
			}
			case 5:	// the signature value
			{
				kind = "signature value";
				S b = s0.b;
				switch (r.below(9))
				{
					case 0: b[r.below(b.size())] ^= (char)(1 << r.below(8)); break;
					case 1: b += (char)r.next(); break;
					case 2: b += r.bytes(1 + r.below(80)); break;
					case 3: b.resize(b.size() - 1); break;
					case 4: b.resize(1 + r.below(b.size() - 1)); break;
					case 5: b = S(1, '\0') + b; break;
					case 6: b = r.bytes(b.size()); break;
					case 7: b = S(b.size(), '\0'); break;
					default:
						if (key->kind == ref::RSA_KEY)
						{
							// s + n where it fits
							BIGNUM* n = nullptr;
							EVP_PKEY_get_bn_param((EVP_PKEY*)key->pkey, "n", &n);
							BIGNUM* x = BN_bin2bn((const unsigned char*)b.data(), (int)b.size(), nullptr);
							BN_add(x, x, n);
							S z((size_t)BN_num_bytes(x), 0);
							BN_bn2bin(x, (unsigned char*)&z[0]);
							b = z;
							BN_free(x); BN_free(n);
						}
						else
						{
							// S + L: another encoding of the same scalar
							static const unsigned char L[32] = { 0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
								0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10 };
							unsigned carry = 0;
							for (int i = 0; i < 32; ++i) { unsigned v = (unsigned char)b[32 + (size_t)i] + L[i] + carry; b[32 + (size_t)i] = (char)v; carry = v >> 8; }
						}
				}
				t2 = replaceB(text.substr(0, m0.f[0].raw.size()), m0.f[0].voff, b) + text.substr(m0.f[0].raw.size());
				break;
			}
			case 6:	// another key
			{
				kind = "other key";
				key2 = &gen::anyKey(r, key->kind == ref::RSA_KEY);
				if (r.chance(1, 6)) key2 = &gen::anyKey(r, key->kind != ref::RSA_KEY);
				rec2 = gen::recordFor(r, *key2);
				break;
			}
			case 7:	// a field added
			{
				kind = "field added";
				gen::Message x;
				S nm = m0.f[r.below(m0.f.size())].name;
				if (nm.empty() || r.chance(1, 3)) nm = s0.h[r.below(s0.h.size())];
				S add = gen::field(r, gen::caseMix(r, nm));
				size_t k = r.below(m0.f.size() + 1);
				S h;
				for (size_t i = 0; i <= m0.f.size(); ++i)
				{
					if (i == k) h += add + "\r\n";
					if (i < m0.f.size()) h += m0.f[i].raw + "\r\n";
				}
				t2 = h + (m0.body < 0 ? S() : "\r\n" + text.substr((size_t)m0.body));
				break;
			}
			case 8:	// fields removed or swapped
			{
				kind = "fields removed or swapped";
				std::vector<S> f;
				for (size_t i = 0; i < m0.f.size(); ++i) f.push_back(m0.f[i].raw);
				if (f.size() < 2) break;
				size_t a = 1 + r.below(f.size() - 1);
				if (r.chance(1, 2) && f.size() > 2) std::swap(f[a], f[1 + r.below(f.size() - 1)]);
				else f.erase(f.begin() + (long)a);
				S h;
				for (auto& x : f) h += x + "\r\n";
				t2 = h + (m0.body < 0 ? S() : "\r\n" + text.substr((size_t)m0.body));
				break;
			}
			default:	// a tag's value exchanged
			{
				kind = "tag";
				S f = text.substr(0, m0.f[0].raw.size());
				std::vector<ref::Tag> t;
				ref::tagList(f.substr(m0.f[0].voff), t);
				const ref::Tag& g = t[r.below(t.size())];
				S v = g.value;
				if (g.name == "c") v = r.pick({"simple/simple", "relaxed/relaxed", "simple/relaxed", "relaxed/simple", "relaxed", "simple"});
				else if (g.name == "a") v = r.pick({"rsa-sha1", "rsa-sha256", "ed25519-sha256"});
				else if (g.name == "h") v += r.pick({":x-new", ":from", ":subject"});
				else if (g.name == "l") v = std::to_string(r.below(50));
				else v = gen::mutateBytes(r, v, 1);
				f = f.substr(0, m0.f[0].voff + g.off) + v + f.substr(m0.f[0].voff + g.off + g.value.size());
				t2 = f + text.substr(m0.f[0].raw.size());
			}
		}
		dk::Dns d2;
		d2.zone[name] = { 0, rec2 };
		// keep a lookup possible whatever happened to d= and s=
		ref::Msg m2 = ref::parse(t2);
		std::vector<size_t> at;
		for (size_t i = 0; i < m2.f.size(); ++i)
		{
			if (!ref::iequal(m2.f[i].name, arc ? "arc-message-signature" : "dkim-signature")) continue;
			at.push_back(i);
			ref::Sig s = ref::parseSig(m2.f[i], 0);
			if (s.ok) d2.zone[s.s + "._domainkey." + s.d] = { 0, rec2 };
		}
		std::vector<dk::Out> res = dk::verifyText(t2, arc, d2);
		for (size_t k = 0; k < res.size() && k < at.size(); ++k)
		{
			if (res[k].cls != "pass") { c.ev("altered and refused: " + kind); continue; }
			S now = covered(m2, t2, at[k], true);
			bool same = now == orig && key2 == key;
			// junk behind a complete signature value is not part of the value (how it is treated is left open)
			ref::Sig s2 = ref::parseSig(m2.f[at[k]], 0);
			if (!same && key2 == key && covered(m2, t2, at[k], false) == origNoSig && s2.blen)
			{
				S v = ref::noWs(m2.f[at[k]].raw.substr(s2.boff, s2.blen)), x;
				S o64 = ref::b64(s0.b);
				bool undecodable = !ref::unb64(v, x);
				for (auto& ch : v) if (ch == '=') ch = 'A';	// the decoder takes = for zero bits
				for (auto& ch : o64) if (ch == '=') ch = 'A';
				if (undecodable && v.compare(0, o64.size(), o64) == 0) same = true;
			}
			c.check(same, ("tampered-accepted-" + kind).c_str(), [&] {
				return S("the altered message still verifies") + (key2 != key ? " under another key" : covered(m2, t2, at[k], false) == origNoSig ? " (only the signature value differs)" : "")
					+ "\n" + what + "\noriginal: " + quote(text, 3000) + "\naltered: " + quote(t2, 3000) + "\nrecord: " + quote(rec2, 600); });
			c.ev("altered without effect on signed content, accepted: " + kind);
		}
		c.nontrivial(t2 + rec2);
		c.state(kind + std::to_string(arc) + key->label);
		if (c.idx < 30 && rounds == 0) c.sample(kind + ": " + quote(t2, 300));
	}
}
