#include "ref.hpp"
#include "keys.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <openssl/bio.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/x509.h>

namespace ref
{
	bool exactClock = false;
	S lower(S s)
	{
		for (char& c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32);
		return s;
	}
	bool iequal(const S& a, const S& b) { return lower(a) == lower(b); }
	bool wsp(char c) { return c == ' ' || c == '\t'; }
	bool lwsp(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }

	// ------------------------------------------------------------------ messages
	Msg parse(const S& text)
	{
		Msg m;
		m.body = -1;
		std::vector<S> raws;
		size_t p = 0;
		while (p < text.size())
		{
			size_t nl = text.find('\n', p);
			bool term = nl != S::npos;
			S line = text.substr(p, (term ? nl : text.size()) - p);
			p = term ? nl + 1 : text.size();
			if (!line.empty() && line.back() == '\r') line.pop_back();
			if (line.empty())
			{
				if (term) m.body = (long)p;
				break;
			}
			if (!raws.empty() && wsp(line[0])) raws.back() += "\r\n" + line;
			else raws.push_back(line);
		}
		for (auto& r : raws)
		{
			Field f;
			f.raw = r;
			f.voff = 0;
			size_t c = r.find(':');
			if (c != S::npos)
			{
				f.voff = c + 1;
				size_t a = 0, b = c;
				while (a < b && wsp(r[a])) ++a;
				while (b > a && wsp(r[b - 1])) --b;
				f.name = r.substr(a, b - a);
			}
			m.f.push_back(f);
		}
		return m;
	}

	S bodyOf(const S& text, const Msg& m) { return m.body < 0 ? S() : text.substr((size_t)m.body); }

	// ------------------------------------------------------------------ canonicalization
	bool relaxHeader(const S& raw, S& out)
	{
		size_t c = raw.find(':');
		if (c == S::npos) return false;
		// unfold
		S u, l = lower(raw.substr(0, c)) + raw.substr(c);
		for (size_t i = 0; i < l.size(); ++i)
		{
			if (l[i] == '\r')
			{
				if (i + 2 < l.size() && l[i + 1] == '\n' && wsp(l[i + 2])) { ++i; continue; }
				return false;
			}
			u += l[i];
		}
		// reduce
		S r;
		for (size_t i = 0; i < u.size(); ++i)
		{
			if (wsp(u[i])) { if (r.empty() || r.back() != ' ') r += ' '; }
			else r += u[i];
		}
		while (!r.empty() && r.back() == ' ') r.pop_back();
		size_t k = r.find(':');
		S n = r.substr(0, k), v = r.substr(k + 1);
		while (!n.empty() && n.back() == ' ') n.pop_back();
		while (!v.empty() && v[0] == ' ') v.erase(0, 1);
		out = n + ":" + v;
		return true;
	}

	S canonBody(const S& body, bool relaxed)
	{
		std::vector<S> lines;
		S cur;
		for (char c : body)
		{
			if (c == '\r') continue;
			if (c == '\n') { lines.push_back(cur); cur.clear(); }
			else cur += c;
		}
		lines.push_back(cur);
		if (relaxed)
			for (auto& l : lines)
			{
				S r;
				for (char c : l)
					if (wsp(c)) { if (r.empty() || r.back() != ' ') r += ' '; }
					else r += c;
				while (!r.empty() && r.back() == ' ') r.pop_back();
				l.swap(r);
			}
		while (!lines.empty() && lines.back().empty()) lines.pop_back();
		if (lines.empty()) return relaxed ? S() : S("\r\n");
		S r;
		for (auto& l : lines) { r += l; r += "\r\n"; }
		return r;
	}

	// ------------------------------------------------------------------ lists and codecs
	static bool alnum(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }

	bool tagList(const S& in, std::vector<Tag>& out)
	{
		out.clear();
		size_t p = 0;
		std::set<S> seen;
		while (true)
		{
			size_t e = in.find(';', p);
			bool last = e == S::npos;
			if (last) e = in.size();
			size_t q = p;
			while (q < e && lwsp(in[q])) ++q;
			if (q == e && last) return true;	// nothing behind the last ';'
			Tag t;
			size_t n = q;
			while (n < e && (alnum(in[n]) || in[n] == '_')) ++n;
			t.name = in.substr(q, n - q);
			if (t.name.empty()) return false;
			while (n < e && lwsp(in[n])) ++n;
			if (n == e || in[n] != '=') return false;
			++n;
			while (n < e && lwsp(in[n])) ++n;
			t.off = n;
			size_t z = e;
			while (z > n && lwsp(in[z - 1])) --z;
			t.value = in.substr(n, z - n);
			for (char c : t.value)
				if (!lwsp(c) && !(c >= 0x21 && c <= 0x7e && c != ';')) return false;
			if (!seen.insert(t.name).second) return false;
			out.push_back(t);
			if (last) return true;
			p = e + 1;
		}
	}

	const Tag* findTag(const std::vector<Tag>& t, const S& name)
	{
		for (auto& x : t) if (x.name == name) return &x;
		return nullptr;
	}

	bool valueList(const S& in, std::vector<S>& out)
	{
		out.clear();
		size_t p = 0;
		while (true)
		{
			size_t e = in.find(':', p);
			bool last = e == S::npos;
			if (last) e = in.size();
			size_t a = p, b = e;
			while (a < b && lwsp(in[a])) ++a;
			while (b > a && lwsp(in[b - 1])) --b;
			if (a == b) return last;	// an empty element is fine at the end only
			out.push_back(in.substr(a, b - a));
			if (last) return true;
			p = e + 1;
		}
	}

	static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

	S b64(const S& in)
	{
		S r;
		for (size_t i = 0; i < in.size(); i += 3)
		{
			unsigned v = 0;
			size_t n = std::min<size_t>(3, in.size() - i);
			for (size_t k = 0; k < 3; ++k) v = v << 8 | (k < n ? (unsigned char)in[i + k] : 0);
			r += A64[v >> 18 & 63];
			r += A64[v >> 12 & 63];
			r += n > 1 ? A64[v >> 6 & 63] : '=';
			r += n > 2 ? A64[v & 63] : '=';
		}
		return r;
	}

	bool unb64(const S& in, S& out)
	{
		out.clear();
		if (in.size() % 4) return false;
		for (size_t i = 0; i < in.size(); i += 4)
		{
			unsigned v = 0;
			int pad = 0;
			for (size_t k = 0; k < 4; ++k)
			{
				char c = in[i + k];
				if (c == '=' && i + 4 == in.size() && (k == 3 || (k == 2 && in[i + 3] == '='))) { ++pad; v <<= 6; continue; }
				const char* q = c ? strchr(A64, c) : nullptr;
				if (!q) return false;
				v = v << 6 | (unsigned)(q - A64);
			}
			out += (char)(v >> 16);
			if (pad < 2) out += (char)(v >> 8);
			if (pad < 1) out += (char)v;
		}
		return b64(out) == in;
	}

	static bool dkimSafe(unsigned char c) { return (c >= 0x21 && c <= 0x3a) || c == 0x3c || (c >= 0x3e && c <= 0x7e); }

	S qpEnc(const S& in)
	{
		S r;
		for (unsigned char c : in)
			if (dkimSafe(c)) r += (char)c;
			else { char b[4]; snprintf(b, sizeof b, "=%02X", c); r += b; }
		return r;
	}

	bool qpDec(const S& in, S& out, bool underscore)
	{
		out.clear();
		for (size_t i = 0; i < in.size(); ++i)
		{
			char c = in[i];
			if (underscore && c == '_') { out += ' '; continue; }
			if (c == '=')
			{
				auto hv = [](char x) { return x >= '0' && x <= '9' ? x - '0' : x >= 'A' && x <= 'F' ? x - 'A' + 10 : -1; };
				if (i + 2 >= in.size()) return false;
				int a = hv(in[i + 1]), b = hv(in[i + 2]);
				if (a < 0 || b < 0) return false;
				out += (char)(a * 16 + b);
				i += 2;
				continue;
			}
			if (dkimSafe((unsigned char)c)) { out += c; continue; }
			if (wsp(c)) continue;
			if (c == '\r' && i + 2 < in.size() && in[i + 1] == '\n' && wsp(in[i + 2])) { i += 2; continue; }
			return false;
		}
		return true;
	}

	S noWs(const S& in)
	{
		S r;
		for (char c : in) if (!lwsp(c)) r += c;
		return r;
	}

	// ------------------------------------------------------------------ crypto
	S sha(bool sha256, const S& in)
	{
		unsigned char md[EVP_MAX_MD_SIZE];
		unsigned n = 0;
		EVP_Digest(in.data(), in.size(), md, &n, sha256 ? EVP_sha256() : EVP_sha1(), nullptr);
		return S((char*)md, n);
	}

	static S spki(EVP_PKEY* k)
	{
		unsigned char* p = nullptr;
		int n = i2d_PUBKEY(k, &p);
		S r((char*)p, (size_t)n);
		OPENSSL_free(p);
		return r;
	}

	static Key mkRsa(const char* label, const char* pem)
	{
		Key k;
		k.kind = RSA_KEY;
		k.label = label;
		k.pem = pem;
		BIO* b = BIO_new_mem_buf(pem, -1);
		EVP_PKEY* p = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
		BIO_free(b);
		if (!p) { fprintf(stderr, "bad key %s\n", label); abort(); }
		k.pkey = p;
		k.bits = EVP_PKEY_bits(p);
		unsigned char* d = nullptr;
		int n = i2d_PrivateKey(p, &d);
		k.der64 = b64(S((char*)d, (size_t)n));
		OPENSSL_free(d);
		b = BIO_new(BIO_s_mem());
		PEM_write_bio_PrivateKey_traditional(b, p, nullptr, nullptr, 0, nullptr, nullptr);
		char* q = nullptr;
		long m = BIO_get_mem_data(b, &q);
		k.pem1 = S(q, (size_t)m);
		BIO_free(b);
		k.pub64 = b64(spki(p));
		return k;
	}

	static const std::map<S, Key>& rsaTable()
	{
		static const std::map<S, Key> t = [] {
			std::map<S, Key> m;
			m["a"] = mkRsa("rsa1024a", keys::rsa1024a);
			m["b"] = mkRsa("rsa1024b", keys::rsa1024b);
			m["c"] = mkRsa("rsa2048a", keys::rsa2048a);
			m["d"] = mkRsa("rsa2048b", keys::rsa2048b);
			m["odd"] = mkRsa("rsa1031", keys::rsa1031);
			m["big"] = mkRsa("rsa4096", keys::rsa4096);
			m["small"] = mkRsa("rsa512", keys::rsa512);
			m["narrow"] = mkRsa("rsa936", keys::rsa936);
			m["wide"] = mkRsa("rsa1872", keys::rsa1872);
			m["e3"] = mkRsa("rsa1024e3", keys::rsa1024e3);
			m["huge"] = mkRsa("rsa8192", keys::rsa8192);
			return m;
		}();
		return t;
	}

	const Key& rsaKey(const S& label) { return rsaTable().at(label); }

	const std::vector<const Key*>& rsaKeys()
	{
		static const std::vector<const Key*> v = { &rsaKey("a"), &rsaKey("b"), &rsaKey("c"), &rsaKey("d") };
		return v;
	}
	const std::vector<const Key*>& oddRsaKeys()
	{
		static const std::vector<const Key*> v = { &rsaKey("odd"), &rsaKey("big"), &rsaKey("small"), &rsaKey("narrow"), &rsaKey("wide"), &rsaKey("e3") };
		return v;
	}

	const Key& edKey(unsigned i)
	{
		static const std::vector<Key> v = [] {
			std::vector<Key> r;
			for (unsigned n = 0, again = 0; n < 8; again = 0, ++n)
			{
				Key k;
				k.kind = ED_KEY;
				k.label = "ed" + std::to_string(n);
				k.bits = 256;
				k.seed = sha(true, "seed " + std::to_string(n));
				unsigned char pub[32];
				for (;;)
				{
					// seeds and keys are any bytes: ones that look like something else are among them
					switch (n)
					{
						case 3: k.seed[31] = '\n'; break;
						case 5: k.seed = b64(k.seed).substr(0, 32); break;
						case 6: k.seed[0] = '\n'; k.seed[1] = '\0'; k.seed[31] = ' '; break;
						case 7: k.seed.replace(0, 10, "-----BEGIN"); break;
					}
					EVP_PKEY* p = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, nullptr, (const unsigned char*)k.seed.data(), 32);
					if (!p) abort();
					k.pkey = p;
					size_t len = 32;
					EVP_PKEY_get_raw_public_key(p, pub, &len);
					if ((n == 2 && pub[0] != 0) || (n == 4 && pub[31] != '\n'))
					{
						EVP_PKEY_free(p);
						k.seed = sha(true, "seed " + std::to_string(n) + "." + std::to_string(++again));
						continue;
					}
					break;
				}
				k.sk = k.seed + S((char*)pub, 32);
				k.pub64 = b64(S((char*)pub, 32));
				r.push_back(k);
			}
			return r;
		}();
		return v[i % v.size()];
	}

	S sign(const Key& k, bool sha256, const S& digest)
	{
		EVP_PKEY* p = (EVP_PKEY*)k.pkey;
		if (k.kind == RSA_KEY)
		{
			EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(p, nullptr);
			EVP_PKEY_sign_init(c);
			EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PADDING);
			EVP_PKEY_CTX_set_signature_md(c, sha256 ? EVP_sha256() : EVP_sha1());
			size_t n = (size_t)EVP_PKEY_size(p);
			S out(n, 0);
			int r = EVP_PKEY_sign(c, (unsigned char*)&out[0], &n, (const unsigned char*)digest.data(), digest.size());
			EVP_PKEY_CTX_free(c);
			if (r != 1) abort();
			out.resize(n);
			return out;
		}
		EVP_MD_CTX* c = EVP_MD_CTX_new();
		EVP_DigestSignInit(c, nullptr, nullptr, nullptr, p);
		size_t n = 64;
		S out(64, 0);
		int r = EVP_DigestSign(c, (unsigned char*)&out[0], &n, (const unsigned char*)digest.data(), digest.size());
		EVP_MD_CTX_free(c);
		if (r != 1) abort();
		return out;
	}

	static bool verifyP(EVP_PKEY* p, bool rsa, bool sha256, const S& digest, const S& sig)
	{
		int r;
		if (rsa)
		{
			EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(p, nullptr);
			EVP_PKEY_verify_init(c);
			EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PADDING);
			EVP_PKEY_CTX_set_signature_md(c, sha256 ? EVP_sha256() : EVP_sha1());
			r = EVP_PKEY_verify(c, (const unsigned char*)sig.data(), sig.size(), (const unsigned char*)digest.data(), digest.size());
			EVP_PKEY_CTX_free(c);
		}
		else
		{
			EVP_MD_CTX* c = EVP_MD_CTX_new();
			EVP_DigestVerifyInit(c, nullptr, nullptr, nullptr, p);
			r = EVP_DigestVerify(c, (const unsigned char*)sig.data(), sig.size(), (const unsigned char*)digest.data(), digest.size());
			EVP_MD_CTX_free(c);
		}
		return r == 1;
	}

	bool verify(const Key& k, bool sha256, const S& digest, const S& sig)
	{ return verifyP((EVP_PKEY*)k.pkey, k.kind == RSA_KEY, sha256, digest, sig); }

	// ------------------------------------------------------------------ signatures
	static bool digits(const S& s) { return !s.empty() && s.find_first_not_of("0123456789") == S::npos; }

	// decimal text as an unsigned long, false if above max
	static bool number(const S& s, unsigned long max, unsigned long& v)
	{
		v = 0;
		for (char c : s)
		{
			unsigned d = (unsigned)(c - '0');
			if (v > (max - d) / 10) return false;
			v = v * 10 + d;
		}
		return v <= max;
	}

	// line breaks occur only as folding
	static bool properFolds(const S& v)
	{
		for (size_t i = 0; i < v.size(); ++i)
		{
			if (v[i] == '\r' && !(i + 2 < v.size() && v[i + 1] == '\n' && wsp(v[i + 2]))) return false;
			if (v[i] == '\n' && (i == 0 || v[i - 1] != '\r')) return false;
		}
		return true;
	}

	Sig parseSig(const Field& f, long now)
	{
		Sig s;
		auto no = [&](const char* w) { s.why = w; return s; };
		if (f.voff == 0) return no("no colon");
		std::vector<Tag> t;
		S value = f.raw.substr(f.voff);
		if (!tagList(value, t)) return no("tag list");
		s.arc = lower(f.name) == "arc-message-signature";

		const Tag* d = findTag(t, "d");
		if (!d || d->value.empty()) return no("d");
		s.d = lower(d->value);
		if (!s.arc)
		{
			const Tag* v = findTag(t, "v");
			if (!v || v->value != "1") return no("v");
		}
		const Tag* a = findTag(t, "a");
		if (!a) return no("a");
		s.a = a->value;
		if (s.a == "rsa-sha256") {}
		else if (s.a == "rsa-sha1") s.sha256 = false;
		else if (s.a == "ed25519-sha256") s.rsa = false;
		else return no("a");
		const Tag* b = findTag(t, "b");
		if (!b || b->value.empty()) return no("b");
		s.boff = f.voff + b->off;
		s.blen = b->value.size();
		if (!unb64(noWs(b->value), s.b)) s.unspec = true;
		const Tag* bh = findTag(t, "bh");
		if (!bh || bh->value.empty()) return no("bh");
		if (!unb64(noWs(bh->value), s.bh)) s.unspec = true;
		if (const Tag* c = findTag(t, "c"))
		{
			S h = c->value, bo = "simple";
			size_t k = h.find('/');
			if (k != S::npos) { bo = h.substr(k + 1); h.resize(k); }
			if (h != "simple" && h != "relaxed") return no("c");
			if (bo != "simple" && bo != "relaxed") return no("c");
			s.relH = h == "relaxed";
			s.relB = bo == "relaxed";
		}
		const Tag* h = findTag(t, "h");
		if (!h) return no("h");
		if (!properFolds(h->value)) s.unspec = true;
		if (!valueList(h->value, s.h)) return no("h");
		bool from = false;
		for (auto& x : s.h)
		{
			if (iequal(x, "from")) from = true;
		}
		if (!h->value.empty() && h->value.back() == ':') s.unspec = true;
		if (!from) return no("h without from");
		const Tag* i = findTag(t, "i");
		if (s.arc)
		{
			if (!i || !digits(i->value)) return no("i");
			if (!number(i->value, 1000000, s.inst) || s.inst < 1 || s.inst > 50) return no("i");
			if (i->value.size() > 2) s.unspec = true;	// leading zeros
		}
		else if (!i) s.mdom = s.d;
		else
		{
			S m;
			if (!properFolds(i->value)) s.unspec = true;
			if (!qpDec(i->value, m)) return no("i");
			size_t at = m.find('@');
			if (at == S::npos) return no("i");
			if (m[0] == '"')
			{
				// a quoted local part
				size_t q = 1;
				while (q < m.size() && m[q] != '"') q += m[q] == '\\' ? 2 : 1;
				if (q + 1 < m.size() && m[q + 1] == '@') at = q + 1;
				else s.unspec = true;
			}
			if (m.find('@', at + 1) != S::npos) s.unspec = true;
			s.local = m.substr(0, at);
			s.mdom = lower(m.substr(at + 1));
			bool sub = s.mdom == s.d
				|| (s.mdom.size() > s.d.size() + 1 && s.mdom.compare(s.mdom.size() - s.d.size() - 1, S::npos, "." + s.d) == 0);
			if (s.mdom == "." + s.d) { sub = true; s.unspec = true; }
			if (!sub) return no("i outside d");
		}
		if (const Tag* l = findTag(t, "l"))
		{
			if (!digits(l->value) || l->value.size() > 76) return no("l");
			if (!number(l->value, 0x7fffffffffffffffUL, s.l)) return no("l");
			s.hasL = true;
		}
		if (const Tag* q = findTag(t, "q"))
		{
			std::vector<S> m;
			if (!properFolds(q->value)) s.unspec = true;
			if (!valueList(q->value, m)) return no("q");
			if (std::find(m.begin(), m.end(), "dns/txt") == m.end()) return no("q");
			if (q->value.back() == ':') s.unspec = true;
		}
		const Tag* sel = findTag(t, "s");
		if (!sel || sel->value.empty()) return no("s");
		s.s = sel->value;
		if (const Tag* x = findTag(t, "x"))
		{
			s.hasX = true;
			unsigned long v;
			if (!digits(x->value)) s.xbad = true;
			else if (number(x->value, 0x7fffffffffffffffUL, v))
			{
				s.expired = (long)v < now;
				if (!exactClock && (long)v >= now - 2 && (long)v <= now + 2) s.unspec = true;	// too close to tell
			}
		}
		s.ok = true;
		return s;
	}

	std::vector<long> denoted(const Msg& m, long self, const std::vector<S>& h)
	{
		std::vector<long> r;
		std::map<S, long> below;	// next candidate, from the bottom
		for (auto& n : h)
		{
			S name = lower(n);
			long k = below.count(name) ? below[name] : (long)m.f.size() - 1;
			while (k >= 0 && (k == self || lower(m.f[(size_t)k].name) != name)) --k;
			if (k >= 0) { r.push_back(k); below[name] = k - 1; }
			else below[name] = -1;
		}
		return r;
	}

	S withoutB(const Field& f, const Sig& s)
	{
		size_t a = s.boff, b = s.boff + s.blen;
		while (a > 0 && lwsp(f.raw[a - 1])) --a;
		while (b < f.raw.size() && lwsp(f.raw[b])) ++b;
		return f.raw.substr(0, a) + f.raw.substr(b);
	}

	bool signedData(const Msg& m, size_t field, const Sig& s, S& out)
	{
		out.clear();
		for (long k : denoted(m, (long)field, s.h))
		{
			S c = m.f[(size_t)k].raw;
			if (s.relH && !relaxHeader(S(c), c)) return false;
			out += c + "\r\n";
		}
		S c = withoutB(m.f[field], s);
		if (s.relH && !relaxHeader(S(c), c)) return false;
		out += c;
		return true;
	}

	// ------------------------------------------------------------------ key records
	Record parseRecord(const S& txt)
	{
		Record r;
		auto no = [&](const char* w) { r.why = w; return r; };
		std::vector<Tag> t;
		if (!tagList(txt, t)) return no("tag list");
		if (const Tag* v = findTag(t, "v"))
			if (v->value != "DKIM1") return no("v");
		std::vector<S> l;
		auto list = [&](const Tag* g) {
			if (!g->value.empty() && g->value.back() == ':') r.unspec = true;
			if (!properFolds(g->value)) r.unspec = true;
			if (!valueList(g->value, l)) { r.unspec = true; return false; }
			for (auto& e : l) for (char c : e) if (lwsp(c)) r.unspec = true;
			return true;
		};
		if (const Tag* h = findTag(t, "h"))
		{
			if (h->value.empty()) return no("h");
			if (!list(h)) return no("h");
			r.anyHash = false;
			for (auto& e : l) { if (e == "sha1") r.sha1 = true; if (e == "sha256") r.sha256 = true; }
		}
		if (const Tag* k = findTag(t, "k"))
		{
			if (k->value == "ed25519") r.rsa = false;
			else if (k->value != "rsa") return no("k");
		}
		const Tag* p = findTag(t, "p");
		if (!p || p->value.empty()) return no("p");
		if (!unb64(noWs(p->value), r.keyBytes)) { r.unspec = true; return no("p base64"); }
		if (r.rsa)
		{
			const unsigned char* q = (const unsigned char*)r.keyBytes.data();
			EVP_PKEY* k = d2i_PUBKEY(nullptr, &q, (long)r.keyBytes.size());
			if (!k) return no("p der");
			int id = EVP_PKEY_base_id(k);
			if (q != (const unsigned char*)r.keyBytes.data() + r.keyBytes.size()) r.unspec = true;
			EVP_PKEY_free(k);
			if (id != EVP_PKEY_RSA) return no("p type");
		}
		else if (r.keyBytes.size() != 32) return no("p size");
		if (const Tag* s = findTag(t, "s"))
		{
			if (s->value.empty()) return no("s");
			if (!list(s)) return no("s");
			bool ok = false;
			for (auto& e : l) if (e == "email" || e == "*") ok = true;
			if (!ok) return no("s");
		}
		if (const Tag* g = findTag(t, "t"))
		{
			if (!list(g)) return no("t");
			r.flags = l;
			for (auto& e : l) { if (e == "y") r.y = true; if (e == "s") r.strict = true; }
		}
		r.ok = true;
		return r;
	}

	// ------------------------------------------------------------------ verdicts
	std::set<S> verdict(const S& text, size_t field, long now, int lookup, const S& record, bool& unspec)
	{
		std::set<S> r;
		unspec = false;
		Msg m = parse(text);
		Sig s = parseSig(m.f[field], now);
		if (s.unspec) unspec = true;
		if (!s.ok) { r.insert("permerror"); return r; }
		if (s.xbad || s.expired) r.insert("permerror");

		S cb = canonBody(bodyOf(text, m), s.relB);
		if (s.hasL)
		{
			if (s.l > cb.size()) unspec = true;
			else cb.resize(s.l);
		}
		if (sha(s.sha256, cb) != s.bh) r.insert("fail");

		if (lookup == 1) { r.insert("temperror"); return r; }
		if (lookup == 2) { r.insert("permerror"); return r; }
		Record k = parseRecord(record);
		if (k.unspec) unspec = true;
		if (!k.ok) { r.insert("permerror"); return r; }
		if (!k.anyHash && !(s.sha256 ? k.sha256 : k.sha1)) r.insert("permerror");
		if (k.strict && !s.arc && s.d != s.mdom) r.insert("permerror");
		if (k.rsa != s.rsa) { r.insert("permerror"); return r; }
		S data;
		if (!signedData(m, field, s, data)) { r.insert("permerror"); return r; }
		EVP_PKEY* p;
		const unsigned char* q = (const unsigned char*)k.keyBytes.data();
		if (k.rsa) p = d2i_PUBKEY(nullptr, &q, (long)k.keyBytes.size());
		else p = EVP_PKEY_new_raw_public_key(EVP_PKEY_ED25519, nullptr, q, 32);
		bool good = p && verifyP(p, k.rsa, s.sha256, sha(s.sha256, data), s.b);
		EVP_PKEY_free(p);
		if (!good) r.insert("fail");
		if (r.empty()) r.insert("pass");
		return r;
	}
}
