// Every entry point of the library behind one call, for hostile input.
#pragma once
#include "dk.hpp"
#include "interpose.hpp"
#include <netdb.h>
#include <src/Base64.hpp>
#include <src/Canonicalization.hpp>
#include <src/EncodedWord.hpp>
#include <src/QuotedPrintable.hpp>
#include <src/Resolver.hpp>
#include <src/TagList.hpp>
#include <src/Tokenizer.hpp>

namespace entry
{
	typedef std::string S;
	enum Which { VERIFY, VERIFY_ARC, VERIFY_DNS, SIGNATURE, RECORD, TAGS, VALUES, ADDRESSES, WORDS, QP, BASE64, PACKET, SIGN, KEY, CANON_HEADER,
		CANON_BODY, MESSAGE, ENCODE, NAMES, COUNT };
	inline const char* name(int w)
	{
		static const char* const n[] = { "verify", "verify ARC", "verify with built-in resolver", "signature field", "key record", "tag list", "value list",
			"address list", "encoded words", "quoted-printable", "Base64", "DNS packet", "sign", "private key", "header canonicalization",
			"body canonicalization", "message", "encode", "names" };
		return n[w];
	}

	struct Input { int which = 0; unsigned opt = 0; S a, b; };
	inline S pack(const Input& i)
	{
		S o;
		o += (char)i.which;
		o += (char)i.opt;
		o += (char)(i.a.size() & 0xff);
		o += (char)(i.a.size() >> 8);
		return o + i.a + i.b;
	}
	inline Input unpack(const S& d)
	{
		Input i;
		if (d.size() < 4) return i;
		i.which = (unsigned char)d[0] % COUNT;
		i.opt = (unsigned char)d[1];
		size_t n = (unsigned char)d[2] | (size_t)(unsigned char)d[3] << 8;
		i.a = d.substr(4, n);
		if (d.size() > 4 + n) i.b = d.substr(4 + n);
		return i;
	}

	// What came out, in one string (compared between runs), and how each call ended.
	struct Seen { S text; std::vector<dk::Out> outs; };

	inline void add(Seen& s, const dk::Out& o) { s.outs.push_back(o); s.text += "[" + o.cls + "]"; }
	inline void add(Seen& s, const S& x) { s.text += x; s.text += '|'; }

	inline void readSignature(Seen& s, const DKIM::Signature& g)
	{
		s.text += std::to_string((int)g.GetDigestAlgorithm()) + std::to_string((int)g.GetSignatureAlgorithm()) + std::to_string((int)g.GetCanonModeHeader()) +
			std::to_string((int)g.GetCanonModeBody()) + std::to_string(g.GetBodySizeLimit() ? g.GetBodySize() : 0) + std::to_string(g.GetARCInstance());
		add(s, g.GetSignatureData());
		add(s, g.GetBodyHash());
		add(s, g.GetDomain());
		add(s, g.GetSelector());
		add(s, g.GetMailLocalPart());
		add(s, g.GetMailDomain());
		for (auto& h : g.GetSignedHeaders()) add(s, h);
		for (auto i = g.GetTagList().cbegin(); i != g.GetTagList().cend(); ++i) { add(s, i->first); add(s, i->second.GetValue()); }
	}

	inline void readRecord(Seen& s, const DKIM::PublicKey& p)
	{
		s.text += std::to_string((int)p.GetSignatureAlgorithm()) + (p.SoftFail() ? "y" : "n");
		for (auto a : p.GetDigestAlgorithms()) s.text += std::to_string((int)a);
		for (auto& f : p.GetFlags()) add(s, f);
		add(s, p.GetED25519PublicKey());
		if (p.GetRSAPublicKey()) s.text += std::to_string(RSA_size(p.GetRSAPublicKey()));
	}

	// how many signatures of one message are verified
	inline size_t maxSignatures = (size_t)-1;

	inline void verifyAll(Seen& s, std::istream& in, int which, const S& rec)
	{
		std::unique_ptr<DKIM::Validatory> v;
		add(s, dk::call([&] { v.reset(new DKIM::Validatory(in, which == VERIFY_ARC ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM)); }));
		if (!v) return;
		if (which == VERIFY_DNS)
			interpose::dns = [&](const char*, unsigned char* a, int n, int& herr) -> int {
				if (rec.size() < 12) { herr = HOST_NOT_FOUND; return -1; }
				memcpy(a, rec.data(), std::min((size_t)n, rec.size()));
				return (int)rec.size();
			};
		else
			v->CustomDNSResolver = [&](const S&, S& out, void*) { if (rec == "!") return false; out = rec; return true; };
		size_t left = maxSignatures;
		for (auto i = v->GetSignatures().begin(); i != v->GetSignatures().end() && left; ++i, --left)
		{
			DKIM::Signature sig;
			DKIM::PublicKey pub;
			dk::Out o = dk::call([&] { v->GetSignature(i, sig); });
			add(s, o);
			if (!o.ok()) continue;
			readSignature(s, sig);
			o = dk::call([&] { v->GetPublicKey(sig, pub); });
			add(s, o);
			if (!o.ok()) continue;
			readRecord(s, pub);
			interpose::expect.edSig = (long)sig.GetSignatureData().size();
			interpose::expect.edPub = (long)pub.GetED25519PublicKey().size();
			o = dk::call([&] { v->CheckSignature(i, sig, pub); });
			interpose::expect = interpose::Expect();
			add(s, o);
			// the parts on their own, in any order
			add(s, dk::call([&] { v->CheckBodyHash(sig); }));
		}
		interpose::dns = nullptr;
	}

	inline void signWith(Seen& s, std::istream& in, DKIM::SignatoryOptions& o)
	{
		S out;
		interpose::expect.edKey = (long)o.GetED25519PrivateKey().size();
		if (o.GetAdditionalSignatures().size() > 1) interpose::expect.edKey = -1;
		dk::Out r = dk::call([&] { DKIM::Signatory g(in); out = g.CreateSignature(o); });
		interpose::expect = interpose::Expect();
		add(s, r);
		add(s, out);
	}

	inline Seen run(const Input& in, std::istream* stream = nullptr)
	{
		Seen s;
		const S &a = in.a, &b = in.b;
		unsigned opt = in.opt;
		std::istringstream own;
		if (!stream) { own.str(a); stream = &own; }
		switch (in.which)
		{
			case VERIFY: case VERIFY_ARC: case VERIFY_DNS: verifyAll(s, *stream, in.which, b); break;
			case SIGNATURE:
			{
				auto h = std::make_shared<DKIM::Header>();
				std::stringstream lines(a);
				std::vector<S> all;
				for (S line; std::getline(lines, line);) { if (!line.empty() && line.back() == '\r') line.pop_back(); all.push_back(line); }
				add(s, dk::call([&] { for (auto& line : all) h->ParseLine(line); }));
				DKIM::Signature g;
				dk::Out o = dk::call([&] { g.Parse(h); });
				add(s, o);
				if (o.ok()) readSignature(s, g);
				g.Reset();
				break;
			}
			case RECORD:
			{
				DKIM::PublicKey p;
				for (int i = 0; i < 2; ++i)
				{
					dk::Out o = dk::call([&] { p.Parse(i ? b : a); });
					add(s, o);
					if (o.ok()) readRecord(s, p);
					if (b.empty()) break;
					if (opt & 1) p.Reset();
				}
				break;
			}
			case TAGS:
			{
				DKIM::TagList t;
				add(s, dk::call([&] { t.Parse(a); for (auto i = t.cbegin(); i != t.cend(); ++i) { add(s, i->first); add(s, i->second.GetValue()); } }));
				DKIM::TagListEntry e;
				if (t.GetTag(b, e)) add(s, e.GetValue());
				break;
			}
			case VALUES: add(s, dk::call([&] { for (auto& x : DKIM::Tokenizer::ValueList(a)) add(s, x); })); break;
			case ADDRESSES: add(s, dk::call([&] { for (auto& x : DKIM::Tokenizer::ParseAddressList(a)) add(s, x); })); break;
			case WORDS: add(s, dk::call([&] { add(s, DKIM::Conversion::EncodedWord::Decode(a)); })); break;
			case QP: add(s, dk::call([&] { add(s, DKIM::Conversion::QuotedPrintable::Decode(a, opt & 1)); })); break;
			case BASE64: add(s, dk::call([&] { add(s, DKIM::Conversion::Base64_Decode(a)); })); break;
			case PACKET:
			{
				interpose::dns = [&](const char*, unsigned char* p, int n, int& herr) -> int {
					// the DNS client drops answers without a complete header
					if ((opt & 1) || a.size() < 12) { herr = opt & 2 ? NO_DATA : TRY_AGAIN; return -1; }
					memcpy(p, a.data(), std::min((size_t)n, a.size()));
					return (int)a.size();
				};
				interpose::poison = true;
				S out;
				bool ok = false;
				dk::Out o = dk::call([&] { ok = DKIM::Util::Resolver().GetTXT("a.b", out); });
				interpose::dnsDone();
				interpose::poison = false;
				interpose::dns = nullptr;
				add(s, o);
				add(s, ok ? out : S("failed"));
				break;
			}
			case SIGN:
			{
				DKIM::SignatoryOptions o;
				const ref::Key& k = (opt & 1) ? ref::rsaKey((opt & 0x70) == 0x70 ? "huge" : (opt & 0x70) == 0x60 ? "odd" : "a") : ref::edKey(0);
				o.SetSignatureAlgorithm((opt & 1) ? DKIM::DKIM_SA_RSA : DKIM::DKIM_SA_ED25519);
				o.SetPrivateKey((opt & 1) ? k.pem : k.seed);
				o.SetDomain("example.org").SetSelector("s").SetTimestamp(1700000000);
				if (opt & 2) o.SetCanonModeHeader(DKIM::DKIM_C_RELAXED);
				if (opt & 4) o.SetCanonModeBody(DKIM::DKIM_C_RELAXED);
				if (opt & 8) o.SetHeaders({});
				if (opt & 16) o.SetSignBodyLength(b.size());
				if (opt & 32) o.SetIdentity(b);
				if (opt & 64) add(s, dk::call([&] { o.SetOversignHeaders({ b, "from" }); }));
				if (opt & 128) o.SetARCInstance(1 + b.size());
				signWith(s, *stream, o);
				break;
			}
			case KEY:
			{
				DKIM::SignatoryOptions o;
				o.SetSignatureAlgorithm((opt & 1) ? DKIM::DKIM_SA_RSA : DKIM::DKIM_SA_ED25519);
				o.SetDomain("example.org").SetSelector("s").SetTimestamp(1700000000);
				dk::Out r;
				if (opt & 2)
				{
					auto& x = o.AddAdditionalSignature();
					x.SetSignatureAlgorithm((opt & 1) ? DKIM::DKIM_SA_RSA : DKIM::DKIM_SA_ED25519);
					r = dk::call([&] { x.SetPrivateKey(a); });
					add(s, r);
					dk::call([&] { o.SetPrivateKey((opt & 1) ? ref::rsaKey("a").pem : ref::edKey(0).seed); });
				}
				else
				{
					r = dk::call([&] { o.SetPrivateKey(a); });
					add(s, r);
					if (!b.empty()) add(s, dk::call([&] { o.SetPrivateKey(b); }));
				}
				if (opt & 4) o.SetSignatureAlgorithm((opt & 1) ? DKIM::DKIM_SA_ED25519 : DKIM::DKIM_SA_RSA);
				std::istringstream m("From: a@b.c\r\n\r\nx\r\n");
				// with a damaged RSA key the value of the signature is not determined
				auto intact = [](const S& x) { for (auto k : ref::rsaKeys()) if (x == k->pem || x == k->der64 || x == k->pem1) return true; return x.empty(); };
				bool rsa = o.GetAdditionalSignatures().size() > 1 ? (opt & 1) != 0 : !(opt & 4) == ((opt & 1) != 0);
				Seen t;
				signWith(t, m, o);
				if ((rsa || (opt & 1)) && !(intact(a) && intact(b)))
					for (size_t p = 0; (p = t.text.find("\tb=", p)) != S::npos;) { size_t e = t.text.find(';', p); t.text.erase(p, e == S::npos ? e : e - p); }
				s.text += t.text;
				s.outs.insert(s.outs.end(), t.outs.begin(), t.outs.end());
				break;
			}
			case CANON_HEADER:
				add(s, dk::call([&] { add(s, DKIM::Conversion::CanonicalizationHeader((opt & 1) ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE).FilterHeader(a)); }));
				break;
			case CANON_BODY:
			{
				bool r = false;
				add(s, dk::call([&] {
					r = DKIM::Conversion::CanonicalizationBody(*stream, (opt & 1) ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE, (opt & 8) ? -1 : (ssize_t)std::min(b.size() & 0xff, a.size()),
						opt & 2, (opt & 4) ? b.size() : b.size() * 1000, [&](const char* p, size_t n) { s.text.append(p, n); }); }));
				add(s, S(r ? "1" : "0"));
				break;
			}
			case MESSAGE:
			{
				DKIM::Message m;
				add(s, dk::call([&] { while (!m.IsDone() && m.ParseLine(*stream)) {} }));
				for (auto& h : m.GetHeaders()) { add(s, h->GetName()); add(s, h->GetHeader()); add(s, std::to_string(h->GetValueOffset())); }
				add(s, std::to_string((long)m.GetBodyOffset()));
				break;
			}
			case ENCODE:
				add(s, dk::call([&] { add(s, DKIM::Conversion::QuotedPrintable::Encode(a)); add(s, DKIM::Conversion::Base64_Encode(a)); }));
				break;
			default:
			{
				DKIM::SignatoryOptions o;
				add(s, dk::call([&] { o.SetDomain(a); }));
				add(s, dk::call([&] { o.SetSelector(b); }));
				add(s, dk::call([&] { o.SetOversignHeaders({ a, b }); }));
				add(s, o.GetDomain());
			}
		}
		return s;
	}
}
