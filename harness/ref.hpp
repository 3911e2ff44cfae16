// Reference models, written from the RFCs and the property texts. No code or header of /repo.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace ref
{
	typedef std::string S;
	S lower(S s);					// ASCII only
	bool iequal(const S& a, const S& b);
	bool wsp(char c);				// SP, TAB
	bool lwsp(char c);				// SP, TAB, CR, LF

	// --- messages ---
	struct Field { S raw, name; size_t voff; };
	struct Msg { std::vector<Field> f; long body; };	// body: -1 none
	Msg parse(const S& text);
	S bodyOf(const S& text, const Msg& m);

	// --- canonicalization ---
	bool relaxHeader(const S& raw, S& out);	// false: must be refused (no colon, CR outside CRLF)
	S canonBody(const S& body, bool relaxed);

	// --- lists and codecs ---
	struct Tag { S name, value; size_t off; };
	bool tagList(const S& in, std::vector<Tag>& out);
	const Tag* findTag(const std::vector<Tag>& t, const S& name);
	bool valueList(const S& in, std::vector<S>& out);
	S b64(const S& in);
	bool unb64(const S& in, S& out);		// strict: canonical padded text
	S qpEnc(const S& in);
	bool qpDec(const S& in, S& out, bool underscore = false);
	S noWs(const S& in);

	// --- crypto ---
	S sha(bool sha256, const S& in);
	enum Kind { RSA_KEY, ED_KEY };
	struct Key
	{
		Kind kind;
		S label;
		int bits;
		void* pkey;		// EVP_PKEY
		S pem, der64;		// RSA private: PEM (PKCS#8), Base64 of PKCS#1 DER
		S pem1;			// RSA private: traditional PEM
		S seed, sk;		// Ed25519: 32 and 64 bytes
		S pub64;		// the p= value
		S record() const { return S("v=DKIM1; k=") + (kind == RSA_KEY ? "rsa" : "ed25519") + "; p=" + pub64; }
	};
	const Key& rsaKey(const S& label);
	const std::vector<const Key*>& rsaKeys();	// the usual ones (1024, 2048 bits)
	const std::vector<const Key*>& oddRsaKeys();	// 1031, 4096, 512 bits
	const Key& edKey(unsigned i);			// 8 of them
	S sign(const Key& k, bool sha256, const S& digest);	// digest: the header hash
	bool verify(const Key& k, bool sha256, const S& digest, const S& sig);

	// --- signatures ---
	struct Sig
	{
		bool ok = false;		// accepted (expiry aside)
		bool unspec = false;		// the properties leave it open
		bool arc = false;
		bool expired = false, xbad = false;
		bool hasX = false;
		S a, d, s, b, bh, local, mdom;
		bool rsa = true, sha256 = true, relH = false, relB = false;
		std::vector<S> h;
		bool hasL = false;
		unsigned long l = 0;
		unsigned long inst = 0;
		size_t boff = 0, blen = 0;
		S why;
	};
	extern bool exactClock;		// the library's clock stands still: no margin for expiry
	Sig parseSig(const Field& f, long now);
	// The data hashed for the header signature; false: refused (stray CR in a relaxed field).
	bool signedData(const Msg& m, size_t field, const Sig& s, S& out);
	// Indices (into m.f) denoted by the h= names, skipping the signature field itself.
	std::vector<long> denoted(const Msg& m, long self, const std::vector<S>& h);
	// The field text with the b= value (and white space around it) deleted.
	S withoutB(const Field& f, const Sig& s);

	struct Record
	{
		bool ok = false, unspec = false;
		bool rsa = true;
		bool anyHash = true, sha1 = false, sha256 = false;
		bool y = false, strict = false;
		std::vector<S> flags;
		S keyBytes;	// decoded p=
		S why;
	};
	Record parseRecord(const S& txt);

	// Verdict classes a verifier may give: pass, fail, permerror, temperror.
	// key: the record text; lookup: 0 ok, 1 failed lookup, 2 nothing there.
	std::set<S> verdict(const S& text, size_t field, long now, int lookup, const S& record, bool& unspec);

	// --- an independent signer ---
	struct Layout { unsigned char dummy; };
}
