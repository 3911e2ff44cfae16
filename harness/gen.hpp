// Generators. No header of /repo.
#pragma once
#include "mon.hpp"
#include "ref.hpp"

namespace gen
{
	typedef std::string S;
	typedef mon::Rng Rng;

	// A message: fields with CRLF folds, body with CRLF line ends (stray CR and LF possible).
	struct Message
	{
		std::vector<S> fields;
		bool blank = true;	// the empty line behind the fields
		bool lastEol = true;	// without a blank line: is the last field line terminated
		S body;
		S text(Rng* mix = nullptr, int eol = 0) const;	// eol: 0 CRLF, 1 LF, 2 mixed
	};

	S fws(Rng& r, bool allowFold = true);		// non-empty folding white space
	S ows(Rng& r, bool allowFold = true);		// possibly empty
	S word(Rng& r, size_t max = 12);		// printable token
	size_t sizeUpTo(Rng& r, size_t max);		// all magnitudes, with an eye on the powers of two
	S longText(Rng& r, size_t n);			// n characters that may stand in any tag's value
	// tags nobody knows (names that occur only once, and none that mean something), to be mixed with others
	void unknownTags(Rng& r, std::vector<std::pair<S, S>>& tags, size_t n);
	// the same number with zeros in front, digits digits in all at most
	S zeros(Rng& r, const S& number, size_t digits);
	S quotedLocal(Rng& r);				// a quoted-string as local part, "@" and all
	S caseMix(Rng& r, const S& s);
	S fieldName(Rng& r);
	// `name` with bytes that a printed name has not: a NUL and what follows it, a control, an eighth bit
	S oddName(Rng& r, const std::string& name);
	S fieldValue(Rng& r, bool eightBit = true, bool fold = true);
	S field(Rng& r, const S& name, bool odd = true);	// odd: white space before the colon, 8 bit, ...
	S body(Rng& r, bool big = false);		// any shape
	S label(Rng& r);
	S domain(Rng& r);
	Message message(Rng& r, bool from = true, bool big = false);
	S toLf(const S& crlf);
	S eol(Rng* r, int mode, const S& crlf);
	S refold(Rng& r, const S& raw, bool nameCase);	// keeps the relaxed canonical form

	struct SigCfg { const ref::Key* key; int form; S domain, selector; };
	struct Cfg
	{
		std::vector<SigCfg> sigs;
		bool sha256 = true, relH = false, relB = false;
		int hmode = 0;			// 0 default list, 1 SetHeaders, 2 everything, 3 Add/DelHeaders
		std::vector<S> headers, add, del, oversign;
		bool hasL = false; unsigned long l = 0;
		bool hasT = false; long t = 0;
		bool hasX = false; long x = 0; bool xabs = true;
		S identity;
		unsigned long arc = 0;
		S str() const;
	};
	// A configuration whose signatures must verify for m.
	Cfg config(Rng& r, const Message& m, bool many = true);
	const ref::Key& anyKey(Rng& r, bool rsa);

	// --- an independent signer with arbitrary legal layout ---
	struct SignSpec
	{
		const ref::Key* key;
		bool sha256 = true, relH = true, relB = true;
		S d, s;
		std::vector<S> h;
		bool hasL = false; unsigned long l = 0;
		bool hasI = false; S i;		// decoded identity
		long t = -1;
		S x;				// verbatim, "" none
		S q, c;				// verbatim, "" none (c must fit relH/relB)
		unsigned arc = 0;
		std::vector<std::pair<S, S>> extra;	// unknown tags
		bool plain = false;		// no odd layout
	};
	SignSpec signSpec(Rng& r, const Message& m);
	// Inserts the signed field before fields[pos]; returns its text.
	S signInto(Rng& r, Message& m, size_t pos, const SignSpec& s);
	// As above with the tags given verbatim: tags named "b" get the signature.
	S signTags(Rng& r, Message& m, size_t pos, const SignSpec& s, std::vector<std::pair<S, S>> tags, bool shuffle);
	std::vector<std::pair<S, S>> tagsOf(Rng& r, const Message& m, const SignSpec& s);

	S recordFor(Rng& r, const ref::Key& k, bool odd = true);	// a usable record, any layout
	S nearMiss(Rng& r, const S& word);		// a small printable change (may come out as the word itself)
	// a colon-separated list of 1..5 words, repeated, in any order, with white space; odd: also empty ones
	S wordList(Rng& r, const std::vector<S>& known, const std::vector<S>& rare, bool odd = false);
	S mutateBytes(Rng& r, const S& s, unsigned n = 1);
	S foldB64(Rng& r, const S& b, bool plain = false);
	// changes the end of the body until the hash the signature needs has a NUL at its beginning
	void nulHash(Rng& r, Message& m, const SignSpec& s);
	S wrongHash(Rng& r, const S& hash);		// differs from the hash, most of the time as little as possible
}
