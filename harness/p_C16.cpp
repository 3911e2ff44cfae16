// C16: encoded words.
#include "dk.hpp"
#include <src/EncodedWord.hpp>
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Texts are put together from white space, plain words, valid encoded words (Q and B in either case, any charset name) and invalid ones "
	"(unknown encoding, undecodable Q, no delimiter behind, unterminated at the end); the expected result follows from the parts. "
	"Non-trivial: distinct texts.";
uint64_t mon::cases(bool th) { return th ? 4000000 : 700000; }

static S charset(Rng& r) { return r.pick({ "utf-8", "UTF-8", "iso-8859-1", "us-ascii", "x", "windows-1252", "utf-8*en", "koi8-r" }); }

static S qData(Rng& r, S& dec)
{
	static const S plain = "abcXYZ0189!\"#$%&'()*+,-./:;<>@[\\]^`{|}~";
	S o;
	for (size_t n = r.chance(1, 20) ? 0 : 1 + r.below(r.chance(1, 30) ? 300 : 14); n; --n)
	{
		switch (r.below(4))
		{
			case 0: o += "_"; dec += " "; break;
			case 1: { char ch = (char)r.next(), b[4]; snprintf(b, sizeof b, "=%02X", (unsigned char)ch); o += b; dec += ch; break; }
			default: { char ch = plain[r.below(plain.size())]; o += ch; dec += ch; }
		}
	}
	return o;
}

static S word(Rng& r, S& dec)
{
	dec.clear();
	if (r.chance(1, 2)) return "=?" + charset(r) + "?" + r.pick({ "Q", "q" }) + "?" + qData(r, dec) + "?=";
	dec = r.bytes(r.chance(1, 20) ? 0 : 1 + r.below(r.chance(1, 30) ? 400 : 30));
	return "=?" + charset(r) + "?" + r.pick({ "B", "b" }) + "?" + ref::b64(dec) + "?=";
}

static S plain(Rng& r)
{
	static const S a = "abcXYZ019?!._-;:,<>@()\"\\\x7f\x80\xc3\xa9\xff\v\f";
	S o = r.from(a, 1 + r.below(10));
	// an equals sign that does not begin an encoded word
	if (r.chance(1, 3)) { size_t p = r.below(o.size() + 1); if (p >= o.size() || o[p] != '?') o.insert(p, r.pick({ "=", "==", "=3D", "=A" })); }
	for (size_t i = 0; i + 1 < o.size(); ++i) if (o[i] == '=' && o[i + 1] == '?') o[i + 1] = '!';
	if (r.chance(1, 50)) o += S(1, '\0');
	return o;
}

static S space(Rng& r, S& kept)
{
	S o;
	kept.clear();
	do
	{
		S w;
		for (size_t n = 1 + r.below(3); n; --n) w += r.chance(2, 3) ? " " : "\t";
		if (r.chance(1, 4)) o += "\r\n";
		o += w;
		kept += w;
	} while (r.chance(1, 5));
	return o;
}

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	S in, want, kept;
	if (r.chance(1, 3)) in += space(r, kept);
	size_t n = r.below(r.chance(1, 100) ? 60 : 7);
	S ws;	// white space to be kept if the next part is not an encoded word
	unsigned valid = 0, invalid = 0, bare = 0;
	for (size_t i = 0; i < n; ++i)
	{
		bool open = false;
		S dec;
		switch (r.below(i + 1 == n ? 7 : 6))
		{
			case 0: case 1: case 2:
				in += word(r, dec);
				want += dec;
				++valid;
				break;
			case 3: case 4:
			{
				S p = plain(r);
				in += p;
				want += ws + p;
				++bare;
				break;
			}
			case 5:
			{
				S w;
				switch (r.below(5))
				{
					case 0: w = "=?" + charset(r) + "?" + r.pick({ "X", "QB", "", "base64", "QQ", "8" }) + "?abc?="; break;
					case 1: w = "=?" + charset(r) + "?Q?" + r.pick({ "a=zz", "=", "a=4", "=G0", "a\x80", "=\xff", "abc=E", "x\x01y" }) + "?="; break;
					case 2: { S d2; w = word(r, d2) + r.pick({ "a", ")", ",", ".", "\xff", "?" }); break; }	// no delimiter
					case 3: w = "=?" + charset(r) + "?Q?abc?x"; break;
					default: w = "=?" + charset(r) + "?q?abc?" + r.pick({ "!", ".", "a=" }); break;
				}
				in += w;
				want += ws + w;
				++invalid;
				break;
			}
			default:
			{
				// unterminated, at the end
				S w = r.pick({ "=?", "=?utf-8", "=?utf-8?", "=?utf-8?Q", "=?utf-8?Q?", "=?utf-8?Q?abc", "=?utf-8?Q?abc?", "=", "=?utf-8?B?YWJj", "=?utf-8?B?YWJj?" });
				in += w;
				want += ws + w;
				++invalid;
				open = true;
			}
		}
		ws.clear();
		if (open) break;	// white space behind it would be a part of it
		if (i + 1 < n || r.chance(1, 3)) in += space(r, ws);
	}
	S got;
	dk::Out o = dk::call([&] { got = DKIM::Conversion::EncodedWord::Decode(in); });
	auto ctx = [&] { return "text " + quote(in, 2500) + "\n" + o.cls + " " + o.what + "\ngot  " + quote(got, 2500) + "\nwant " + quote(want, 2500); };
	c.check(o.ok(), "refused", ctx);
	c.check(got == want, "decoded-text-differs", ctx);
	c.ev("encoded words", valid);
	c.ev("invalid encoded words kept", invalid);
	c.ev("plain words kept", bare);
	if (n) c.nontrivial(in);
	if (c.idx < 30) c.sample(quote(in, 200) + " -> " + quote(got, 200));
}
