// C15: Base64 and DKIM-quoted-printable.
#include "dk.hpp"
#include <src/Base64.hpp>
#include <src/QuotedPrintable.hpp>
using namespace mon;
typedef std::string S;
using DKIM::Conversion::Base64_Decode;
using DKIM::Conversion::Base64_Encode;
using DKIM::Conversion::QuotedPrintable;

const char* const mon::RULE =
	"Byte strings of every length class (0.., around multiples of 3, 64, 255, 1024, 4096, up to 300 kB) and every byte value are encoded and decoded: "
	"both must equal the reference codec and be inverse. Quoted-printable texts with folding white space, lower-case or missing digits and "
	"characters that must be encoded are decoded and compared. Non-trivial: distinct inputs.";
uint64_t mon::cases(bool th) { return th ? 3000000 : 250000; }

static size_t length(Rng& r)
{
	switch (r.below(8))
	{
		case 0: return r.below(10);
		case 1: return r.below(200);
		case 2: return (size_t)(r.pick(std::vector<int>{ 48, 64, 57, 255, 256, 512, 765, 768, 1020, 1023, 1024, 1026, 1536, 2048, 3072, 4096, 8192, 16384 }) + r.range(-3, 3));
		case 3: return r.below(3000);
		case 4: return r.chance(1, 100) ? 30000 + r.below(270000) : r.below(64);
		default: return r.below(70);
	}
}

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	S in;
	switch (r.below(5))
	{
		case 0: in = S(length(r), (char)r.next()); break;
		case 1: in = r.from(S("\0\xff\x7f\x80 \t\r\n", 8), length(r)); break;
		case 2: for (size_t n = length(r); n; --n) in += (char)r.range(0x20, 0x7e); break;
		default: in = r.bytes(length(r));
	}
	if (c.idx < 256) in = S(1, (char)c.idx);		// every byte alone, and in company
	else if (c.idx < 512) in = "a" + S(1, (char)c.idx) + "b";
	S got, back;
	switch (c.idx < 512 ? c.idx / 256 * 0 + 2 : r.below(3))
	{
		case 0:
		{
			S want = ref::b64(in);
			dk::Out o = dk::call([&] { got = Base64_Encode(in); });
			auto ctx = [&] { return std::to_string(in.size()) + " bytes " + hex(in.substr(0, 300)) + "\n" + o.cls + " " + o.what + " got " + std::to_string(got.size()) + ": " + quote(got, 500) + "\nwant " + std::to_string(want.size()) + ": " + quote(want, 500) + "\ndecoded " + std::to_string(back.size()) + ": " + hex(back.substr(0, 300)); };
			c.check(o.ok() && got == want, "base64-encoding", ctx);
			o = dk::call([&] { back = Base64_Decode(want); });
			c.check(o.ok() && back == in, "base64-decoding", ctx);
			c.ev("base64 round trips");
			c.ev("base64 bytes", in.size());
			c.nontrivial(in);
			break;
		}
		case 1:
		{
			// what is decoded need not come from the encoder
			if (in.size() > 400) in.resize(400);
			S t;
			size_t kind = r.below(8);
			for (char ch : in)
			{
				S q = ref::qpEnc(S(1, ch));
				if (q.size() == 1 && r.chance(1, 8)) { char b[4]; snprintf(b, sizeof b, "=%02X", (unsigned char)ch); q = b; }
				if (kind == 1 && r.chance(1, 40)) q = ref::lower(q);
				if (kind == 2 && r.chance(1, 60)) q = S(1, ch);
				if (kind == 3 && r.chance(1, 60)) q = q.substr(0, q.size() - 1);
				t += q;
				if (r.chance(1, 20)) t += gen::fws(r);
				if (kind == 4 && r.chance(1, 40)) t += r.pick({ "=", "==", "=G0", "=0g", "=a0", "\r", "\n", "\r\n", ";", "\x7f", "\x80", "= 41", "=4 1" });
			}
			if (kind == 5) t = gen::mutateBytes(r, t, 1);
			if (kind == 6) t += r.pick({ "=", "=A", "=4", " ", "\r\n ", "\r\n", " \r\n", "\r" });
			S want;
			bool ok = ref::qpDec(t, want);
			dk::Out o = dk::call([&] { got = QuotedPrintable::Decode(t); });
			auto ctx = [&] { return "text " + quote(t, 1500) + "\n" + o.cls + " " + o.what + " got " + hex(got.substr(0, 400)) + "\nwant " + (ok ? hex(want.substr(0, 400)) : S("refusal")); };
			c.check(o.ok() || o.cls == "permerror", "unexpected-error", ctx);
			c.check(o.ok() == ok, ok ? "valid-text-refused" : "invalid-text-accepted", ctx);
			if (ok) c.check(got == want, "qp-decoding", ctx);
			c.ev(ok ? "qp texts decoded" : "qp texts refused");
			c.nontrivial(t);
			if (c.idx < 600) c.sample(quote(t, 150));
			break;
		}
		default:
		{
			S want = ref::qpEnc(in);
			dk::Out o = dk::call([&] { got = QuotedPrintable::Encode(in); });
			auto ctx = [&] { return "bytes " + hex(in.substr(0, 400)) + "\n" + o.cls + " got " + quote(got, 1500) + "\nwant " + quote(want, 1500) + "\ndecoded " + hex(back.substr(0, 400)); };
			c.check(o.ok() && got == want, "qp-encoding", ctx);
			o = dk::call([&] { back = QuotedPrintable::Decode(got); });
			c.check(o.ok() && back == in, "qp-round-trip", ctx);
			c.ev("qp round trips");
			c.ev("qp bytes", in.size());
			c.nontrivial(in);
		}
	}
}
