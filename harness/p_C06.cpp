// C06: header canonicalization against the reference.
#include "dk.hpp"
#include <src/Canonicalization.hpp>
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Header fields as the message parser delivers them (random names, white space, folds, stray CR, NUL, 8-bit bytes, no colon, several "
	"colons) are filtered in both modes and compared with the reference; relaxed results are filtered again (idempotence), and a refolded, "
	"re-cased copy of the field is filtered too (same result). Non-trivial: distinct fields.";
uint64_t mon::cases(bool th) { return th ? 6000000 : 600000; }

static S rawField(Rng& r)
{
	switch (r.below(4))
	{
		case 0: return gen::field(r, gen::fieldName(r));
		case 1:
		{
			// token soup, no line break other than folds
			static const std::vector<S> tok = { ":", " ", "\t", "\r\n ", "\r\n\t", "a", "B", "\xc3\x89", S(1, '\0'), "\xff", ";", "\v", "\f", "  ", " \r\n  ", "Zz", "@", "[", "`", "{", "\x7f", "\xa0" };
			S f = r.chance(1, 2) ? S("X") : S();
			size_t n = r.below(20);
			if (r.chance(1, 20)) f = r.pick({ " ", "\t", "  ", "\xef\xbb\xbf", " \t", ">" });
			for (size_t i = 0; i < n; ++i) f += r.pick(tok);
			return f;
		}
		case 2:
		{
			S f = gen::field(r, gen::fieldName(r));
			// stray CR somewhere
			if (!f.empty()) f.insert(r.below(f.size() + 1), r.pick({ "\r", "\r", "\r\r" }));
			return f;
		}
		default:
		{
			S f = gen::mutateBytes(r, gen::field(r, gen::fieldName(r)), 1 + (unsigned)r.below(4));
			return f;
		}
	}
}

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	S text = rawField(r) + "\r\n" + (r.chance(1, 3) ? rawField(r) + "\r\n" : "") + "\r\nbody";
	std::istringstream in(text);
	DKIM::Message msg;
	while (msg.ParseLine(in) && !msg.IsDone()) {}
	DKIM::Conversion::CanonicalizationHeader simple(DKIM::DKIM_C_SIMPLE), relaxed(DKIM::DKIM_C_RELAXED);
	if (r.chance(1, 4)) { simple.SetType(DKIM::DKIM_C_RELAXED); relaxed.SetType(DKIM::DKIM_C_SIMPLE); std::swap(simple, relaxed); c.ev("modes set afterwards"); }
	for (auto& h : msg.GetHeaders())
	{
		const S raw = h->GetHeader();
		if (raw.empty()) { c.ev("empty"); continue; }
		if (ref::wsp(raw[0]))
		{
			// without a name it is no field
			size_t k = 0;
			while (k < raw.size() && ref::lwsp(raw[k])) ++k;
			if (k == raw.size() || raw[k] == ':') { c.ev("no name"); continue; }
			c.ev("leading white space");
		}
		S s, x, y, want;
		dk::Out os = dk::call([&] { s = simple.FilterHeader(raw); });
		c.check(os.ok() && s == raw, "simple-changes-the-field", [&] { return os.what + quote(raw, 2000) + "\n" + quote(s, 2000); });
		bool ok = ref::relaxHeader(raw, want);
		dk::Out orl = dk::call([&] { x = relaxed.FilterHeader(raw); });
		auto ctx = [&] { return "field " + quote(raw, 2000) + "\ngot  " + (orl.ok() ? quote(x, 2000) : orl.cls + ": " + orl.what) + "\nwant " + (ok ? quote(want, 2000) : S("refusal")); };
		if (!ok)
		{
			c.check(!orl.ok() && orl.cls == "permerror", "malformed-field-accepted", ctx);
			c.ev("refused fields");
			continue;
		}
		c.check(orl.ok(), "field-refused", ctx);
		c.check(x == want, "relaxed-differs", ctx);
		dk::Out o2 = dk::call([&] { y = relaxed.FilterHeader(x); });
		c.check(o2.ok() && y == x, "not-idempotent", [&] { return ctx() + "\nagain " + quote(y, 2000); });
		c.ev("relaxed fields compared");
		// another layout of the same field
		S f2 = gen::refold(r, raw, true), w2;
		if (!f2.empty() && !ref::wsp(f2[0]) && ref::relaxHeader(f2, w2) && w2 == want)
		{
			S z;
			dk::Out o3 = dk::call([&] { z = relaxed.FilterHeader(f2); });
			c.check(o3.ok() && z == x, "layout-matters", [&] { return ctx() + "\nother layout " + quote(f2, 2000) + "\ngives " + quote(z, 2000) + o3.what; });
			c.ev("other layouts compared");
		}
		c.nontrivial(raw);
		if (c.idx < 30) c.sample(quote(raw, 200) + " -> " + quote(x, 200));
	}
}
