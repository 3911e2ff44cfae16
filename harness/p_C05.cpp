// C05: body canonicalization against the reference, byte for byte.
#include "dk.hpp"
#include "streams.hpp"
#include <src/Canonicalization.hpp>
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"A random body (every mix of CRLF, LF, stray CR, SP, TAB, NUL, 8-bit, empty lines, sizes around the 8096-byte read buffer) behind a "
	"random prefix is canonicalized in a random mode with a random limit, through streams of random chunking and in random state; every "
	"byte handed to the callback is recorded and compared with the reference. Non-trivial: distinct (stream content, position, mode, limit).";
uint64_t mon::cases(bool th) { return th ? 2000000 : 100000; }

static S bodyFor(Rng& r, bool thorough)
{
	if (r.chance(3, 5)) return gen::body(r, r.chance(1, 60));
	static const std::vector<S> tok = { "\r\n", "\n", "\r", " ", "\t", "a", "b", S(1, '\0'), "\xff", "\v", "  \t ", "\r\n\r\n", "word", ".", "\x1a", "\x04", "\f", "\xa0" };
	S b;
	size_t n = r.below(24);
	for (size_t i = 0; i < n; ++i) b += r.pick(tok);
	if (r.chance(1, 6))
	{
		// something that starts, ends or straddles a multiple of the library's buffer size
		static const long sizes[] = { 8096, 16192, 4096, 8192, 1024, 65536, 32768 };
		long at = sizes[r.below(7)] + r.range(-4, 4);
		S f;
		switch (r.below(4))
		{
			case 0: f = S((size_t)at, 'x'); break;
			case 1: f = S((size_t)at, r.chance(1, 2) ? ' ' : '\n'); break;
			case 2: while ((long)f.size() < at) f += r.chance(1, 2) ? "line\r\n" : "l \r\n"; f.resize((size_t)at); break;
			default: f = S((size_t)at - 3, 'y') + r.pick({ " \r\n", "\r\n\r", "\n\n ", "\t \r" });
		}
		b = f + b;
	}
	else if (r.chance(1, 4000)) b = S(3000000 + r.below(3000), r.pick({ "\n", " ", "\n" })[0]) + b;
	else if (r.chance(1, 300)) b = S(gen::sizeUpTo(r, 300000), r.pick({ "\n", " ", "x", "\t" })[0]) + b;
	(void)thorough;
	return b;
}

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	S body = bodyFor(r, c.thorough);
	S prefix = r.chance(1, 3) ? S() : r.chance(1, 2) ? S("From: a\r\n\r\n") : r.bytes(r.below(300));
	S data = prefix + body;
	bool relaxed = r.chance(1, 2);
	DKIM::CanonMode mode = relaxed ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE;
	bool none = r.chance(1, 40);	// no body at all
	long off = none ? -1 : (long)prefix.size();
	S full = ref::canonBody(none ? S() : body, relaxed);

	// the limits worth trying
	bool limit = r.chance(1, 2);
	size_t lim = 0;
	if (limit)
		switch (r.below(6))
		{
			case 0: lim = 0; break;
			case 1: lim = full.size(); break;
			case 2: lim = full.size() + 1 + r.below(5); break;
			case 3: lim = full.size() > 3 ? full.size() - r.below(4) : r.below(3); break;
			case 4: lim = r.chance(1, 4) ? (size_t)0x7fffffffffffffffull : r.below(full.size() + 2); break;
			default: lim = r.below(full.size() + 2);
		}
	S want = limit && lim < full.size() ? full.substr(0, lim) : full;
	bool wantRet = !(limit && lim > full.size());

	streams::Buf buf(data);
	static const size_t chunks[] = { 1, 2, 3, 7, 64, 1000, 8095, 8096, 8097, 1 << 20 };
	buf.chunk = chunks[r.below(10)];
	if (buf.chunk < 64 && data.size() > 20000) buf.chunk = 4096;
	std::istream own(&buf);
	std::istringstream ss(data);
	bool useSs = r.chance(1, 4);
	std::istream& in = useSs ? (std::istream&)ss : own;
	// the state a caller may have left the stream in
	switch (r.below(5))
	{
		case 0: in.ignore((std::streamsize)data.size() + 10); break;		// eof
		case 1: { S l; while (std::getline(in, l)) {} break; }			// eof + fail
		case 2: in.ignore((std::streamsize)r.below(data.size() + 1)); break;	// somewhere
		case 3: in.setstate(std::ios::failbit); break;
		default: break;
	}
	S got;
	size_t calls = 0;
	bool ret = false;
	dk::Out o = dk::call([&] {
		ret = DKIM::Conversion::CanonicalizationBody(in, mode, (ssize_t)off, limit, lim, [&](const char* p, size_t n) { got.append(p, n); ++calls; });
	});
	auto ctx = [&] {
		return S(relaxed ? "relaxed" : "simple") + " offset " + std::to_string(off) + (limit ? " limit " + std::to_string(lim) : S(" no limit"))
			+ " chunk " + std::to_string(useSs ? 0 : buf.chunk) + " size " + std::to_string(body.size()) + " body " + quote(body, 1500) + "\ngot  (" + std::to_string(got.size()) + ") " + quote(got, 1500)
			+ "\nwant (" + std::to_string(want.size()) + ") " + quote(want, 1500); };
	c.check(o.ok(), "threw", [&] { return o.cls + " " + o.what + "\n" + ctx(); });
	c.check(got == want, relaxed ? "relaxed-body-differs" : "simple-body-differs", ctx);
	c.check(ret == wantRet, "limit-report", [&] { return S("returned ") + (ret ? "true" : "false") + "\n" + ctx(); });

	// the same again on the same stream: nothing may depend on where the last run ended
	if (r.chance(1, 3))
	{
		S again;
		dk::call([&] { DKIM::Conversion::CanonicalizationBody(in, mode, (ssize_t)off, limit, lim, [&](const char* p, size_t n) { again.append(p, n); }); });
		c.check(again == want, "second-run-differs", ctx);
		c.ev("second runs compared");
	}
	c.ev("bytes compared", want.size());
	c.ev("callbacks observed", calls);
	c.ev(limit ? (lim > full.size() ? "limit beyond the body" : lim == full.size() ? "limit equal to the body" : "limit inside the body") : "no limit");
	if (full.empty() || full == "\r\n") c.ev("empty bodies");
	if (body.size() > 8000) c.ev("bodies longer than one read");
	c.nontrivial(data + "/" + std::to_string(off) + (relaxed ? "r" : "s") + (limit ? std::to_string(lim) : "-"));
	if (c.idx < 30) c.sample(S(relaxed ? "relaxed " : "simple ") + quote(body, 200) + " -> " + quote(want, 200));
}
