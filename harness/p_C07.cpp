// C07: messages are split into fields and body without loss.
#include "dk.hpp"
#include "streams.hpp"
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Random and hostile texts (structured messages, token soup, raw bytes; LF, CRLF, mixed, missing last line end) are parsed line by line; "
	"the fields, names, value positions and body position are compared with the reference, a byte account is kept (fields + line ends + empty line + body "
	"= text), and the CRLF and LF versions of the same text must give equal fields. Non-trivial: distinct texts with at least one field.";
uint64_t mon::cases(bool th) { return th ? 3000000 : 240000; }

static S anyText(Rng& r)
{
	switch (r.below(5))
	{
		case 0: case 1: { gen::Message m = gen::message(r, false, r.chance(1, 100)); return m.text(&r, (int)r.below(3)); }
		case 2:
		{
			static const std::vector<S> tok = { "\r\n", "\n", "\r", " ", "\t", ":", "a", "From", "X: y", "\r\n\r\n", "\n\n", S(1, '\0'), "\xff", "\r\r\n", " :", "v" };
			S t = r.chance(1, 10) ? r.pick({ "\xef\xbb\xbf", "From ", ">From ", ".", " ", "\xff\xfe" }) : "";
			size_t n = r.below(30);
			for (size_t i = 0; i < n; ++i) t += r.pick(tok);
			return t;
		}
		case 3: return r.bytes(r.below(200));
		default: { gen::Message m = gen::message(r, false); return gen::mutateBytes(r, m.text(&r, (int)r.below(3)), 1 + (unsigned)r.below(5)); }
	}
}

static std::list<std::shared_ptr<DKIM::Header>> fields(const S& t, long& body, bool& done, Rng& r)
{
	streams::Buf buf(t);
	if (r.chance(1, 3)) buf.chunk = 1 + r.below(5);
	std::istream in(&buf);
	DKIM::Message m;
	if (r.chance(1, 5))
	{
		// a used object, reset
		std::istringstream junk("A: b\r\nC: d\r\n" + S(r.chance(1, 2) ? "\r\nx" : ""));
		while (m.ParseLine(junk) && !m.IsDone() && r.chance(2, 3)) {}
		m.Reset();
	}
	while (m.ParseLine(in) && !m.IsDone()) {}
	body = (long)m.GetBodyOffset();
	done = m.IsDone();
	return m.GetHeaders();
}

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	S t = anyText(r);
	if (c.idx % 20000 == 7)
	{
		// nothing is too long, or too many
		S more;
		size_t n = 65530 + r.below(40), big = r.chance(1, 3) ? (1u << 24) + r.below(100) : (1u << 20) + r.below(3000000);
		switch (c.idx / 20000 % 3)
		{
			case 0: more = "X-Long: " + S(big, 'x') + "\r\n"; break;
			case 1: more = S(big, 'n') + ": v\r\n"; break;
			default: for (size_t i = 0; i < n; ++i) more += "X: " + std::to_string(i) + (r.chance(1, 10) ? "\n y" : "") + "\n"; break;
		}
		t = r.chance(1, 2) ? more + t : "A: b\r\n" + more + "\r\n" + t;
		c.ev("very long line, or very many fields");
	}
	long body = 0;
	bool done = false;
	std::list<std::shared_ptr<DKIM::Header>> h;
	dk::Out o = dk::call([&] { h = fields(t, body, done, r); });
	ref::Msg m = ref::parse(t);
	auto ctx = [&] {
		S s = "text " + quote(t, 2500) + "\nbody at " + std::to_string(body) + ", expected " + std::to_string(m.body);
		for (auto& x : h) s += "\n  [" + quote(x->GetName()) + "] @" + std::to_string(x->GetValueOffset()) + " " + quote(x->GetHeader(), 600);
		return s; };
	c.check(o.ok(), "threw", [&] { return o.cls + " " + o.what + "\n" + ctx(); });
	c.check(done, "not-done", ctx);
	c.check(h.size() == m.f.size(), "number-of-fields", ctx);
	c.check(body == m.body, "body-position", ctx);
	size_t k = 0, sum = 0;
	for (auto& x : h)
	{
		const ref::Field& f = m.f[k++];
		c.check(x->GetHeader() == f.raw, "field-text", ctx);
		c.check(x->GetName() == f.name, "field-name", ctx);
		c.check(x->GetValueOffset() == f.voff, "value-position", ctx);
		// the bytes of the field without line ends
		for (char ch : x->GetHeader()) if (ch != '\r' && ch != '\n') ++sum;
		c.ev("fields compared");
	}
	// byte account: everything but CR and LF is in a field or in the body
	size_t all = 0, tail = 0;
	for (char ch : t) if (ch != '\r' && ch != '\n') ++all;
	for (size_t i = body < 0 ? t.size() : (size_t)body; i < t.size(); ++i) if (t[i] != '\r' && t[i] != '\n') ++tail;
	bool emptyLineNoBody = m.body < 0;
	c.check(all == sum + tail, "bytes-lost", [&] { return std::to_string(all) + " != " + std::to_string(sum) + " + " + std::to_string(tail) + "\n" + ctx(); });
	c.ev(emptyLineNoBody ? "texts without a body" : "texts with a body");
	// LF and CRLF versions
	if (t.find('\r') == S::npos)
	{
		S t2;
		for (char ch : t) { if (ch == '\n') t2 += '\r'; t2 += ch; }
		long b2; bool d2;
		auto h2 = fields(t2, b2, d2, r);
		bool same = h2.size() == h.size() && (b2 < 0) == (body < 0) && (body < 0 || ref::canonBody(t2.substr((size_t)b2), false) == ref::canonBody(t.substr((size_t)body), false));
		auto i = h.begin();
		if (same) for (auto& x : h2) { same = same && x->GetHeader() == (*i)->GetHeader() && x->GetName() == (*i)->GetName(); ++i; }
		c.check(same, "line-ends-matter", ctx);
		c.ev("LF/CRLF pairs compared");
	}
	if (!h.empty()) c.nontrivial(t);
	c.state(std::to_string(h.size()) + (body < 0 ? "n" : "b"));
	if (c.idx < 30) c.sample(quote(t, 300));
}
