// C14: decoding of DNS answers.
#include "dk.hpp"
#include "dnspkt.hpp"
#include "interpose.hpp"
#include <netdb.h>
#include <src/Resolver.hpp>
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Responses built by an RFC 1035 writer (compression, CNAME and other records, several TXT records, strings of every length, records up to "
	"64 KiB, other sections) are served to the resolver through the interposed query functions: the text must be exact. Truncated and "
	"mutated responses are served with the bytes behind them unreadable (ASan); text returned must be TXT string data of the response, in order "
	"(for truncations: a prefix of the true text at a string boundary). Lookup outcomes are checked. Non-trivial: distinct packets.";
uint64_t mon::cases(bool th) { return th ? 4000000 : 400000; }

static bool query(const S& name, const std::function<int(unsigned char*, int, int&)>& f, S& out)
{
	interpose::dns = [&](const char*, unsigned char* a, int n, int& e) { return f(a, n, e); };
	interpose::poison = true;
	bool ok = DKIM::Util::Resolver().GetTXT(name, out);
	interpose::dnsDone();
	interpose::poison = false;
	interpose::dns = nullptr;
	return ok;
}

static S longText(Rng& r)
{
	switch (r.below(5))
	{
		case 0: return r.bytes(r.below(30));
		case 1: return r.bytes(r.below(600));
		case 2: return S(250 + r.below(12), 'a' + (char)r.below(26));
		case 3: return r.chance(1, 40) ? r.bytes(20000 + r.below(30000)) : r.bytes(255 * (1 + r.below(4)));
		default: return "v=DKIM1; p=" + r.from("ABCDEFGabcdefg0123456789+/", r.below(500));
	}
}

static dnspkt::Reply someReply(Rng& r, const S& q, bool small)
{
	S t = longText(r);
	if (small && t.size() > 700) t.resize(700);
	dnspkt::Reply p = dnspkt::reply(r, q, t);
	// further TXT records anywhere
	for (size_t n = r.chance(1, 3) ? 1 + r.below(3) : 0; n; --n)
	{
		dnspkt::Rr x;
		x.name = r.chance(1, 2) ? q : gen::domain(r);
		S u = r.chance(1, 20) ? S() : r.bytes(r.below(300));
		x.txt = dnspkt::cut(r, u);
		p.answer.insert(p.answer.begin() + (long)r.below(p.answer.size() + 1), x);
	}
	if (r.chance(1, 300))	// very many records
		for (size_t n = gen::sizeUpTo(r, small ? 300 : 1500); n; --n)
		{
			dnspkt::Rr x;
			x.name = q;
			x.txt = dnspkt::cut(r, r.from("abcdef", 1 + r.below(8)));
			p.answer.insert(p.answer.begin() + (long)r.below(p.answer.size() + 1), x);
		}
	if (r.chance(1, 30)) p.questions = r.chance(1, 2) ? 0 : 2;
	if (r.chance(1, 20)) for (auto i = p.answer.begin(); i != p.answer.end();) if (i->type == 16) i = p.answer.erase(i); else ++i;
	return p;
}

// The complete strings of the TXT records one meets when walking over the answer section.
static std::vector<S> strings(const S& p)
{
	std::vector<S> r;
	auto u16 = [&](size_t i) { return (size_t)(unsigned char)p[i] << 8 | (unsigned char)p[i + 1]; };
	size_t at = 12;
	auto skip = [&] {
		for (;;)
		{
			if (at >= p.size()) return false;
			size_t n = (unsigned char)p[at++];
			if (n == 0) return true;
			if (n >= 0xc0) { ++at; return at <= p.size(); }
			if (n > 63) return false;
			at += n;
		}
	};
	size_t q = u16(4), a = u16(6);
	while (q--)
	{
		if (!skip()) return r;
		at += 4;
		if (at > p.size()) return r;
	}
	while (a--)
	{
		if (!skip() || at + 10 > p.size()) return r;
		size_t type = u16(at), len = u16(at + 8);
		at += 10;
		size_t end = std::min(at + len, p.size());
		if (type == 16)
		{
			for (size_t i = at; i < end;)
			{
				size_t n = (unsigned char)p[i];
				if (i + 1 + n > end) break;
				if (n) r.push_back(p.substr(i + 1, n));
				i += 1 + n;
			}
		}
		at += len;
		if (at > p.size()) return r;
	}
	return r;
}

// Is `out` put together from some of the strings, in order?
static bool fromStrings(const S& pkt, const S& out)
{
	std::vector<S> st = strings(pkt);
	std::vector<char> can(out.size() + 1, 0);
	can[0] = 1;
	for (auto& x : st)
		for (size_t i = out.size() + 1; i-- > 0;)	// downwards: every string once
			if (can[i] && i + x.size() <= out.size() && out.compare(i, x.size(), x) == 0) can[i + x.size()] = 1;
	return can[out.size()] != 0;
}

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	S name = gen::domain(r), out;
	unsigned kind = (unsigned)r.below(10);
	if (kind == 0)
	{
		int e = r.chance(1, 3) ? NO_DATA : r.chance(1, 2) ? HOST_NOT_FOUND : r.chance(1, 2) ? TRY_AGAIN : NETDB_INTERNAL;
		bool fails = e == TRY_AGAIN || e == NETDB_INTERNAL;
		bool ok = query(name, [&](unsigned char*, int, int& h) { h = e; return -1; }, out);
		c.check(ok == !fails, "lookup-outcome", [&] { return "h_errno " + std::to_string(e) + " gives " + (ok ? "success" : "failure"); });
		c.check(out.empty(), "text-without-answer", [&] { return quote(out); });
		c.ev(e == NETDB_INTERNAL ? "local failures" : e == TRY_AGAIN ? "server failures" : e == NO_DATA ? "no data" : "no such domain");
		c.nontrivial(std::to_string(e));
		return;
	}
	bool malformed = kind >= 5;
	dnspkt::Reply p = someReply(r, name, malformed);
	bool over = malformed && r.chance(1, 150);	// more than there is room for (the resolver library tells the full length)
	if (over)
		for (size_t n = 260 + r.below(300); n; --n)
		{
			dnspkt::Rr x;
			x.name = name;
			x.txt = { r.from("abcdef", 255) };
			p.answer.push_back(x);
		}
	S pkt = dnspkt::build(r, p, r.chance(3, 4));
	if (over && pkt.size() > 65536)
	{
		S big = pkt;
		dk::Out o = dk::call([&] {
			query(name, [&](unsigned char* a, int n, int&) { memcpy(a, big.data(), std::min((size_t)n, big.size())); return (int)big.size(); }, out);
		});
		c.check(o.ok() && fromStrings(big, out), "oversized-response", [&] { return std::to_string(big.size()) + " bytes: " + o.cls + " " + quote(out, 500); });
		c.ev("responses larger than any buffer");
		c.nontrivial(big);
		return;
	}
	if (pkt.size() > 65535) { c.ev("too large for a message"); return; }
	S want = dnspkt::expected(p);
	S served = pkt;
	bool trunc = false;
	if (malformed)
	{
		if (r.chance(1, 3)) { served.resize(12 + r.below(served.size() - 11)); trunc = served.size() < pkt.size(); }
		else
		{
			for (unsigned n = 1 + (unsigned)r.below(3); n; --n)
			{
				size_t at = r.below(served.size());
				if (r.chance(1, 3)) at = r.below(std::min<size_t>(served.size(), 60));
				switch (r.below(5))
				{
					case 0: served[at] = (char)r.next(); break;
					case 1: served[at] = (char)(r.chance(1, 2) ? 0xff : 0); break;
					case 2: served[at] = (char)(0xc0 | r.below(64)); break;
					case 3: served[at] = (char)(served[at] + (r.chance(1, 2) ? 1 : -1)); break;
					default: if (served.size() > 40) served.erase(at > 12 ? at : 12, 1 + r.below(3)); break;
				}
			}
		}
		if (served.size() < 12) { c.ev("shorter than a header"); return; }
	}
	// something may be in the string already
	S before = r.chance(1, 20) ? "before" : "";
	out = before;
	bool ok = false;
	dk::Out o = dk::call([&] {
		ok = query(name, [&](unsigned char* a, int n, int&) {
			if ((int)served.size() <= n) memcpy(a, served.data(), served.size());
			else memcpy(a, served.data(), (size_t)n);
			return (int)served.size(); }, out);
	});
	auto ctx = [&] { return "packet " + hex(served.substr(0, 1500)) + (malformed ? " (malformed from a correct one)" : "") + "\ngot " + (ok ? "success " : "failure ") + quote(out, 1500) + "\nwant " + quote(want, 1500) + "\n" + o.cls; };
	c.check(o.ok(), "resolver-throws", ctx);
	c.nontrivial(served);
	if (!malformed || served == pkt)
	{
		c.check(ok, "well-formed-response-fails", ctx);
		c.check(out == before + want, "text-differs", ctx);
		c.ev("well-formed responses compared");
		c.ev("text bytes compared", want.size());
		if (p.answer.size() > 1) c.ev("with several records");
		if (want.size() > 255) c.ev("with several strings");
		if (c.idx < 30) c.sample("packet of " + std::to_string(pkt.size()) + " bytes, " + std::to_string(p.answer.size()) + " records: " + quote(out, 150));
		return;
	}
	S got = out.substr(std::min(out.size(), before.size()));
	c.check(out.compare(0, before.size(), before) == 0, "text-lost", ctx);
	c.check(fromStrings(served, got), "text-not-from-the-response", ctx);
	if (trunc)
	{
		bool boundary = got.empty();
		S acc;
		for (auto& x : p.answer) if (x.type == 16) for (auto& t : x.txt) { acc += t; if (acc == got) boundary = true; }
		c.check(boundary, "truncated-text-differs", ctx);
		c.ev("truncated responses");
	}
	else c.ev("mutated responses");
	c.ev(got.empty() ? "malformed, no text" : "malformed, some text");
}
