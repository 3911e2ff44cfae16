// DNS response packets (RFC 1035).
#pragma once
#include "gen.hpp"

namespace dnspkt
{
	typedef std::string S;
	typedef mon::Rng Rng;
	struct Rr { S name; int type = 16; int cls = 1; unsigned ttl = 300; S rdata; std::vector<S> txt; S target; };
	struct Reply { S qname; std::vector<Rr> answer, authority, additional; int questions = 1; };

	inline void put16(S& o, unsigned v) { o += (char)(v >> 8); o += (char)v; }
	inline void put32(S& o, unsigned v) { put16(o, v >> 16); put16(o, v & 0xffff); }

	// compress: names seen before are referred to (at random)
	struct Writer
	{
		Rng& r;
		bool compress;
		S o;
		std::map<S, size_t> at;
		void name(S n)
		{
			while (!n.empty())
			{
				auto i = at.find(n);
				if (compress && i != at.end() && r.chance(3, 4)) { put16(o, 0xc000 | (unsigned)i->second); return; }
				if (i == at.end() && o.size() < 0x3fff) at[n] = o.size();
				size_t d = n.find('.');
				S l = n.substr(0, d);
				if (l.size() > 63) l.resize(63);
				o += (char)l.size();
				o += l;
				n = d == S::npos ? S() : n.substr(d + 1);
			}
			o += '\0';
		}
		void rr(const Rr& x)
		{
			name(x.name);
			put16(o, (unsigned)x.type);
			put16(o, (unsigned)x.cls);
			put32(o, x.ttl);
			size_t len = o.size();
			put16(o, 0);
			if (x.type == 16) for (auto& t : x.txt) { o += (char)t.size(); o += t; }
			else if (!x.target.empty()) name(x.target);
			else o += x.rdata;
			size_t n = o.size() - len - 2;
			o[len] = (char)(n >> 8);
			o[len + 1] = (char)n;
		}
	};

	inline S build(Rng& r, const Reply& p, bool compress = true)
	{
		Writer w{ r, compress, {}, {} };
		put16(w.o, (unsigned)r.below(65536));
		put16(w.o, 0x8180);
		put16(w.o, (unsigned)p.questions);
		put16(w.o, (unsigned)p.answer.size());
		put16(w.o, (unsigned)p.authority.size());
		put16(w.o, (unsigned)p.additional.size());
		for (int i = 0; i < p.questions; ++i) { w.name(p.qname); put16(w.o, 16); put16(w.o, 1); }
		for (auto& x : p.answer) w.rr(x);
		for (auto& x : p.authority) w.rr(x);
		for (auto& x : p.additional) w.rr(x);
		return w.o;
	}

	inline S expected(const Reply& p)
	{
		S e;
		for (auto& x : p.answer) if (x.type == 16) for (auto& t : x.txt) e += t;
		return e;
	}

	// A text as the strings of TXT records, cut anywhere.
	inline std::vector<S> cut(Rng& r, const S& t, bool odd = true)
	{
		std::vector<S> v;
		size_t i = 0;
		bool max = r.chance(1, 2);
		while (i < t.size())
		{
			size_t n = max ? 255 : r.below(256);
			if (!max && n == 0 && !odd) n = 1;
			v.push_back(t.substr(i, n));
			i += v.back().size();
		}
		if (v.empty()) v.push_back("");
		return v;
	}

	inline Rr other(Rng& r, const S& owner)
	{
		Rr x;
		x.name = owner;
		switch (r.below(4))
		{
			case 0: x.type = 5; x.target = gen::domain(r); break;		// CNAME
			case 1: x.type = 1; x.rdata = r.bytes(4); break;
			case 2: x.type = 46; x.rdata = r.bytes(r.below(300)); break;	// RRSIG
			default: x.type = 99; x.rdata = r.bytes(r.below(40)); break;
		}
		if (r.chance(1, 10)) x.cls = (int)r.range(2, 255);
		return x;
	}

	inline Reply reply(Rng& r, const S& qname, const S& text, bool extras = true)
	{
		Reply p;
		p.qname = qname;
		S owner = qname;
		if (extras && r.chance(1, 3))
		{
			Rr c;
			c.name = qname;
			c.type = 5;
			c.target = r.chance(1, 2) ? "x." + qname : gen::domain(r);
			owner = c.target;
			p.answer.push_back(c);
		}
		Rr t;
		t.name = owner;
		t.txt = cut(r, text);
		p.answer.push_back(t);
		if (extras && r.chance(1, 4)) p.answer.push_back(other(r, owner));
		if (extras && r.chance(1, 4)) p.answer.insert(p.answer.begin() + (long)r.below(p.answer.size() + 1), other(r, qname));
		if (extras && r.chance(1, 4)) { Rr a; a.name = gen::domain(r); a.type = r.chance(1, 2) ? 16 : 2; if (a.type == 16) a.txt = { "not part of the answer" }; else a.target = gen::domain(r); p.authority.push_back(a); }
		if (extras && r.chance(1, 4)) { Rr a; a.name = ""; a.type = r.chance(1, 2) ? 16 : 41; if (a.type == 16) a.txt = { "additional" }; p.additional.push_back(a); }
		return p;
	}
}
