// Inputs of one shape in any size.
#pragma once
#include "hostile.hpp"
#include <functional>

namespace shapes
{
	typedef std::string S;
	typedef mon::Rng Rng;
	using mon::quote;

	inline S rep(const S& u, size_t n) { S o; o.reserve(u.size() * n); while (n--) o += u; return o; }

	struct Shape { S name; std::function<entry::Input(size_t)> make; };

	inline entry::Input make(int which, S a, S b = S(), unsigned opt = 0)
	{
		entry::Input in;
		in.which = which;
		in.a = std::move(a);
		in.b = std::move(b);
		in.opt = opt;
		return in;
	}

	inline const ref::Key& key() { return ref::edKey(0); }
	inline S cat(const gen::Message& m) { S o; for (auto& f : m.fields) o += f + "\r\n"; return o + "\r\n" + m.body; }

	// a signed message; fields, h= and body of the given size
	inline entry::Input signedMsg(Rng& r, size_t fields, size_t listed, bool same, S value, S body, bool missing, unsigned opt)
	{
		gen::Message m;
		m.fields = { "From: a@b.example" };
		for (size_t i = 0; i < fields; ++i) m.fields.push_back((same ? S("X") : "X" + std::to_string(i)) + ": " + value);
		m.blank = true;
		m.body = body;
		gen::SignSpec s;
		s.key = &key();
		s.sha256 = true;
		s.d = "example.org";
		s.s = "s";
		s.plain = true;
		s.h = { "from" };
		for (size_t i = 0; i < listed; ++i) s.h.push_back(missing ? "Y" + std::to_string(i) : same ? S("X") : "X" + std::to_string(i));
		s.relH = s.relB = !(opt & 256);
		gen::signInto(r, m, 0, s);
		return make(entry::VERIFY, cat(m), "k=ed25519; p=" + key().pub64);
	}

	inline S brokenSignature(const S& tag, const S& v)
	{
		return "DKIM-Signature: v=1; a=ed25519-sha256; d=example.org; s=s; h=from; bh=AAAA; b=AAAA; " + tag + "=" + v + "\r\nFrom: a@b.c\r\n\r\nx\r\n";
	}

	// Families built to size.
	inline Shape family(Rng& r)
	{
		using namespace entry;
		static const S runs[] = { " ", "\t", "\r\n ", " \r\n\t", "\r\n", "\n", "\r", "a", "a ", "a\r\n ", "=", ":", " :", ";", "a=b;", "=?utf-8?Q?a?= ", "=?utf-8?B?YQ==?=", "(", ")", "\\", "\"",
			"\\\"", "(a)", "<", ">", "@", "a@b,", ",", "_", "=20", "=\r\n", "=?", "?=", "\"a\" ", "a:b ", "x\r\n", "x:\r\n", " \r\n \r\n", "()", "(\\", "\r\n\r\n ", "AAAA", "A A", "0", ".", "a.", "\xff",
			"group:", "a@b;", "<a@b>,", "a b ", "\t \t" };
		S u = r.chance(1, 3) ? S(r.pick({ " ", "\t", "a", "\r\n ", " a", "a:", ": ", "()" })) : runs[r.below(sizeof runs / sizeof *runs)], v = r.chance(1, 2) ? S() : runs[r.below(sizeof runs / sizeof *runs)];
		S tail = r.pick({ "", "\r\n", "\r\nx", "x", ";", ":", "\"", ")", "=", "\r", "\r\n ", " a@b.c", ">", "?=" });
		S head = r.pick({ "", "a", "a=", "p=", "k=rsa; p=", "h=", "t=", "s=", "\"", "(", "<", "=?utf-8?Q?", "=?utf-8?B?", "From: ", "X:", "a: b", "v=1;b=" });
		// behind a fold
		if (r.chance(1, 4)) head += r.pick({ "\r\n", "\r\n ", " \r\n", "\n" });
		unsigned opt = (unsigned)r.below(512);
		auto grow = [=](size_t n) { size_t k = n / (u.size() + v.size()) + 1; return head + rep(u, k) + (v.empty() ? S() : "x" + rep(v, k)) + tail; };
		S nm = quote(head) + " " + quote(u) + "^n " + (v.empty() ? S() : quote(v) + "^n ") + quote(tail);
		switch (r.below(16))
		{
			case 0: return { "many fields listed " + nm, [=](size_t n) { Rng q(7); return signedMsg(q, n / 20, n / 20, opt & 1, "v", "x\r\n", false, opt); } };
			case 1: return { "many fields, many missing names", [=](size_t n) { Rng q(7); return signedMsg(q, n / 20, n / 20, opt & 1, "v", "x\r\n", true, opt); } };
			case 2: return { "huge field " + nm, [=](size_t n) { Rng q(7); S x = grow(n); for (char& c : x) if (c == '\r' || c == '\n') c = ' '; return signedMsg(q, 1, 1, true, x, "x\r\n", false, opt); } };
			case 3: return { "huge body " + nm, [=](size_t n) { Rng q(7); return signedMsg(q, 1, 1, true, "v", grow(n), false, opt); } };
			case 4: { S t = r.pick({ "h", "d", "s", "i", "l", "q", "t", "x", "z", "c", "a", "b", "bh", "v", "zz", "" }); return { "tag " + t + " " + nm, [=](size_t n) { return make(VERIFY, brokenSignature(t, grow(n)), "p="); } }; }
			case 5: return { "many tags", [=](size_t n) { S o; for (size_t i = 0; i < n / 6; ++i) o += "a" + std::to_string(i) + "=" + (opt & 1 ? u : S("b")) + ";"; return make(opt & 2 ? TAGS : RECORD, o + "p=", "zz"); } };
			case 6: return { "record " + nm, [=](size_t n) { return make(RECORD, grow(n)); } };
			case 7: return { "header " + nm, [=](size_t n) { return make(MESSAGE, grow(n)); } };
			case 8: return { "sign " + nm, [=](size_t n) { return make(SIGN, "From: a@b.c\r\n" + grow(n), "", opt & ~0xf0u); } };
			case 9: return { "address list " + nm, [=](size_t n) { return make(ADDRESSES, grow(n)); } };
			case 10: return { "encoded words " + nm, [=](size_t n) { return make(WORDS, grow(n)); } };
			case 11: return { "canonical header " + nm, [=](size_t n) { return make(CANON_HEADER, "a:" + grow(n), "", opt | 1); } };
			case 12: return { "canonical body " + nm, [=](size_t n) { return make(CANON_BODY, grow(n), "", opt & ~2u); } };
			case 13: return { "value list " + nm, [=](size_t n) { return make(VALUES, grow(n)); } };
			case 14: return { "codec " + nm, [=](size_t n) { return make(opt & 1 ? QP : opt & 2 ? BASE64 : ENCODE, grow(n), "", opt >> 2); } };
			default: return { "sign, many fields", [=](size_t n) {
				S o = "From: a@b.c\r\n";
				for (size_t i = 0; i < n / 10; ++i) o += ((opt & 16) ? S("Subject") : "X" + std::to_string(i)) + ": v\r\n";
				return make(SIGN, o + "\r\nx", "X1", opt & ~0x90u); } };
		}
	}

	// A part of a hostile input, repeated.
	inline Shape pump(Rng& r)
	{
		entry::Input in;
		do in = hostile::any(r); while (in.which == entry::PACKET || in.which == entry::VERIFY_DNS);
		bool inB = !in.b.empty() && r.chance(1, 3) && in.which != entry::CANON_BODY && in.which != entry::SIGN;
		S& t = inB ? in.b : in.a;
		size_t p = r.below(t.size() + 1), l = r.below(r.chance(1, 3) ? 60 : 6);
		S u = t.substr(p, l);
		if (u.empty() || r.chance(1, 3)) { u = hostile::splice(r).substr(0, 40); if (r.chance(1, 2)) u += hostile::splice(r).substr(0, 40); }
		if (u.empty()) u = " ";
		size_t p2 = t.size();
		S u2;
		if (r.chance(1, 3)) { p2 = p + r.below(t.size() - p + 1); u2 = hostile::splice(r).substr(0, 40); }
		return { S(entry::name(in.which)) + " with " + quote(u, 100) + "^n at " + std::to_string(p) + (u2.empty() ? S() : " and " + quote(u2, 100) + "^n at " + std::to_string(p2)) + " of " + (inB ? "b " : "a ") + quote(t, 1500),
			[=](size_t n) {
				entry::Input o = in;
				S& x = inB ? o.b : o.a;
				size_t k = n / (u.size() + u2.size());
				k += 4 - k % 4;
				x = x.substr(0, p) + rep(u, k) + x.substr(p, p2 - p) + rep(u2, k) + x.substr(p2);
				return o;
			} };
	}
}
