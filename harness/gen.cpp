#include "gen.hpp"
#include <algorithm>

namespace gen
{
	static const S ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";

	S toLf(const S& in)
	{
		S r;
		for (size_t i = 0; i < in.size(); ++i)
		{
			if (in[i] == '\r' && i + 1 < in.size() && in[i + 1] == '\n') continue;
			r += in[i];
		}
		return r;
	}

	S eol(Rng* r, int mode, const S& in)
	{
		if (mode == 0) return in;
		if (mode == 1) return toLf(in);
		S o;
		for (size_t i = 0; i < in.size(); ++i)
		{
			if (in[i] == '\r' && i + 1 < in.size() && in[i + 1] == '\n' && r->chance(1, 2)) continue;
			o += in[i];
		}
		return o;
	}

	S Message::text(Rng* mix, int mode) const
	{
		S h;
		for (size_t i = 0; i < fields.size(); ++i)
		{
			h += fields[i];
			if (i + 1 < fields.size() || blank || lastEol) h += "\r\n";
		}
		if (blank) h += "\r\n" + body;
		return eol(mix, mode, h);
	}

	S fws(Rng& r, bool fold)
	{
		S a;
		size_t n = r.below(10) < 6 ? 1 : 1 + r.below(4);
		for (size_t i = 0; i < n; ++i) a += r.chance(3, 4) ? ' ' : '\t';
		if (!fold || r.chance(2, 3)) return a;
		S b;
		if (r.chance(1, 2)) b = r.chance(1, 2) ? " " : "\t ";
		return b + "\r\n" + a;
	}

	S ows(Rng& r, bool fold) { return r.chance(1, 2) ? S() : fws(r, fold); }

	S word(Rng& r, size_t max)
	{
		size_t n = 1 + r.below(max);
		S s;
		bool plain = r.chance(3, 4);
		for (size_t i = 0; i < n; ++i)
			s += plain ? ALNUM[r.below(ALNUM.size())] : (char)r.range(0x21, 0x7e);
		return s;
	}

	size_t sizeUpTo(Rng& r, size_t max)
	{
		size_t k = 1;
		while (((size_t)2 << k) <= max) ++k;
		size_t b = (size_t)1 << r.range(1, (long)k), n;
		if (r.chance(1, 2)) n = b + r.below(5) - 2;	// b is at least 2
		else n = b + r.below(b);
		return std::min(n, max);
	}

	S longText(Rng& r, size_t n)
	{
		static const S set = ALNUM + "+/.-_";
		S s(n, 'a');
		S p = r.from(set, 61);
		for (size_t i = 0; i < n; ++i) s[i] = p[i % p.size()];
		return s;
	}

	S caseMix(Rng& r, const S& s)
	{
		S o = s;
		int k = (int)r.below(4);
		for (char& c : o)
		{
			bool up = k == 0 ? true : k == 1 ? false : r.chance(1, 2);
			if (k == 3) break;
			if (up && c >= 'a' && c <= 'z') c = (char)(c - 32);
			if (!up && c >= 'A' && c <= 'Z') c = (char)(c + 32);
		}
		return o;
	}

	S fieldName(Rng& r)
	{
		if (r.chance(1, 8))
			return caseMix(r, r.pick({"Content-Transfer-Encoding", "Content-ID", "Content-Description", "Resent-Date", "Resent-Sender", "Resent-To", "Resent-Cc",
				"Resent-Message-ID", "In-Reply-To", "List-Help", "List-Unsubscribe", "List-Unsubscribe-Post", "List-Subscribe", "List-Post", "List-Owner", "List-Archive",
				"CFBL-Address", "CFBL-Feedback-ID", "Bcc", "Keywords", "Content-Disposition", "List-Software", "Resent-Reply-To", "List"}));
		if (r.chance(2, 3))
			return r.pick({"To", "Subject", "Date", "Message-ID", "Cc", "Reply-To", "Received", "MIME-Version",
				"Content-Type", "List-Id", "References", "Sender", "X-Mailer", "DKIM-Signature", "Received-SPF",
				"Resent-From", "From", "Return-Path", "ARC-Seal", "Comments", "Authentication-Results"});
		S s;
		size_t n = 1 + r.below(r.chance(1, 20) ? 90 : 12);
		for (size_t i = 0; i < n; ++i)
		{
			char c = r.chance(5, 6) ? ALNUM[r.below(ALNUM.size())] : (char)r.range(0x21, 0x7e);
			if (c == ':' || c == ';') c = '-';
			s += c;
		}
		return s;
	}

	S oddName(Rng& r, const S& name)
	{
		S o = r.chance(2, 3) ? S(1, '\0') : S(1, (char)(r.chance(1, 2) ? r.range(0x80, 0xff) : r.range(1, 8)));
		if (r.chance(1, 2)) o += r.pick({"a", "x-", "From", "junk"});
		if (r.chance(2, 3)) return name + o;
		if (r.chance(1, 2)) return o + name;
		return S(name).insert(r.below(name.size() + 1), o);
	}

	S fieldValue(Rng& r, bool eight, bool fold)
	{
		S s;
		size_t n = r.below(r.chance(1, 10) ? 30 : 6);
		for (size_t i = 0; i < n; ++i)
		{
			if (i || r.chance(1, 2)) s += fws(r, fold);
			if (r.chance(1, 6)) s += r.pick({":", "; b=x", "=", "a:b", "<a@b.c>", "\"q\"", "(c)", ";"});
			else if (eight && r.chance(1, 8)) { size_t k = 1 + r.below(5); for (size_t j = 0; j < k; ++j) s += (char)r.range(0x80, 0xff); }
			else if (eight && r.chance(1, 25)) s += (char)r.range(1, 8);
			else if (eight && r.chance(1, 30)) s += r.chance(1, 2) ? S(1, '\0') + (r.chance(1, 2) ? word(r) : S()) : S(1, (char)r.range(14, 31));
			else s += word(r);
		}
		if (r.chance(1, 4)) s += fws(r, fold && n > 0);
		return s;
	}

	S field(Rng& r, const S& name, bool odd)
	{
		S s = name;
		if (odd && r.chance(1, 12)) s += r.pick({" ", "\t", "  "});
		s += ":";
		s += r.chance(9, 10) ? " " : "";
		S v = fieldValue(r, odd);
		// keep the value from starting with a bare fold only when the name is followed by one space
		s += v;
		return s;
	}

	static S anyBody(Rng& r, bool big)
	{
		S s;
		size_t lines;
		int shape = big ? (r.chance(2, 3) ? 5 : 7) : (int)r.below(9);
		switch (shape)
		{
			case 0: return r.pick({"", "\r\n", "\r\n\r\n", " ", "\t\r\n", " \r\n \r\n", "x", "\n", "\r", "\r\r\n", "\r\n.\r\n"});
			case 1:
				lines = r.below(8);
				for (size_t i = 0; i < lines; ++i) s += r.chance(2, 3) ? "\r\n" : " \r\n";
				return s;
			case 2:
			{
				size_t n = r.below(60);
				for (size_t i = 0; i < n; ++i) s += r.pick({" ", "\t", "\r\n", "a", "b", "\r\n", " ", "\n"});
				return s;
			}
			case 3:
			case 4:
				lines = r.below(12);
				for (size_t i = 0; i < lines; ++i)
				{
					// what means something to a mailbox or a transport is text here
					if (r.chance(1, 12)) s += r.pick({ ".", "..", ".x", "From x", ">From x", ">F", "--", "-----BEGIN", "\x1a", "\xef\xbb\xbf", "=3D=", "begin 644 x", "Subject: x" });
					size_t w = r.below(8);
					for (size_t j = 0; j < w; ++j) s += (j ? fws(r, false) : S()) + word(r);
					if (r.chance(1, 4)) s += fws(r, false);
					s += "\r\n";
				}
				if (r.chance(1, 3)) s += word(r);
				if (r.chance(1, 3)) s += "\r\n\r\n";
				return s;
			case 5:
			{
				// small alphabet, long enough to pass the read buffer several times
				size_t n = big ? 16000 + r.below(50000) : 200 + r.below(2000);
				int k = (int)r.below(4);
				while (s.size() < n)
				{
					if (r.chance(1, 60))
					{
						size_t m = k == 0 ? r.below(9000) : r.below(100);
						S u = r.pick({"\r\n", " ", "\t", "a", "\n", " \r\n", "\r"});
						for (size_t i = 0; i < m; ++i) s += u;
					}
					else s += r.pick({" ", "\t", "\r\n", "a", "bc", "\n", "  ", "line of text"});
				}
				return s;
			}
			case 6: return r.bytes(r.below(300));
			case 7:
			{
				// something interesting placed exactly around the multiples of the chunk size
				size_t chunks = big ? 1 + r.below(3) : 1;
				for (size_t c = 0; c < chunks; ++c)
				{
					size_t target = 8096 * (c + 1) - r.below(12);
					S fill = r.pick({"a", "b ", "line\r\n", "\r\n", " "});
					while (s.size() < target) s += fill.size() <= target - s.size() ? fill : S("x");
					s += r.from("\r\n \ta", 14);
				}
				s += r.pick({"", "z", "\r\n", " \r\n\r\n"});
				return s;
			}
			default:
				lines = r.below(6);
				for (size_t i = 0; i < lines; ++i) s += word(r) + (r.chance(1, 2) ? "\r\n" : "\n");
				s += r.pick({"", " ", "\r\n \r\n\t\r\n", "\r\n\r\n\r\n", "end", " end ", "\r"});
				return s;
		}
	}

	S body(Rng& r, bool big)
	{
		S s = anyBody(r, big);
		// ends that mean something elsewhere
		if (r.chance(1, 40))
			s += S(r.pick({"", "\r\n", "\n", "\r\n\r\n"})) + (r.chance(1, 12) ? S(1, '\0') : S(r.pick({".", "..", "\x1a", "=", "\\", "-- ", "\xff", "\x0b", "\f", "\xa0", "--b--", ")", "NNNN"})))
				+ r.pick({"", "\r\n", "\n", " ", " \r\n", "\r\n\r\n"});
		return s;
	}

	S label(Rng& r)
	{
		S s;
		size_t n = 1 + r.below(r.chance(1, 20) ? 60 : 8);
		for (size_t i = 0; i < n; ++i) s += ALNUM[r.below(ALNUM.size())];
		if (n > 2 && r.chance(1, 4)) s[1 + r.below(n - 2)] = '-';
		return s;
	}

	S domain(Rng& r)
	{
		S s = label(r);
		size_t n = r.below(4);
		if (r.chance(1, 200))	// as long as a name can be
		{
			size_t max = sizeUpTo(r, 240);
			bool small = r.chance(1, 2);
			for (;;)
			{
				S l = small ? r.from("abcxyz0189", 1) : label(r);
				if (s.size() + 1 + l.size() > max) return s;
				s += "." + l;
			}
		}
		for (size_t i = 0; i < n; ++i) s += "." + label(r);
		return s;
	}

	Message message(Rng& r, bool from, bool big)
	{
		Message m;
		size_t n = r.below(r.chance(1, 15) ? 40 : 8);
		for (size_t i = 0; i < n; ++i)
		{
			S name = fieldName(r);
			if (i && r.chance(1, 4))	// a repeated name
			{
				const S& o = m.fields[r.below(m.fields.size())];
				ref::Msg t = ref::parse(o + "\r\n");
				if (t.f.size() == 1 && !t.f[0].name.empty()) name = t.f[0].name;
			}
			name = caseMix(r, name);
			if (r.chance(1, 80)) name += r.pick({ " x", "\tx", " From", "  y" });
			if (r.chance(1, 40)) name = oddName(r, name);
			m.fields.push_back(field(r, name));
		}
		if (r.chance(1, 25) && n)
			m.fields.insert(m.fields.begin() + (long)r.below(n + 1), r.pick({"no colon here", ": no name", ":", "From someone Mon Jan 1"}));
		if (from)
		{
			size_t k = r.chance(1, 6) ? 2 : 1;
			while (k--) m.fields.insert(m.fields.begin() + (long)r.below(m.fields.size() + 1), field(r, caseMix(r, "From")));
		}
		if (m.fields.empty() && !from && r.chance(1, 2)) m.fields.push_back(field(r, "To"));
		if (r.chance(1, 120))	// much of something
		{
			size_t at = r.below(m.fields.size() + 1);
			switch (r.below(3))
			{
				case 0:
					for (size_t k = sizeUpTo(r, 600); k; --k)
						m.fields.insert(m.fields.begin() + (long)at, r.pick({"Received", "X-A", "x-b", "To", "received"}) + S(": ") + std::to_string(k));
					break;
				case 1:
				{
					S f = r.pick({"Subject: ", "X-Long: ", "From: ", "To:"});
					S w = longText(r, sizeUpTo(r, 70000));
					if (r.chance(1, 2)) for (size_t k = 70; k < w.size(); k += 75) w.insert(k, "\r\n ");
					m.fields.insert(m.fields.begin() + (long)at, f + w);
					break;
				}
				default:
					m.fields.insert(m.fields.begin() + (long)at, "X-" + S(sizeUpTo(r, 3000), r.chance(1, 2) ? 'n' : 'N') + ": long name");
			}
		}
		if (r.chance(1, 150))	// a first line that looks like something else
			m.fields.insert(m.fields.begin(), r.pick({"\xef\xbb\xbf", "\xef\xbb\xbf", "From-", ">", ".", "\xff\xfe", "--", "#", "HTTP/1.1-"}) + field(r, r.pick({"Received", "X-First", "Subject"})));
		if (r.chance(1, 12)) { m.blank = false; m.lastEol = r.chance(1, 2); }
		else m.body = body(r, big);
		return m;
	}

	S refold(Rng& r, const S& raw, bool nameCase)
	{
		ref::Msg t = ref::parse(raw + "\r\n");
		S o;
		size_t colon = raw.find(':');
		S name = raw.substr(0, colon), v = raw.substr(colon + 1);
		while (!name.empty() && ref::wsp(name.back())) name.pop_back();
		o = (nameCase ? caseMix(r, name) : name);
		if (r.chance(1, 6)) o += " ";
		o += ":";
		size_t i = 0;
		while (i < v.size() && ref::lwsp(v[i])) ++i;
		size_t e = v.size();
		while (e > i && ref::lwsp(v[e - 1])) --e;
		o += ows(r, i < e);
		while (i < e)
		{
			if (ref::lwsp(v[i]))
			{
				while (i < e && ref::lwsp(v[i])) ++i;
				o += fws(r);
			}
			else o += v[i++];
		}
		if (r.chance(1, 3)) o += r.pick({" ", "\t", "   "});
		return o;
	}

	const ref::Key& anyKey(Rng& r, bool rsa)
	{
		if (!rsa) return ref::edKey((unsigned)r.below(8));
		if (r.chance(1, 250)) return ref::rsaKey("huge");
		if (r.chance(1, 12)) return *r.pick(ref::oddRsaKeys());
		// the small ones most of the time
		return r.chance(3, 4) ? *ref::rsaKeys()[r.below(2)] : *r.pick(ref::rsaKeys());
	}

	S Cfg::str() const
	{
		S s = "cfg{";
		for (auto& x : sigs) s += "[" + x.key->label + " form" + std::to_string(x.form) + " d=" + x.domain + " s=" + x.selector + "]";
		s += S(sha256 ? " sha256" : " sha1") + (relH ? " relaxed/" : " simple/") + (relB ? "relaxed" : "simple");
		s += " hmode=" + std::to_string(hmode) + " headers=";
		for (auto& h : headers) s += mon::quote(h) + ",";
		for (auto& h : add) s += "+" + mon::quote(h) + ",";
		for (auto& h : del) s += "-" + mon::quote(h) + ",";
		s += " oversign=";
		for (auto& h : oversign) s += mon::quote(h) + ",";
		if (hasL) s += " l=" + std::to_string(l);
		if (hasT) s += " t=" + std::to_string(t);
		if (hasX) s += S(" x") + (xabs ? "=" : "+") + std::to_string(x);
		if (!identity.empty()) s += " i=" + mon::quote(identity);
		if (arc) s += " arc=" + std::to_string(arc);
		return s + "}";
	}

	static std::vector<S> namesOf(const Message& m)
	{
		std::vector<S> v;
		for (auto& f : ref::parse(m.text()).f)
			if (!f.name.empty() && std::none_of(f.name.begin(), f.name.end(), [](char c) { return c < 0x21 || c > 0x7e; })) v.push_back(f.name);
		return v;
	}

	Cfg config(Rng& r, const Message& m, bool many)
	{
		Cfg c;
		size_t n = many && r.chance(1, 3) ? 2 + r.below(3) : 1;
		bool crowd = n > 1 && r.chance(1, 40);
		if (crowd) n = 5 + r.below(30);
		bool anyEd = false;
		for (size_t i = 0; i < n; ++i)
		{
			SigCfg s;
			bool rsa = r.chance(1, crowd ? 8 : 2);
			if (!rsa) anyEd = true;
			s.key = &anyKey(r, rsa);
			s.form = (int)r.below(rsa ? 5 : 4);
			s.domain = domain(r);
			s.selector = domain(r);
			c.sigs.push_back(s);
		}
		c.sha256 = anyEd || r.chance(2, 3);
		for (auto& s : c.sigs)	// a 512 bit key cannot hold a... it can: keep, but never the only kind
			if (s.key->bits == 512 && r.chance(1, 2)) s.key = &ref::rsaKey("a");
		c.relH = r.chance(1, 2);
		c.relB = r.chance(1, 2);
		std::vector<S> names = namesOf(m);
		c.hmode = (int)r.below(4);
		if (c.hmode == 1)
		{
			c.headers.push_back(caseMix(r, "from"));
			size_t k = r.below(5);
			for (size_t i = 0; i < k; ++i)
				c.headers.push_back(caseMix(r, !names.empty() && r.chance(3, 4) ? r.pick(names) : fieldName(r)));
			if (r.chance(1, 40))
				for (size_t j = sizeUpTo(r, 600); j; --j) c.headers.push_back("x-many-" + std::to_string(r.below(2000)));
			r.shuffle(c.headers);
		}
		if (c.hmode == 3)
		{
			size_t k = r.below(4);
			for (size_t i = 0; i < k; ++i) c.add.push_back(caseMix(r, !names.empty() && r.chance(1, 2) ? r.pick(names) : fieldName(r)));
			k = r.below(4);
			for (size_t i = 0; i < k; ++i)
			{
				S d = r.chance(1, 2) && !names.empty() ? r.pick(names) : S(r.pick({"subject", "to", "Date", "cc", "x-none"}));
				if (!ref::iequal(d, "from")) c.del.push_back(caseMix(r, d));
			}
		}
		if (r.chance(1, 2))
		{
			size_t k = 1 + r.below(4);
			for (size_t i = 0; i < k; ++i)
			{
				S o = r.chance(1, 3) ? S("From") : !names.empty() && r.chance(1, 2) ? r.pick(names) : fieldName(r);
				// Oversigning the signature fields' own name contradicts adding several of them.
				if (n > 1 && (ref::iequal(o, "dkim-signature") || ref::iequal(o, "arc-message-signature"))) continue;
				c.oversign.push_back(caseMix(r, o));
				if (r.chance(1, 150))
					for (size_t j = sizeUpTo(r, 600); j; --j) c.oversign.push_back(r.chance(1, 2) ? S("x-over") : "x-over-" + std::to_string(r.below(2000)));
			}
		}
		if (r.chance(1, 8)) c.arc = (unsigned long)r.range(1, 50);
		if (c.arc && n > 1)
			for (auto it = c.oversign.begin(); it != c.oversign.end();)
				it = ref::iequal(*it, "arc-message-signature") ? c.oversign.erase(it) : it + 1;
		if (r.chance(1, 4))
		{
			S text = m.text();
			size_t len = ref::canonBody(ref::bodyOf(text, ref::parse(text)), c.relB).size();
			c.hasL = true;
			c.l = r.chance(1, 4) ? len : r.chance(1, 4) ? 0 : (unsigned long)r.below(len + 1);
		}
		if (r.chance(1, 2)) { c.hasT = true; c.t = r.chance(1, 3) ? -1 : r.chance(1, 12) ? (long)r.below(3) : r.chance(1, 2) ? 1700000000 + (long)r.below(100000000) : (long)r.below(5000000000ul); }
		if (r.chance(1, 3))
		{
			c.hasX = true;
			c.xabs = r.chance(1, 2);
			if (c.xabs) c.x = r.chance(1, 2) ? 4102444800l + (long)r.below(1000000000) : 253402300799l + (long)r.below(1000000);
			else
			{
				c.x = 3600 + (long)r.below(100000000);
				if (c.hasT && c.t != -1) c.t = 4102444800l + (long)r.below(1000000);	// keep t + x in the future
			}
		}
		if (r.chance(1, 3) && n == 1)
		{
			S lp;
			size_t k = r.below(10);
			for (size_t i = 0; i < k; ++i)
			{
				char ch = r.chance(2, 3) ? ALNUM[r.below(ALNUM.size())] : (char)r.next();
				if (ch == '@' || ch == '"') ch = '_';
				lp += ch;
			}
			if (r.chance(1, 5)) lp = quotedLocal(r);
			if (r.chance(1, 60)) lp = longText(r, sizeUpTo(r, 3000));
			S sub;
			if (r.chance(1, 2)) sub = label(r) + ".";
			c.identity = lp + "@" + caseMix(r, sub + c.sigs[0].domain);
		}
		return c;
	}

	// ------------------------------------------------------------------ independent signer
	S foldB64(Rng& r, const S& b, bool plain)
	{
		if (plain || r.chance(1, 4)) return b;
		S o;
		int k = (int)r.below(3);
		for (size_t i = 0; i < b.size(); ++i)
		{
			if (i && (k == 0 ? i % 60 == 0 : k == 1 ? r.chance(1, 20) : r.chance(1, 4))) o += k == 0 ? S("\r\n\t") : fws(r);
			o += b[i];
		}
		return o;
	}

	SignSpec signSpec(Rng& r, const Message& m)
	{
		SignSpec s;
		bool rsa = r.chance(1, 2);
		s.key = &anyKey(r, rsa);
		s.sha256 = !rsa || r.chance(2, 3);
		s.relH = r.chance(1, 2);
		s.relB = r.chance(1, 2);
		s.d = domain(r);
		s.s = domain(r);
		std::vector<S> names = namesOf(m);
		s.h.push_back("from");
		size_t k = r.below(8);
		for (size_t i = 0; i < k; ++i)
			s.h.push_back(!names.empty() && r.chance(4, 5) ? r.pick(names) : fieldName(r));
		if (r.chance(1, 3)) s.h.push_back("From");
		if (r.chance(1, 6)) s.h.push_back("DKIM-Signature");
		if (r.chance(1, 100))
			for (size_t j = sizeUpTo(r, 2500); j; --j)
				s.h.push_back(!names.empty() && r.chance(1, 8) ? r.pick(names) : r.chance(1, 2) ? S("x-none") : "x-" + std::to_string(j));
		// an entry that only begins, or ends, with the name of a field denotes no field
		if (r.chance(1, 20)) s.h.push_back((names.empty() || r.chance(1, 3) ? S("Subject") : r.pick(names)) + r.pick({ " x", "\tx", " From", "  y" }));
		if (r.chance(1, 60)) s.h.push_back(r.pick({ "x ", "From " }) + S("Subject"));
		r.shuffle(s.h);
		for (auto& n : s.h)
		{
			n = caseMix(r, n);
			for (char& c : n) if (c == ';' || c == ':') c = '-';
		}
		if (std::none_of(s.h.begin(), s.h.end(), [](const S& x) { return ref::iequal(x, "from"); })) s.h.push_back("from");
		if (r.chance(1, 4))
		{
			S text = m.text();
			size_t len = ref::canonBody(ref::bodyOf(text, ref::parse(text)), s.relB).size();
			s.hasL = true;
			s.l = (unsigned long)r.below(len + 1);
			if (r.chance(1, 3)) s.l = len;
		}
		if (r.chance(1, 8)) s.arc = (unsigned)r.range(1, 50);
		if (!s.arc && r.chance(1, 3))
		{
			s.hasI = true;
			s.i = word(r);
			for (char& c : s.i) if (c == '@' || c == '"') c = '_';
			if (r.chance(1, 5)) s.i = quotedLocal(r);
			else if (r.chance(1, 4)) s.i += (char)r.range(0x80, 0xff);
			if (r.chance(1, 60)) s.i = longText(r, sizeUpTo(r, 3000));
			if (r.chance(1, 4)) s.i.clear();
			s.i += "@" + caseMix(r, (r.chance(1, 2) ? label(r) + "." : S()) + s.d);
		}
		if (r.chance(1, 3)) s.t = 1600000000 + (long)r.below(100000000);
		if (r.chance(1, 3)) s.x = std::to_string(4102444800l + (long)r.below(1000000000));
		if (r.chance(1, 3)) s.q = r.pick({"dns/txt", "dns/txt:other", "http/foo : dns/txt", "x-a:x-b:dns/txt"});
		if (r.chance(1, 60))
			s.extra.push_back({r.pick({"zzz", "note", "Long"}) + (r.chance(1, 6) ? S(sizeUpTo(r, 3000), 'n') : S()), longText(r, sizeUpTo(r, 80000))});
		if (r.chance(1, 80)) unknownTags(r, s.extra, sizeUpTo(r, 600));
		if (r.chance(1, 4)) s.extra.push_back({"z", "From:foo=20bar|To:x"});
		if (r.chance(1, 4)) s.extra.push_back({r.pick({"r", "zz", "X", "b_2", "B", "BH", "D", "T_x1"}), r.pick({"", "y", "a b", "x=y:z", "b=zzz"})});
		return s;
	}

	std::vector<std::pair<S, S>> tagsOf(Rng& r, const Message& m, const SignSpec& s)
	{
		std::vector<std::pair<S, S>> t;
		if (!s.arc) t.push_back({"v", "1"});
		t.push_back({"a", S(s.key->kind == ref::RSA_KEY ? "rsa" : "ed25519") + (s.sha256 ? "-sha256" : "-sha1")});
		if (!s.c.empty()) t.push_back({"c", s.c});
		else if (s.relB) t.push_back({"c", S(s.relH ? "relaxed" : "simple") + "/relaxed"});
		else if (s.relH) t.push_back({"c", r.chance(1, 2) ? "relaxed" : "relaxed/simple"});
		else if (r.chance(1, 2)) t.push_back({"c", r.chance(1, 2) ? "simple" : "simple/simple"});
		t.push_back({"d", s.plain ? s.d : caseMix(r, s.d)});
		t.push_back({"s", s.s});
		S h;
		for (size_t i = 0; i < s.h.size(); ++i)
		{
			if (i) h += s.plain ? S(":") : (r.chance(1, 4) ? fws(r) : S()) + ":" + (r.chance(1, 4) ? fws(r) : S());
			h += s.h[i];
		}
		t.push_back({"h", h});
		S text = m.text();
		S cb = ref::canonBody(ref::bodyOf(text, ref::parse(text)), s.relB);
		if (s.hasL)
		{
			if (s.l < cb.size()) cb.resize(s.l);
			t.push_back({"l", r.chance(1, 10) ? zeros(r, std::to_string(s.l), 76) : std::to_string(s.l)});
		}
		t.push_back({"bh", foldB64(r, ref::b64(ref::sha(s.sha256, cb)), s.plain)});
		if (s.arc) t.push_back({"i", r.chance(1, 10) ? zeros(r, std::to_string(s.arc), 2) : std::to_string(s.arc)});
		else if (s.hasI)
		{
			// any legal dkim-quoted-printable text for it
			S e;
			for (char c : s.i)
			{
				S one(1, c);
				S q = ref::qpEnc(one);
				if (q.size() == 1 && r.chance(1, 10)) { char b[4]; snprintf(b, sizeof b, "=%02X", (unsigned char)c); q = b; }
				if (!e.empty() && r.chance(1, 25)) e += fws(r);
				e += q;
			}
			t.push_back({"i", e});
		}
		if (s.t >= 0) t.push_back({"t", std::to_string(s.t)});
		if (!s.x.empty()) t.push_back({"x", r.chance(1, 10) ? zeros(r, s.x, 12) : s.x});
		if (!s.q.empty()) t.push_back({"q", s.q});
		for (auto& e : s.extra) t.push_back(e);
		t.push_back({"b", ""});
		return t;
	}

	S signTags(Rng& r, Message& m, size_t pos, const SignSpec& s, std::vector<std::pair<S, S>> tags, bool shuffle)
	{
		if (shuffle) r.shuffle(tags);
		bool p = s.plain;
		S pre = s.arc ? "ARC-Message-Signature" : "DKIM-Signature";
		if (!p) pre = caseMix(r, pre);
		if (!p && r.chance(1, 8)) pre += " ";
		pre += ":";
		pre += p ? S(" ") : ows(r);
		S post, wsB1, wsB2;
		bool seen = false;
		for (size_t i = 0; i < tags.size(); ++i)
		{
			S& o = seen ? post : pre;
			bool last = i + 1 == tags.size();
			if (i) o += p ? S(i % 4 ? " " : "\r\n\t") : ows(r);
			o += tags[i].first;
			if (!p && r.chance(1, 6)) o += fws(r);
			o += "=";
			if (tags[i].first == "b" && !seen)
			{
				seen = true;
				if (!p) { wsB1 = ows(r); wsB2 = r.chance(2, 3) ? S() : fws(r, !last); }
			}
			else
			{
				if (!p && !tags[i].second.empty() && r.chance(1, 6)) o += fws(r);
				o += tags[i].second;
				if (!p && r.chance(1, 6)) o += fws(r, !last);
			}
			S& o2 = seen ? post : pre;
			if (!last || p || r.chance(1, 2)) o2 += ";";
			if (last && !p && r.chance(1, 8)) o2 += " ";
		}
		// white space behind an unterminated last b= is around its value
		S raw0 = pre + post;
		if (seen && post.find_first_not_of(" \t\r\n") == S::npos) { wsB2 += post; post.clear(); raw0 = pre; }
		ref::Msg pm = ref::parse(m.text());
		// the field itself is not part of pm, so no index is to be skipped
		S data;
		for (long k : ref::denoted(pm, -1, s.h))
		{
			S c = pm.f[(size_t)k].raw;
			if (s.relH) ref::relaxHeader(S(c), c);
			data += c + "\r\n";
		}
		S self = raw0;
		if (s.relH) ref::relaxHeader(S(raw0), self);
		data += self;
		S sig = ref::b64(ref::sign(*s.key, s.sha256, ref::sha(s.sha256, data)));
		S raw = pre + wsB1 + foldB64(r, sig, p) + wsB2 + post;
		m.fields.insert(m.fields.begin() + (long)pos, raw);
		return raw;
	}

	S signInto(Rng& r, Message& m, size_t pos, const SignSpec& s)
	{ return signTags(r, m, pos, s, tagsOf(r, m, s), !s.plain); }

	void unknownTags(Rng& r, std::vector<std::pair<S, S>>& tags, size_t n)
	{
		for (; n; --n)
		{
			S v;
			if (r.chance(1, 2)) v = r.pick({"", "y", "a b", "x=y:z", "b=zzz", "1"});
			// a digit behind a letter or two: no tag that means something looks like that
			tags.push_back({r.pick({"b", "bh", "d", "h", "p", "t", "x", "Z", "u", "note_"}) + std::to_string(n), v});
		}
	}

	S zeros(Rng& r, const S& number, size_t digits)
	{ return number.size() >= digits ? number : S(r.below(digits - number.size() + 1), '0') + number; }

	S quotedLocal(Rng& r)
	{
		S o = "\"";
		for (size_t n = r.below(10); n; --n)
		{
			char c = r.chance(1, 4) ? '@' : (char)r.range(' ', '~');
			if (c == '"' || c == '\\' || r.chance(1, 10)) o += '\\';
			o += c;
		}
		return o + "\"";
	}

	S nearMiss(Rng& r, const S& word)
	{
		S o = word;
		for (size_t n = r.chance(1, 5) ? 2 : 1; n; --n)
		{
			size_t p = o.empty() ? 0 : r.below(o.size());
			char c = (char)r.range('!', '~');
			if (c == ';') c = '-';
			switch (r.below(10))
			{
				case 0: if (!o.empty()) o.erase(p, 1); break;
				case 1: if (!o.empty()) o.insert(p, 1, o[p]); break;
				case 2: o.insert(p, 1, c); break;
				case 3: o += c; break;
				case 4: o.insert(0, 1, c); break;
				case 5: if (!o.empty()) o[p] = c; break;
				case 6: if (!o.empty() && isalpha((unsigned char)o[p])) o[p] = (char)(o[p] ^ 0x20); break;
				case 7: if (!o.empty()) o.resize(p); break;
				case 8: o += o; break;
				default: if (!o.empty()) o.insert(p, r.pick({" ", "\t", "\r\n "}));
			}
		}
		return o;
	}

	S wordList(Rng& r, const std::vector<S>& known, const std::vector<S>& rare, bool odd)
	{
		S o;
		size_t n = odd && r.chance(1, 12) ? 0 : 1 + r.below(r.chance(1, 8) ? 5 : 3);
		size_t only = n;
		if (r.chance(1, odd ? 40 : 150)) { n = sizeUpTo(r, 300); only = r.below(n); odd = odd && r.chance(1, 8); }	// what matters may be anywhere in a long list
		for (size_t i = 0; i < n; ++i)
		{
			if (i) o += odd && r.chance(1, 12) ? S(r.pick({"::", ": :"})) : r.chance(1, 6) ? S(r.pick({" : ", ":\r\n ", " :", ":\t"})) : S(":");
			S w = only != n && i != only ? S(r.pick({"x", "other", "x-abc"})) : rare.empty() || r.chance(5, 7) ? known[r.below(known.size())] : rare[r.below(rare.size())];
			o += odd && r.chance(1, 6) ? nearMiss(r, w) : w;
		}
		return o;
	}

	// a list that has all of the given words
	static S listWith(Rng& r, std::vector<S> must, const std::vector<S>& others)
	{
		for (size_t n = r.chance(1, 150) ? sizeUpTo(r, 300) : r.below(3); n; --n) must.push_back(others[r.below(others.size())]);
		r.shuffle(must);
		S o;
		for (size_t i = 0; i < must.size(); ++i) o += (i ? r.chance(1, 5) ? " : " : ":" : "") + must[i];
		return o;
	}

	S recordFor(Rng& r, const ref::Key& k, bool odd)
	{
		if (!odd) return k.record();
		std::vector<std::pair<S, S>> t;
		bool rsa = k.kind == ref::RSA_KEY;
		if (!rsa || r.chance(1, 2)) t.push_back({"k", rsa ? "rsa" : "ed25519"});
		if (r.chance(1, 4)) t.push_back({"n", r.chance(1, 8) ? longText(r, sizeUpTo(r, 20000)) : S("some notes")});
		if (r.chance(1, 4)) t.push_back({"s", listWith(r, {r.pick({"email", "*"})}, {"email", "*", "x", "other", "web", "Email", "emails"})});
		if (r.chance(1, 4)) t.push_back({"h", listWith(r, {"sha1", "sha256"}, {"sha512", "x", "sha1", "SHA256"})});
		if (r.chance(1, 4)) t.push_back({"t", r.chance(1, 5) ? S() : wordList(r, {"y", "x", "zz", "yy", "S", "ss"}, {})});
		if (r.chance(1, 5)) t.push_back({"g", r.pick({"*", ""})});
		t.push_back({"p", foldB64(r, k.pub64)});
		if (r.chance(1, 80)) unknownTags(r, t, sizeUpTo(r, 600));
		r.shuffle(t);
		if (r.chance(2, 3)) t.insert(t.begin(), {"v", "DKIM1"});
		S o;
		for (size_t i = 0; i < t.size(); ++i)
		{
			if (i) o += ";" + ows(r, false);
			o += t[i].first + (r.chance(1, 6) ? " " : "") + "=" + (r.chance(1, 6) ? " " : "") + t[i].second + (r.chance(1, 8) ? " " : "");
		}
		if (r.chance(1, 2)) o += ";";
		return o;
	}

	void nulHash(Rng& r, Message& m, const SignSpec& s)
	{
		m.blank = true;
		if (m.body.size() > 3000) m.body.resize(100);
		S base = m.body;
		if (s.hasL) return;
		for (int k = 0; k < 2000; ++k)
		{
			m.body = base + "x" + r.from("abcdefghijklmnop", 6) + "\r\n";
			if (ref::sha(s.sha256, ref::canonBody(m.body, s.relB))[0] == 0) return;
		}
	}

	S wrongHash(Rng& r, const S& hash)
	{
		S o = hash;
		size_t at = r.below(o.size() + 1);
		switch (r.below(6))
		{
			case 0: o.resize(at); break;
			case 1: o.insert(at, 1, (char)r.next()); break;
			case 2: o += r.bytes(1 + r.below(40)); break;
			case 3: for (size_t i = at; i < o.size(); ++i) o[i] = (char)r.next(); break;
			case 4: o = r.bytes(o.size()); break;
			default: break;
		}
		if (o == hash) o[std::min(at, o.size() - 1)] ^= (char)(1 << r.below(8));
		return o;
	}

	S mutateBytes(Rng& r, const S& s, unsigned n)
	{
		S o = s;
		while (n--)
		{
			size_t p = r.below(o.size() + 1);
			switch (r.below(6))
			{
				case 0: if (p < o.size()) o[p] = (char)r.next(); break;
				case 1: if (p < o.size()) o.erase(p, 1 + r.below(4)); break;
				case 2: o.insert(p, 1, (char)r.next()); break;
				case 3: o.insert(p, r.pick({" ", "\r\n", "\r\n ", ":", ";", "=", "\n", "\r", "\t", "b=", "\xff", "=?", "?=", "\"", "(", "<", "\\"})); break;
				case 4: if (p < o.size()) o[p] = (char)(o[p] ^ (1 << r.below(8))); break;
				default:
				{
					if (o.empty()) break;
					size_t q = r.below(o.size()), k = 1 + r.below(20);
					o.insert(p, S(o, q, k));
				}
			}
		}
		return o;
	}
}
