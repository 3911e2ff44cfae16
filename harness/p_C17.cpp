// C17: address lists.
#include "dk.hpp"
#include <src/Tokenizer.hpp>
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Address fields are generated from their structure (bare and bracketed addresses, display names of atoms, quoted strings and unquoted commas, "
	"groups, nested comments, folding, empty members, quoted lists) together with the addresses they contain; others get an unclosed or dangling "
	"part or a NUL byte and must be refused. Non-trivial: distinct fields.";
uint64_t mon::cases(bool th) { return th ? 4000000 : 300000; }

static S comment(Rng& r, int depth = 0)
{
	S o = "(";
	if (depth == 0 && r.chance(1, 60))
	{
		size_t n = gen::sizeUpTo(r, 1200);
		S in = comment(r, 4);
		return S(n, '(') + in + S(n, ')');
	}
	for (size_t n = r.below(5); n; --n)
	{
		switch (r.below(7))
		{
			case 0: if (depth < 4) { o += comment(r, depth + 1); break; }	// fall through
			case 1: o += "\\" + S(1, r.pick({ "(", ")", "\\", "\"", "x", "@" })[0]); break;
			case 2: o += r.pick({ "@", ",", ";", ":", "<", ">", "\"", "a@b.c", "<x@y>", "\xff", "\x80" }); break;
			case 3: o += gen::fws(r); break;
			default: o += r.from("abcdefXYZ 012", 1 + r.below(6));
		}
	}
	return o + ")";
}

// comments and folding white space between tokens
static S cfws(Rng& r)
{
	S o;
	if (r.chance(1, 3)) o += gen::fws(r);
	if (r.chance(1, 5)) o += comment(r);
	if (r.chance(1, 6)) o += gen::fws(r);
	return o;
}

static S atom(Rng& r) { if (r.chance(1, 600)) return gen::longText(r, gen::sizeUpTo(r, 20000)); return r.from("abcdefXYZ0123456789!#$%&'*+-/=?^_`{|}~\xc3\xa9\xff", 1 + r.below(7)); }

static S addr(Rng& r, S& plain)
{
	std::vector<S> tok;
	size_t n = 1 + r.below(3);
	plain.clear();
	S out;
	auto add = [&](const S& t) { plain += t; out += t; if (r.chance(1, 10)) out += cfws(r); };
	if (r.chance(1, 12))
	{
		bool odd = r.chance(1, 2);
		S t = odd ? r.from("ab,;:<>()@\\\" .\xff\xc3", 1 + r.below(8)) : r.from("abcXYZ.09", 1 + r.below(8));
		plain += t;
		out += "\"";
		for (char ch : t) { if (ch == '"' || ch == '\\' || (odd && r.chance(1, 8))) out += '\\'; out += ch; }
		out += "\"";
		if (r.chance(1, 6)) out += cfws(r);
	}
	else for (size_t i = 0; i < n; ++i) { if (i) add("."); add(atom(r)); }
	add("@");
	n = 1 + r.below(3);
	if (r.chance(1, 20)) { add("[127.0.0.1]"); return out; }
	for (size_t i = 0; i < n; ++i) { if (i) add("."); add(r.from("abcdefXYZ0189-", 1 + r.below(7))); }
	return out;
}

static S quoted(Rng& r)
{
	S o = "\"";
	for (size_t n = r.below(8); n; --n)
	{
		switch (r.below(5))
		{
			case 0: o += "\\" + S(1, r.pick({ "\"", "\\", "a", "(", "@", ",", "\xff" })[0]); break;
			case 1: o += r.pick({ ",", "@", "<", ">", "(", ")", ";", ":", "\xff", "\x80", "a@b.c", "<a@b.c>", " " }); break;
			case 2: o += gen::fws(r); break;
			default: o += r.from("abcdef XYZ", 1 + r.below(5));
		}
	}
	return o + "\"";
}

static S display(Rng& r)
{
	S o;
	if (r.chance(1, 6))
	{
		// an unquoted display name that looks like an address itself
		for (size_t n = 1 + r.below(2); n; --n)
			o += (r.chance(1, 3) ? atom(r) + gen::fws(r) : S()) + atom(r) + "@" + atom(r) + (n > 1 || r.chance(1, 2) ? gen::fws(r) : S()) + (r.chance(1, 5) ? quoted(r) + " " : S());
		return o;
	}
	for (size_t n = 1 + r.below(3); n; --n)
	{
		if (r.chance(1, 3)) o += quoted(r);
		else if (r.chance(1, 8)) o += "=?utf-8?Q?J=C3=B6rg?=";
		else o += atom(r) + (r.chance(1, 8) ? "." : "");
		if (n > 1) o += r.chance(1, 8) && o.back() != '"' ? S(",") + gen::fws(r) : gen::fws(r) + (r.chance(1, 8) ? comment(r) + " " : S());
	}
	return o;
}

static S mailbox(Rng& r, std::vector<S>& want)
{
	S p, a = addr(r, p), o;
	switch (r.below(5))
	{
		case 0: case 1: o = a; break;
		case 2: o = "<" + cfws(r) + a + cfws(r) + ">"; break;
		default: o = display(r) + cfws(r) + "<" + cfws(r) + a + cfws(r) + ">"; break;
	}
	want.push_back(p);
	return cfws(r) + o + cfws(r);
}

static S list(Rng& r, std::vector<S>& want, size_t max, bool groups)
{
	S o;
	size_t n = 1 + r.below(max);
	for (size_t i = 0; i < n; ++i)
	{
		if (i) o += ",";
		if (r.chance(1, 25)) o += cfws(r) + ",";
		if (groups && r.chance(1, 8))
		{
			o += cfws(r);
			// the name of a group
			for (size_t k = 1 + r.below(2); k; --k) o += (r.chance(1, 4) ? quoted(r) : atom(r)) + (k > 1 ? gen::fws(r) : S());
			if (r.chance(1, 4)) o += gen::fws(r);
			o += ":";
			size_t k = r.below(4);
			for (size_t j = 0; j < k; ++j) o += (j ? "," : "") + mailbox(r, want);
			if (!k) o += cfws(r);
			o += ";" + cfws(r);
		}
		else o += mailbox(r, want);
	}
	if (r.chance(1, 25)) o += ",";
	return o;
}

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	std::vector<S> want;
	S in;
	bool alone = r.chance(1, 10);
	if (r.chance(1, 60)) {}
	else if (alone)
	{
		// a list within a quoted string
		in = list(r, want, 3, false);
		for (size_t k = r.chance(1, 8) ? 1 + r.below(4) : 1; k; --k)
		{
			S q;
			for (char ch : in) { if (ch == '"' || ch == '\\' || r.chance(1, 40)) q += '\\'; q += ch; }
			in = gen::ows(r) + "\"" + q + "\"" + gen::ows(r);
			if (k > 1) c.ev("quoted lists in quoted lists");
		}
		if (r.chance(1, 3))
		{
			in += ",";
			in += list(r, want, 2, true);
		}
	}
	else in = list(r, want, r.chance(1, 50) ? r.chance(1, 12) ? gen::sizeUpTo(r, 1500) : 40 : 4, true);
	const char* broken = nullptr;
	if (r.chance(1, 3))
	{
		switch (r.below(6))
		{
			case 0: in += ", " + S(r.pick({ "\"abc", "\"", "\"a\\\"", "\"a <b@c>, d", "\"\xff" })); broken = "unclosed quote"; break;
			case 1: in += S(" (") + r.pick({ "", "abc", "a(b)", "a\\)", "((x)", "\xff" }); broken = "unclosed comment"; break;
			case 2: in += S(", ") + r.pick({ "<", "<a@b", "x <a@b ", "<a@b (c)", "\"n\" <a@b, c@d" }); broken = "unclosed bracket"; break;
			case 3: in += S(", ") + r.pick({ "\"abc\\", "(abc\\", "(a(b\\", "\"\\" }); broken = "dangling escape"; break;
			default:
			{
				static const S nul(1, '\0');
				switch (r.below(7))
				{
					case 5: in += " (x" + nul + "y)"; break;
					case 6: in = "((a)\\" + nul + ")" + in; break;
					case 0: in = "a" + nul + "b@c.d, " + in; break;
					case 1: in += ",\"x" + nul + "y\" <a@b>"; break;
					case 2: in += ",<a@b" + nul + ">"; break;
					case 3: in = nul + "," + in; break;
					default: in += ",\"\\" + nul + "\" <a@b>"; break;
				}
				broken = "NUL";
			}
		}
	}
	std::list<S> got;
	dk::Out o = dk::call([&] { got = DKIM::Tokenizer::ParseAddressList(in); });
	auto ctx = [&] {
		S s = "field " + quote(in, 2500) + "\nlibrary: " + o.cls + " " + o.what + "\ngot ";
		for (auto& x : got) s += " [" + quote(x) + "]";
		s += broken ? S("\nwant refusal: ") + broken : "\nwant";
		if (!broken) for (auto& x : want) s += " [" + quote(x) + "]";
		return s;
	};
	if (!in.empty()) c.nontrivial(in);
	if (broken)
	{
		c.check(!o.ok() && o.cls == "permerror", "broken-list-accepted", ctx);
		c.ev(S("refused: ") + broken);
		return;
	}
	c.check(o.ok(), "list-refused", ctx);
	c.check(std::vector<S>(got.begin(), got.end()) == want, "addresses-differ", ctx);
	c.ev("lists compared");
	c.ev("addresses compared", want.size());
	if (alone) c.ev("quoted lists");
	if (c.idx < 30) c.sample(ctx());
}
