// C08: tag lists and value lists against the reference.
#include "dk.hpp"
#include <src/TagList.hpp>
#include <src/Tokenizer.hpp>
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Tag lists (random names incl. digits, underscores, near-duplicates in other case, real duplicates; values with inner white space, empty "
	"values; any white space and line breaks around names, '=' and ';'; missing pieces; byte mutations) and value lists (elements, folding, "
	"empty elements at every place) are parsed and compared with the reference: acceptance, names, values, value positions, element order. "
	"Non-trivial: distinct inputs.";
uint64_t mon::cases(bool th) { return th ? 6000000 : 500000; }

static S lws(Rng& r)
{
	static const std::vector<S> tok = { " ", "\t", "\r\n ", "\r\n\t", "\r\n", "\n", "\r", "  " };
	S s;
	for (size_t n = r.below(3); n; --n) s += r.pick(tok);
	return s;
}

static S tagName(Rng& r)
{
	static const S first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", rest = first + "0123456789_";
	if (r.chance(1, 2)) return r.pick({ "a", "b", "bh", "d", "s", "h", "x", "A", "Bh", "bH", "i", "l", "z", "xx", "a1", "a_", "X_1", "v" });
	if (r.chance(1, 6)) return r.from("0123456789_", 1) + r.from(rest, r.below(4));
	if (r.chance(1, 60)) return r.from(first, 1) + r.from(rest, gen::sizeUpTo(r, 2000));
	return r.from(first, 1) + r.from(rest, r.below(6));
}

static S tagValue(Rng& r)
{
	static S ok;
	if (ok.empty()) for (char c = 0x21; c < 0x7f; ++c) if (c != ';') ok += c;
	S v;
	if (r.chance(1, 400)) return gen::longText(r, gen::sizeUpTo(r, 140000));
	for (size_t n = r.below(4); n; --n)
	{
		v += r.from(ok, 1 + r.below(8));
		if (n > 1) v += r.pick({ " ", "\t", "\r\n ", "  ", " \t ", "\r\n\t", "\n", "\r" });
	}
	return v;
}

static S tagListText(Rng& r)
{
	S t;
	size_t n = r.below(8);
	if (r.chance(1, 60)) n = r.chance(1, 10) ? gen::sizeUpTo(r, 3000) : 200;
	bool clean = r.chance(1, 2);
	for (size_t i = 0; i < n; ++i)
	{
		t += lws(r);
		if (clean || !r.chance(1, 20)) t += n > 20 ? tagName(r) + std::to_string(i) : tagName(r);
		t += lws(r);
		if (clean || !r.chance(1, 20)) t += "=";
		t += lws(r) + tagValue(r) + lws(r);
		if (i + 1 < n || r.chance(1, 2)) t += ";";
		if (!clean && r.chance(1, 20)) t += ";";
	}
	t += lws(r);
	if (r.chance(1, 4)) t = gen::mutateBytes(r, t, 1 + (unsigned)r.below(2));
	return t;
}

// only proper folding white space: a lone CR or LF is left open
static S valueListText(Rng& r)
{
	S t;
	size_t n = r.chance(1, 200) ? gen::sizeUpTo(r, 3000) : r.below(7);
	bool many = n > 10;
	for (size_t i = 0; i < n; ++i)
	{
		t += gen::ows(r);
		if (many || !r.chance(1, 12))
		{
			for (size_t k = 1 + r.below(2); k; --k)
			{
				t += r.from("abcXYZ019-_*@.=/+;,\"\\\x7f\xc3\xa9", 1 + r.below(6));
				if (k > 1) t += gen::fws(r);
			}
		}
		t += gen::ows(r);
		if (i + 1 < n || r.chance(1, 4)) t += ":";
	}
	return t;
}

static bool properBreaks(const S& s)
{
	for (size_t i = 0; i < s.size(); ++i)
	{
		if (s[i] == '\r' && (i + 2 >= s.size() || s[i + 1] != '\n' || !ref::wsp(s[i + 2]))) return false;
		if (s[i] == '\n' && (i == 0 || s[i - 1] != '\r')) return false;
	}
	return true;
}

static DKIM::TagList reused;

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	if (c.idx % 3 != 2)
	{
		S in = tagListText(r);
		std::vector<ref::Tag> want;
		bool ok = ref::tagList(in, want);
		DKIM::TagList own;
		bool reuse = r.chance(1, 3);
		DKIM::TagList& t = reuse ? reused : own;
		if (reuse) t.Reset();
		dk::Out o = dk::call([&] { t.Parse(in); });
		auto ctx = [&] { return "input " + quote(in, 3000) + "\nlibrary: " + o.cls + " " + o.what + "\nreference: " + (ok ? "accept" : "refuse"); };
		c.check(o.ok() || o.cls == "permerror", "unexpected-error", ctx);
		if (reuse) c.ev("reset lists reused");
		if (!ok)
		{
			c.check(!o.ok(), "malformed-list-accepted", ctx);
			c.ev("refused tag lists");
			c.nontrivial(in);
			return;
		}
		c.check(o.ok(), "list-refused", ctx);
		size_t n = 0;
		for (auto i = t.cbegin(); i != t.cend(); ++i) ++n;
		c.check(n == want.size(), "number-of-tags", [&] { return ctx() + "\n" + std::to_string(n) + " tags, want " + std::to_string(want.size()); });
		for (auto& w : want)
		{
			DKIM::TagListEntry e;
			c.check(t.GetTag(w.name, e), "tag-missing", [&] { return ctx() + "\ntag " + w.name; });
			c.check(e.GetValue() == w.value, "tag-value", [&] { return ctx() + "\ntag " + w.name + " got " + quote(e.GetValue()) + " want " + quote(w.value); });
			if (!w.value.empty())
			{
				c.check((size_t)e.GetValueOffset() == w.off, "value-position", [&] { return ctx() + "\ntag " + w.name + " at " + std::to_string(e.GetValueOffset()) + " want " + std::to_string(w.off); });
				c.ev("value positions compared");
			}
			auto i = t.cbegin();
			while (i != t.cend() && i->first != w.name) ++i;
			c.check(i != t.cend() && i->second.GetValue() == w.value, "tag-not-listed", ctx);
			// case matters
			S other = w.name;
			for (auto& x : other) x = (char)(isupper((unsigned char)x) ? tolower(x) : toupper(x));
			if (other != w.name && !ref::findTag(want, other))
				c.check(!t.GetTag(other, e), "name-case-ignored", [&] { return ctx() + "\ntag " + other; });
			c.ev("tags compared");
		}
		c.ev("accepted tag lists");
		if (!in.empty()) c.nontrivial(in);
		if (c.idx < 20) c.sample("tag list " + quote(in, 200) + ": " + std::to_string(n) + " tags");
	}
	else
	{
		S in = valueListText(r);
		if (r.chance(1, 5))
		{
			S m = gen::mutateBytes(r, in, 1);
			if (properBreaks(m)) in = m;
		}
		std::vector<S> want;
		bool ok = ref::valueList(in, want);
		std::list<S> got;
		dk::Out o = dk::call([&] { got = DKIM::Tokenizer::ValueList(in); });
		auto ctx = [&] {
			S s = "value list " + quote(in, 2000) + "\nlibrary: " + o.cls + " " + o.what + "\n got";
			for (auto& x : got) s += " [" + quote(x) + "]";
			s += ok ? "\nwant" : "\nwant refusal";
			for (auto& x : want) s += " [" + quote(x) + "]";
			return s;
		};
		if (!ok)
		{
			c.check(!o.ok() && o.cls == "permerror", "empty-element-accepted", ctx);
			c.ev("refused value lists");
		}
		else
		{
			c.check(o.ok(), "value-list-refused", ctx);
			c.check(std::vector<S>(got.begin(), got.end()) == want, "value-list-differs", ctx);
			c.ev("value lists compared");
			c.ev("elements compared", want.size());
		}
		c.nontrivial(in);
		if (c.idx < 20) c.sample(ctx());
	}
}
