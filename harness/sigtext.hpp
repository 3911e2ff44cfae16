// Signature field texts that need not be signed: tags with random layout.
#pragma once
#include "gen.hpp"
#include "ref.hpp"

namespace sigtext
{
	typedef std::string S;
	typedef std::vector<std::pair<S, S>> Tags;

	inline S layout(mon::Rng& r, const S& name, const Tags& tags, bool odd = true)
	{
		S o = odd ? gen::caseMix(r, name) : name;
		if (odd && r.chance(1, 8)) o += " ";
		o += ":";
		for (size_t i = 0; i < tags.size(); ++i)
		{
			bool last = i + 1 == tags.size();
			o += odd ? gen::ows(r) : S(" ");
			o += tags[i].first;
			if (odd && r.chance(1, 6)) o += gen::fws(r);
			o += "=";
			if (odd && r.chance(1, 6) && !tags[i].second.empty()) o += gen::fws(r);
			o += tags[i].second;
			if (odd && r.chance(1, 6)) o += gen::fws(r, !last);
			if (!last || r.chance(1, 2)) o += ";";
		}
		return o;
	}

	// A complete, acceptable set of tags (signature value and hash are random bytes).
	inline Tags tags(mon::Rng& r, bool arc, const S& d)
	{
		Tags t;
		if (!arc) t.push_back({ "v", "1" });
		bool sha1 = false;
		switch (r.below(3))
		{
			case 0: t.push_back({ "a", "rsa-sha1" }); sha1 = true; break;
			case 1: t.push_back({ "a", "rsa-sha256" }); break;
			default: t.push_back({ "a", "ed25519-sha256" });
		}
		if (r.chance(3, 4)) t.push_back({ "c", r.pick({ "simple", "relaxed", "simple/simple", "simple/relaxed", "relaxed/simple", "relaxed/relaxed" }) });
		t.push_back({ "d", d });
		S sel = r.chance(1, 8) ? gen::word(r) : gen::domain(r);
		for (char& c : sel) if (c == ';' || (c & 0x80)) c = '-';
		t.push_back({ "s", sel });
		S h;
		std::vector<S> names = { gen::caseMix(r, "from") };
		for (size_t n = r.below(5); n; --n) names.push_back(r.from("abcXYZ-09_", 1 + r.below(9)));
		if (r.chance(1, 4)) names.push_back("From");
		if (r.chance(1, 80)) for (size_t n = gen::sizeUpTo(r, 1000); n; --n) names.push_back("x-" + std::to_string(n));
		r.shuffle(names);
		for (size_t i = 0; i < names.size(); ++i)
			h += (i ? (r.chance(1, 4) ? gen::fws(r) : S()) + ":" + (r.chance(1, 4) ? gen::fws(r) : S()) : S()) + names[i];
		for (size_t k = 0; k < h.size(); ++k) if (h[k] == ';') h[k] = '-';
		t.push_back({ "h", h });
		t.push_back({ "bh", gen::foldB64(r, ref::b64(r.bytes(sha1 ? 20 : 32))) });
		t.push_back({ "b", gen::foldB64(r, ref::b64(r.bytes(1 + r.below(r.chance(1, 4) ? 512 : 64)))) });
		if (arc)
		{
			S i = std::to_string(r.range(1, 50));
			t.push_back({ "i", r.chance(1, 10) ? gen::zeros(r, i, r.chance(1, 3) ? 100 : 5) : i });
		}
		else if (r.chance(1, 2)) t.push_back({ "i", (r.chance(1, 4) ? S() : ref::qpEnc(r.bytes(r.below(8)))) + "@" });	// the caller completes it
		if (!arc && t.back().first == "i")
		{
			S& i = t.back().second;
			S loc;
			for (size_t k = 0; k + 1 < i.size(); ++k) loc += i[k] == '@' || i[k] == '"' ? '_' : i[k];
			if (r.chance(1, 6)) loc = ref::qpEnc(gen::quotedLocal(r));
			i = loc + "@" + gen::caseMix(r, (r.chance(1, 2) ? gen::label(r) + "." : S()) + ref::lower(d));
		}
		if (r.chance(1, 3))
		{
			S l = std::to_string(r.below(100000));
			t.push_back({ "l", r.chance(1, 10) ? gen::zeros(r, l, 76) : l });
		}
		if (r.chance(1, 3)) t.push_back({ "q", r.pick({ "dns/txt", "dns/txt:other", "http/foo : dns/txt", "x-a:x-b:dns/txt" }) });
		if (r.chance(1, 3)) t.push_back({ "t", std::to_string(1600000000 + r.below(100000000)) });
		if (r.chance(1, 4)) t.push_back({ r.pick({ "z", "r", "zz", "X", "b_2", "B", "BH", "D", "T_x1" }), r.pick({ "", "y", "a b", "x=y:z" }) });
		if (r.chance(1, 60)) gen::unknownTags(r, t, gen::sizeUpTo(r, 600));
		if (r.chance(1, 80)) t.push_back({ "w" + S(gen::sizeUpTo(r, 3000), 'n'), gen::longText(r, gen::sizeUpTo(r, 20000)) });
		return t;
	}

	inline std::pair<S, S>* find(Tags& t, const S& name)
	{
		for (auto& x : t) if (x.first == name) return &x;
		return nullptr;
	}
	inline void set(Tags& t, const S& name, const S& value)
	{
		if (auto p = find(t, name)) p->second = value;
		else t.push_back({ name, value });
	}
}
