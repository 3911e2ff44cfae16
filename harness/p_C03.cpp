// C03: signatures from any conforming signer verify; otherwise the verdict is the one the rules give.
#include "dk.hpp"
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"A message signed by the independent signer with a random legal layout must pass; variants of it (changed tags, layout, "
	"message, records) must get the class the reference verifier computes. Non-trivial: a signed message (hash) that was "
	"verified.";
uint64_t mon::cases(bool th) { return th ? 300000 : 8000; }

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	gen::Message m = gen::message(r, true, r.chance(1, 100));
	dk::Dns dns;
	size_t n = r.chance(1, 4) ? 2 + r.below(2) : 1;
	S desc;
	bool arc = r.chance(1, 8);
	for (size_t i = 0; i < n; ++i)
	{
		gen::SignSpec s = gen::signSpec(r, m);
		if (arc) { s.arc = (unsigned)r.range(1, 50); s.hasI = false; }
		else if (s.arc) s.arc = 0;
		if (n > 1)	// a later signature field must not be denoted by an earlier signature
			for (auto& h : s.h) if (ref::iequal(h, "dkim-signature") || ref::iequal(h, "arc-message-signature")) h = "x-other";
		size_t pos = r.chance(1, 2) ? 0 : r.below(m.fields.size() + 1);
		gen::signInto(r, m, pos, s);
		S nm = s.s + "._domainkey." + ref::lower(s.d);
		dns.zone[nm] = { 0, gen::recordFor(r, *s.key) };
		desc += nm + " ";
	}
	S text = m.text(&r, (int)r.below(3));
	auto ctx = [&] {
		S z;
		for (auto& e : dns.zone) z += e.first + " -> " + std::to_string(e.second.first) + " " + quote(e.second.second, 500) + "\n";
		return quote(text, 4000) + "\n" + z; };
	dk::Judged j = dk::judge(c, text, arc, dns, ctx, "conforming");
	// the new signatures must pass (others may be in the message by chance of a generated name)
	size_t pass = 0;
	for (auto& x : j.cls) pass += x == "pass";
	c.check(pass >= n, "conforming-signature-refused", [&] { return std::to_string(pass) + " of " + std::to_string(n) + " pass\n" + ctx(); });
	c.ev("conforming signatures accepted", pass);
	c.nontrivial(text);
	c.state(desc);
	if (c.idx < 30) c.sample(quote(text, 500));

	// variants
	unsigned rounds = 3;
	S base = text;
	dk::Dns dns0 = dns;
	while (rounds--)
	{
		text = base;
		dns = dns0;
		switch (r.below(8))
		{
			case 0: text = gen::mutateBytes(r, base, 1); break;
			case 1: text = gen::mutateBytes(r, base, 1 + (unsigned)r.below(6)); break;
			case 2:
			{
				auto i = dns.zone.begin();
				i->second.second = gen::mutateBytes(r, i->second.second, 1);
				break;
			}
			case 3:
			{
				auto i = dns.zone.begin();
				i->second.first = (int)r.below(3);
				break;
			}
			case 4:
			{
				auto i = dns.zone.begin();
				S tag = r.pick({"t", "h", "s", "k", "v"});
				std::vector<S> words = tag == "t" ? std::vector<S>{"s", "y", "x"} : tag == "h" ? std::vector<S>{"sha1", "sha256", "x"} :
					tag == "s" ? std::vector<S>{"web", "email", "*"} : tag == "k" ? std::vector<S>{"rsa", "ed25519"} : std::vector<S>{"DKIM1", "DKIM2"};
				S list = gen::wordList(r, words, {}, r.chance(1, 4));
				if (tag == "k" || tag == "v") list = r.chance(1, 4) ? gen::nearMiss(r, words[r.below(2)]) : words[r.below(2)];
				i->second.second += "; " + tag + "=" + list;
				break;
			}
			case 5: text = base + r.pick({"\r\n", "\r\n\r\n", " ", "x", "\t\r\n", "\r\n\r\nmore\r\n"}); break;
			case 6:	// a fresh signature of something the verifier must refuse or fail
			{
				gen::Message m2 = gen::message(r, true);
				gen::SignSpec s = gen::signSpec(r, m2);
				s.arc = arc ? 3 : 0;
				if (arc) s.hasI = false;
				auto tags = gen::tagsOf(r, m2, s);
				size_t k = r.below(tags.size());
				if (tags[k].first == "b") k = 0;
				bool hash = r.chance(1, 3);
				if (hash)
				{
					if (r.chance(1, 8)) { gen::nulHash(r, m2, s); tags = gen::tagsOf(r, m2, s); }
					for (auto& t : tags)
						if (t.first == "bh")
						{
							S h;
							ref::unb64(ref::noWs(t.second), h);
							t.second = gen::foldB64(r, ref::b64(gen::wrongHash(r, h)));
						}
					c.ev("signatures over another body hash");
				}
				else switch (r.below(4))
				{
					case 0: tags.erase(tags.begin() + (long)k); break;
					case 1: tags[k].second = gen::mutateBytes(r, tags[k].second, 1); break;
					case 2: tags.push_back(tags[k]); break;
					default: tags[k].second = r.pick({"", "1", "x", "simple", "from", "rsa-sha1", "a@b", "0", "-1", "dns/txt", "99999999999999999999"});
				}
				gen::signTags(r, m2, 0, s, tags, r.chance(1, 2));
				text = m2.text(&r, (int)r.below(3));
				dns.zone[s.s + "._domainkey." + ref::lower(s.d)] = { 0, gen::recordFor(r, *s.key) };
				break;
			}
			default:
			{
				gen::Message m2 = m;
				if (m2.fields.size() > 1) std::swap(m2.fields[r.below(m2.fields.size())], m2.fields[r.below(m2.fields.size())]);
				if (r.chance(1, 2)) m2.fields.insert(m2.fields.begin() + (long)r.below(m2.fields.size() + 1), gen::field(r, gen::fieldName(r)));
				text = m2.text(&r, (int)r.below(3));
			}
		}
		dk::judge(c, text, arc, dns, ctx, "variant");
		c.ev("variants judged");
		c.nontrivial(text);
	}
}
