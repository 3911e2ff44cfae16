// C34: copies are values of their own.
#include "entry.hpp"
#include "frozen.hpp"
#include "hostile.hpp"
#include "sigtext.hpp"
#include <type_traits>
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Pools of objects of every class of the library under random histories of operations, copies, assignments (to themselves, too), moves and destructions, as far as the class offers "
	"them. Each object must always show what a new object shows to which only its own operations, and before them those of the object it was copied from, were applied. "
	"Non-trivial: distinct histories.";
uint64_t mon::cases(bool th) { return th ? 600000 : 22000; }

// One operation is reproduced from its number.
typedef std::vector<uint64_t> Recipe;

static S der(const RSA* k)
{
	if (!k) return "none";
	unsigned char* p = nullptr;
	const BIGNUM* d = nullptr;
	RSA_get0_key(k, nullptr, nullptr, &d);
	int n = d ? i2d_RSAPrivateKey(k, &p) : i2d_RSAPublicKey(k, &p);
	S o = n > 0 ? S((char*)p, (size_t)n) : S("unreadable");
	OPENSSL_free(p);
	return std::to_string(hash(o));
}

struct Record
{
	typedef DKIM::PublicKey T;
	static const char* name() { return "PublicKey"; }
	static T* make() { return new T(); }
	static void op(T& t, Rng& r)
	{
		if (r.chance(1, 6)) { t.Reset(); return; }
		S rec = r.chance(2, 3) ? gen::recordFor(r, gen::anyKey(r, r.chance(1, 2))) : hostile::record(r, r.chance(1, 2));
		dk::call([&] { t.Parse(rec); });
	}
	static S show(const T& t)
	{
		entry::Seen s;
		entry::readRecord(s, t);
		return s.text + der(t.GetRSAPublicKey()) + std::to_string(t.GetServiceType().size());
	}
};

struct Sig
{
	typedef DKIM::Signature T;
	static const char* name() { return "Signature"; }
	static T* make() { T* t = new T(); t->Reset(); return t; }
	static void op(T& t, Rng& r)
	{
		if (r.chance(1, 6)) { t.Reset(); return; }
		bool arc = r.chance(1, 3);
		sigtext::Tags g = sigtext::tags(r, arc, gen::domain(r));
		if (r.chance(1, 6)) g.resize(r.below(g.size() + 1));
		auto h = std::make_shared<DKIM::Header>();
		std::stringstream l(sigtext::layout(r, arc ? "ARC-Message-Signature" : "DKIM-Signature", g));
		S line;
		while (std::getline(l, line)) { if (!line.empty() && line.back() == '\r') line.pop_back(); h->ParseLine(line); }
		dk::call([&] { t.Parse(h); });
	}
	static S show(const T& t) { entry::Seen s; entry::readSignature(s, t); return s.text; }
};

struct Tags
{
	typedef DKIM::TagList T;
	static const char* name() { return "TagList"; }
	static T* make() { return new T(); }
	static void op(T& t, Rng& r)
	{
		if (r.chance(1, 3)) t.Reset();
		S in = hostile::odd(r, gen::recordFor(r, gen::anyKey(r, false)));
		if (r.chance(1, 2)) in = r.from("abcdefgh", 2) + "=" + gen::word(r) + "; " + r.from("abcdefgh", 3) + "=" + gen::word(r);
		dk::call([&] { t.Parse(in); });
	}
	static S show(const T& t)
	{
		S o;
		for (auto i = t.cbegin(); i != t.cend(); ++i) o += i->first + "=" + i->second.GetValue() + "@" + std::to_string((long)i->second.GetValueOffset()) + "|";
		return o;
	}
};

struct Tag
{
	typedef DKIM::TagListEntry T;
	static const char* name() { return "TagListEntry"; }
	static T* make() { T* t = new T(); t->SetValueOffset(0); return t; }
	static void op(T& t, Rng& r) { if (r.chance(1, 2)) t.SetValue(r.bytes(r.below(40))); else t.SetValueOffset((long)r.below(1000)); }
	static S show(const T& t) { return t.GetValue() + "@" + std::to_string((long)t.GetValueOffset()); }
};

struct Field
{
	typedef DKIM::Header T;
	static const char* name() { return "Header"; }
	static T* make() { return new T(); }
	static void op(T& t, Rng& r)
	{
		S line = r.chance(1, 2) ? " " + gen::word(r) : gen::fieldName(r) + (r.chance(1, 2) ? ":" : "") + gen::word(r);
		dk::call([&] { t.ParseLine(line); });
	}
	static S show(const T& t) { return t.GetName() + "|" + t.GetHeader() + "|" + std::to_string(t.GetValueOffset()); }
};

struct Mail
{
	typedef DKIM::Message T;
	static const char* name() { return "Message"; }
	static T* make() { return new T(); }
	static void op(T& t, Rng& r)
	{
		if (r.chance(1, 12)) { t.Reset(); return; }
		S line = r.chance(1, 3) ? " " + gen::word(r) : r.chance(1, 8) ? S() : gen::fieldName(r) + ":" + gen::word(r);
		std::istringstream in(line + "\r\n");
		dk::call([&] { if (!t.IsDone()) t.ParseLine(in); });
	}
	static S show(const T& t)
	{
		S o = t.IsDone() ? "done|" : "|";
		for (auto& h : t.GetHeaders()) o += Field::show(*h) + "\n";
		return o + std::to_string((long)t.GetBodyOffset());
	}
};

struct Sub
{
	typedef DKIM::AdditionalSignaturesOptions T;
	static const char* name() { return "AdditionalSignaturesOptions"; }
	static T* make() { return new T(); }
	static void op(T& t, Rng& r)
	{
		static RSA* lent[2];
		unsigned k = (unsigned)r.below(2);
		switch (r.below(8))
		{
			case 0: t.SetDomain(gen::domain(r)); break;
			case 1: t.SetSelector(gen::label(r)); break;
			case 2: t.SetSignatureAlgorithm(r.chance(1, 2) ? DKIM::DKIM_SA_RSA : DKIM::DKIM_SA_ED25519); break;
			case 3: dk::call([&] { t.SetPrivateKey(r.pick({ "", "x", "-----BEGIN" })); }); break;
			case 4: if (!lent[k]) lent[k] = EVP_PKEY_get1_RSA((EVP_PKEY*)ref::rsaKeys()[k]->pkey); t.SetRSAPrivateKey(lent[k], false); break;
			case 5: t.SetRSAPrivateKey(RSAPrivateKey_dup(EVP_PKEY_get0_RSA((EVP_PKEY*)ref::rsaKeys()[k]->pkey)), true); break;
			default:
			{
				const ref::Key& key = r.chance(1, 2) ? *ref::rsaKeys()[k] : ref::edKey((unsigned)r.below(8));
				dk::call([&] { t.SetPrivateKey(key.kind == ref::ED_KEY ? key.seed : r.chance(1, 2) ? key.pem : key.der64); });
			}
		}
	}
	static S show(const T& t)
	{
		return t.GetDomain() + "|" + t.GetSelector() + "|" + std::to_string((int)t.GetSignatureAlgorithm()) + "|" + der(t.GetRSAPrivateKey()) + "|" + hex(t.GetED25519PrivateKey());
	}
};

struct Options
{
	typedef DKIM::SignatoryOptions T;
	static const char* name() { return "SignatoryOptions"; }
	static T* make() { return new T(); }
	static void op(T& t, Rng& r)
	{
		switch (r.below(10))
		{
			case 0: t.SetDomain(gen::domain(r)); break;
			case 1: t.SetSelector(gen::label(r)); break;
			case 2: t.SetSignatureAlgorithm(r.chance(1, 2) ? DKIM::DKIM_SA_RSA : DKIM::DKIM_SA_ED25519); break;
			case 3: t.SetHeaders({ "from", gen::fieldName(r) }); break;
			case 4: t.AddHeaders({ gen::fieldName(r) }); break;
			case 5: t.SetOversignHeaders({ r.pick({ "from", "to" }) }); break;
			case 6: t.SetIdentity(gen::word(r)).SetSignBodyLength(r.below(10)); break;
			case 7: { DKIM::AdditionalSignaturesOptions& a = t.AddAdditionalSignature(); for (size_t n = r.below(5); n; --n) Sub::op(a, r); break; }
			default:
			{
				const ref::Key& key = r.chance(1, 2) ? *ref::rsaKeys()[r.below(2)] : ref::edKey((unsigned)r.below(8));
				dk::call([&] { t.SetPrivateKey(key.kind == ref::ED_KEY ? key.seed : r.chance(1, 2) ? key.pem : key.der64); });
			}
		}
	}
	static S show(const T& t)
	{
		S o = t.GetDomain() + "|" + t.GetSelector() + "|" + std::to_string((int)t.GetSignatureAlgorithm()) + "|" + der(t.GetRSAPrivateKey()) + "|" + hex(t.GetED25519PrivateKey()) + "|" + t.GetIdentity() + "|" + std::to_string(t.GetBodyLength());
		for (auto& h : t.GetHeaders()) o += h + ":";
		for (auto& h : t.GetOversignHeaders()) o += h + ";";
		for (auto& s : t.GetAdditionalSignatures()) o += "\n" + Sub::show(s);
		return o;
	}
};

struct Canon
{
	typedef DKIM::Conversion::CanonicalizationHeader T;
	static const char* name() { return "CanonicalizationHeader"; }
	static T* make() { return new T(DKIM::DKIM_C_SIMPLE); }
	static void op(T& t, Rng& r) { t.SetType(r.chance(1, 2) ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE); }
	static S show(const T& t) { return t.FilterHeader("SubJect :  a \r\n b "); }
};

struct Dns
{
	typedef DKIM::Util::Resolver T;
	static const char* name() { return "Resolver"; }
	static T* make() { return new T(); }
	static void op(T& t, Rng& r)
	{
		interpose::socket = r.chance(1, 2);
		interpose::dns = [&](const char*, unsigned char*, int, int& herr) { herr = NO_DATA; return -1; };
		S out;
		dk::call([&] { t.GetTXT("a.b", out); });
		interpose::dns = nullptr;
		interpose::socket = false;
	}
	static S show(const T& t)
	{
		// an answer gets through
		S out;
		interpose::dns = [&](const char* n, unsigned char* a, int len, int&) {
			Rng r(1);
			S p = dnspkt::build(r, dnspkt::reply(r, n, "text"));
			memcpy(a, p.data(), std::min((size_t)len, p.size()));
			return (int)p.size();
		};
		bool ok = false;
		dk::call([&] { ok = const_cast<T&>(t).GetTXT("a.b", out); });
		interpose::dnsDone();
		interpose::dns = nullptr;
		return ok ? out : S("failed");
	}
};

template <class E> struct Error
{
	typedef E T;
	static const char* name() { return std::is_same<E, DKIM::PermanentError>::value ? "PermanentError" : "TemporaryError"; }
	static T* make() { return new T("none"); }
	static void op(T& t, Rng& r)
	{
		static const DKIM::AR_CLASS cls[] = { DKIM::AR_NONE, DKIM::AR_PASS, DKIM::AR_FAIL, DKIM::AR_POLICY, DKIM::AR_NEUTRAL, DKIM::AR_TEMPERROR, DKIM::AR_PERMERROR };
		S msg = r.bytes(r.below(40));
		DKIM::AR_CLASS c = cls[r.below(7)];
		if (r.chance(1, 4)) t = E(msg);
		else try { throw E(msg, c); } catch (E e) { t = e; }
	}
	static S show(const T& t) { return S(t.what()) + "|" + const_cast<T&>(t).getAuthenticationResult(); }
};

extern "C" size_t __sanitizer_get_current_allocated_bytes();
static long bytes() { ERR_clear_error(); return (long)__sanitizer_get_current_allocated_bytes(); }

template <class K> static S history(Ctx& c, Rng& r)
{
	typedef typename K::T T;
	constexpr bool copies = std::is_copy_constructible<T>::value, assigns = std::is_copy_assignable<T>::value, moves = std::is_move_constructible<T>::value,
		moveAssigns = std::is_move_assignable<T>::value;
	const S name = K::name(), key = "copy-not-independent:" + name;
	if (!copies && !assigns && !moves && !moveAssigns) { c.ev(name + ": neither copied nor assigned"); return S(); }
	struct One { std::unique_ptr<T> t; Recipe how; bool moved = false; };
	std::vector<One> all;
	S hist = name;
	auto fresh = [&](const Recipe& how) {
		std::unique_ptr<T> t(K::make());
		for (uint64_t s : how) { Rng q(s); K::op(*t, q); }
		return t;
	};
	auto at = [](size_t i) { return std::to_string(i); };
	for (size_t n = 3 + r.below(14); n; --n)
	{
		size_t i = all.empty() ? 0 : r.below(all.size()), j = all.empty() ? 0 : r.below(all.size());
		bool can = !all.empty();
		switch (r.below(can ? 9 : 1))
		{
			case 0:
			{
				One o;
				o.t.reset(K::make());
				all.push_back(std::move(o));
				hist += " new";
				break;
			}
			case 1: case 2: case 3:
				if (all[i].moved || all[i].how.size() > 12) break;
				{
					uint64_t s = r.next();
					Rng q(s);
					K::op(*all[i].t, q);
					all[i].how.push_back(s);
					hist += " op" + at(i);
				}
				break;
			case 4:
				if constexpr (copies)
				{
					if (all[i].moved) break;
					One o;
					o.t.reset(new T(*(const T*)all[i].t.get()));
					o.how = all[i].how;
					all.push_back(std::move(o));
					hist += " copy" + at(i);
					c.ev(name + ": copies");
				}
				break;
			case 5: case 6:
				if constexpr (assigns)
				{
					if (all[j].moved) break;
					*all[i].t = *(const T*)all[j].t.get();
					all[i].how = all[j].how;
					all[i].moved = false;
					hist += " " + at(i) + "=" + at(j);
					c.ev(name + (i == j ? ": assignments to itself" : ": assignments"));
				}
				break;
			case 7:
				if (all[i].moved) break;
				if (r.chance(1, 2))
				{
					if constexpr (moves)
					{
						One o;
						o.t.reset(new T(std::move(*all[i].t)));
						o.how = all[i].how;
						all[i].moved = true;
						all.push_back(std::move(o));
						hist += " move" + at(i);
						c.ev(name + ": moves");
					}
				}
				else if (i != j)
				{
					if constexpr (moveAssigns)
					{
						*all[j].t = std::move(*all[i].t);
						all[j].how = all[i].how;
						all[j].moved = false;
						all[i].moved = true;
						hist += " " + at(j) + "=move" + at(i);
						c.ev(name + ": moves");
					}
				}
				break;
			default:
				all.erase(all.begin() + (long)i);
				hist += " del" + at(i);
		}
		for (size_t k = 0; k < all.size(); ++k)
		{
			if (all[k].moved) continue;
			S got = K::show(*all[k].t), want = K::show(*fresh(all[k].how));
			c.check(got == want, key.c_str(), [&] { return hist + "\nobject " + at(k) + " shows " + quote(got, 1500) + "\nalone it would show " + quote(want, 1500); });
			c.ev("objects compared");
		}
	}
	return hist;
}

template <class K> static void pool(Ctx& c)
{
	Rng again = c.r;
	S hist = history<K>(c, c.r);
	if (hist.empty()) return;
	c.nontrivial(hist + std::to_string(c.r.next()));
	c.state(hist);
	c.sample(hist);
	// the same again must give back all it took
	if (!c.r.chance(1, 3)) return;
	S twice;
	twice.reserve(hist.size() + 1);
	long before = bytes();
	{ Rng r = again; history<K>(c, r); }
	long left = bytes() - before;
	if (left) { before = bytes(); { Rng r = again; history<K>(c, r); } left = bytes() - before; }
	c.check(left == 0, "copies-leak", [&] { return hist + "\n" + std::to_string(left) + " bytes are left"; });
	c.ev("histories weighed");
}

// Additional signatures configured by copying options that are gone by the time of signing.
static void borrowed(Ctx& c)
{
	typedef DKIM::AdditionalSignaturesOptions A;
	if constexpr (std::is_copy_constructible<A>::value && std::is_copy_assignable<A>::value)
	{
		Rng& r = c.r;
		gen::Message m = gen::message(r, true);
		S text = m.text(&r, 0);
		gen::Cfg cfg = gen::config(r, m);
		if (cfg.sigs.size() < 2) cfg.sigs.push_back(cfg.sigs[0]);
		dk::KeyHold hold;
		S want, got;
		dk::Out w = dk::call([&] { DKIM::SignatoryOptions o; dk::apply(cfg, o, hold); want = dk::sign(text, o); });
		gen::Cfg first = cfg;
		first.sigs.resize(1);
		dk::Out g = dk::call([&] {
			DKIM::SignatoryOptions o;
			dk::apply(first, o, hold);
			bool used = r.chance(1, 2);
			std::list<A> store;
			for (size_t i = 1; i < cfg.sigs.size(); ++i)
			{
				std::unique_ptr<A> s(new A());
				dk::setKey(*s, cfg.sigs[i], hold);
				std::vector<A> v;
				if (r.chance(1, 2)) { v.push_back(*s); s.reset(); for (size_t n = r.below(4); n; --n) v.push_back(v.back()); }
				A& to = o.AddAdditionalSignature();
				if (used) { Rng q(r.next()); for (int n = 0; n < 4; ++n) Sub::op(to, q); }
				to = s ? *s : r.pick(v);
			}
			got = dk::sign(text, o);
		});
		c.check(w.cls == g.cls && got == want, "copied-options-sign-differently", [&] { return cfg.str() + "\ngot  " + g.cls + quote(got, 2000) + "\nwant " + w.cls + quote(want, 2000); });
		c.nontrivial(cfg.str());
		c.ev("signatures with copied options");
	}
}

// Signers and verifiers copied while in use.
static void users(Ctx& c)
{
	Rng& r = c.r;
	gen::Message m = gen::message(r, true);
	S rec, name;
	for (size_t n = 1 + r.below(2); n; --n)
	{
		gen::SignSpec s = gen::signSpec(r, m);
		bool rsa = r.chance(1, 2);
		s.key = rsa ? ref::rsaKeys()[r.below(2)] : &ref::edKey((unsigned)r.below(8));
		s.sha256 = !rsa || r.chance(1, 2);
		gen::signInto(r, m, r.below(m.fields.size() + 1), s);
		rec = gen::recordFor(r, *s.key);
	}
	S text = m.text(&r, (int)r.below(3));
	if (r.chance(1, 4)) text = hostile::damage(r, text);
	auto look = [&](DKIM::Validatory& v) {
		entry::Seen s;
		for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i)
		{
			DKIM::Signature sig;
			DKIM::PublicKey pub;
			dk::Out o = dk::call([&] { v.GetSignature(i, sig); });
			entry::add(s, o);
			if (!o.ok()) continue;
			entry::readSignature(s, sig);
			o = dk::call([&] { v.GetPublicKey(sig, pub); });
			entry::add(s, o);
			if (o.ok()) entry::add(s, dk::call([&] { v.CheckSignature(i, sig, pub); }));
		}
		return s.text;
	};
	std::istringstream in(text);
	std::unique_ptr<DKIM::Validatory> a;
	if (dk::call([&] { a.reset(new DKIM::Validatory(in)); }).ok())
	{
		a->CustomDNSResolver = [rec](const S&, S& out, void*) { out = rec; return true; };
		S want = look(*a);
		if constexpr (std::is_copy_constructible<DKIM::Validatory>::value)
		{
			DKIM::Validatory b(*(const DKIM::Validatory*)a.get());
			c.check(look(b) == want, "copied-verifier-differs", [&] { return quote(text, 3000); });
			if (r.chance(1, 2)) a.reset(); else c.check(look(*a) == want, "verifier-differs-after-copying", [&] { return quote(text, 3000); });
			c.check(look(b) == want, "copied-verifier-differs", [&] { return quote(text, 3000); });
			c.ev("copied verifiers compared");
		}
	}
	in.clear();
	in.seekg(0);
	gen::Cfg cfg = gen::config(r, m);
	DKIM::SignatoryOptions o;
	dk::KeyHold hold;
	dk::apply(cfg, o, hold);
	std::unique_ptr<DKIM::Signatory> g(new DKIM::Signatory(in));
	auto sign = [&](DKIM::Signatory& s) { S out; dk::Out x = dk::call([&] { out = s.CreateSignature(o); }); return x.cls + out; };
	S want = sign(*g);
	if constexpr (std::is_copy_constructible<DKIM::Signatory>::value)
	{
		DKIM::Signatory h(*(const DKIM::Signatory*)g.get());
		if (r.chance(1, 2)) g.reset();
		S got = sign(h);
		c.check(got == want, "copied-signer-differs", [&] { return quote(text, 3000) + "\n" + cfg.str() + "\ngot  " + quote(got, 1000) + "\nwant " + quote(want, 1000); });
		if (g) c.check(sign(*g) == want, "signer-differs-after-copying", [&] { return quote(text, 3000); });
		c.ev("copied signers compared");
	}
	c.nontrivial(text);
}

void mon::run(Ctx& c)
{
	switch (c.r.below(17))
	{
		case 0: case 1: pool<Record>(c); break;
		case 2: pool<Sig>(c); break;
		case 3: pool<Tags>(c); break;
		case 4: pool<Tag>(c); break;
		case 5: pool<Field>(c); break;
		case 6: case 7: pool<Mail>(c); break;
		case 8: case 9: pool<Sub>(c); break;
		case 10: pool<Options>(c); break;
		case 11: pool<Canon>(c); break;
		case 12: pool<Dns>(c); break;
		case 13: pool<Error<DKIM::PermanentError>>(c); break;
		case 14: pool<Error<DKIM::TemporaryError>>(c); break;
		case 15: borrowed(c); break;
		default: users(c);
	}
}
