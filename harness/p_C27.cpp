// C27: nothing is left behind, nothing is freed that belongs to the caller.
#include "frozen.hpp"
#include "hostile.hpp"
#include "streams.hpp"
#include <dirent.h>
#include <openssl/err.h>
#include <openssl/rsa.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Each operation (any entry point on hostile input, reused objects, failing streams, lookups that leave a socket, histories of key setters and copies) "
	"is repeated after a warm-up and the allocator's bytes in use and the open descriptors are compared at quiescent points; RSA objects handed over are "
	"watched through their destructor callback against a model of who owns them. Non-trivial: distinct operations.";
uint64_t mon::cases(bool th) { return th ? 600000 : 12000; }

static size_t fds()
{
	size_t n = 0;
	DIR* d = opendir("/proc/self/fd");
	if (!d) return 0;
	while (readdir(d)) ++n;
	closedir(d);
	return n;
}

static size_t bytes()
{
	ERR_clear_error();
	return __sanitizer_get_current_allocated_bytes();
}

// Growth in every one of several windows is a leak; growth in some is a cache being filled.
static void watch(Ctx& c, const char* key, const std::function<void()>& op, const std::function<S()>& ctx)
{
	op();
	op();
	size_t f0 = fds(), b = bytes();
	long grown[4];
	bool always = true;
	unsigned reps = 2;
	for (int w = 0; w < 4 && always; ++w)
	{
		for (unsigned i = 0; i < reps; ++i) op();
		size_t n = bytes();
		grown[w] = (long)n - (long)b;
		if (grown[w] <= 0) always = false;
		b = n;
		c.ev("windows measured");
		c.ev("repetitions", reps);
	}
	size_t f1 = fds();
	c.check(!always, (S("memory-") + key).c_str(), [&] {
		return "bytes left by " + std::to_string(reps) + " repetitions: " + std::to_string(grown[0]) + " " + std::to_string(grown[1]) + " " + std::to_string(grown[2]) + " " + std::to_string(grown[3]) + "\n" + ctx(); });
	c.check(f1 == f0, (S("descriptors-") + key).c_str(), [&] { return std::to_string(f0) + " descriptors before, " + std::to_string(f1) + " after\n" + ctx(); });
	c.ev("descriptor tables compared");
}

static void anyEntry(Ctx& c)
{
	entry::Input in = hostile::any(c.r);
	interpose::socket = c.r.chance(1, 2);
	watch(c, "entry", [&] { entry::run(in); },
		[&] { return S(entry::name(in.which)) + " opt " + std::to_string(in.opt) + "\na " + quote(in.a, 3000) + "\nb " + quote(in.b, 2000); });
	interpose::socket = false;
	c.ev(S("entry: ") + entry::name(in.which));
	c.nontrivial(entry::pack(in));
}

static void reuse(Ctx& c)
{
	Rng& r = c.r;
	std::vector<S> in;
	size_t n = 2 + r.below(5);
	S hist;
	switch (r.below(4))
	{
		case 0:
		{
			std::vector<bool> reset;
			for (size_t i = 0; i < n; ++i) { in.push_back(hostile::record(r, r.chance(1, 2))); reset.push_back(r.chance(1, 3)); }
			watch(c, "key object reused", [&] { DKIM::PublicKey p; for (size_t i = 0; i < n; ++i) { dk::call([&] { p.Parse(in[i]); }); if (reset[i]) p.Reset(); } },
				[&] { S o; for (auto& x : in) o += quote(x, 500) + "\n"; return o; });
			c.ev("reuse: key object");
			break;
		}
		case 1:
		{
			std::vector<std::shared_ptr<DKIM::Header>> h;
			for (size_t i = 0; i < n; ++i)
			{
				S t = sigtext::layout(r, "DKIM-Signature", sigtext::tags(r, false, gen::domain(r)));
				if (r.chance(1, 2)) t = hostile::damage(r, t);
				in.push_back(t);
				h.push_back(std::make_shared<DKIM::Header>());
				std::stringstream l(t);
				S line;
				dk::call([&] { while (std::getline(l, line)) h.back()->ParseLine(line); });
			}
			watch(c, "signature object reused", [&] { DKIM::Signature g; for (auto& x : h) dk::call([&] { g.Parse(x); }); },
				[&] { S o; for (auto& x : in) o += quote(x, 500) + "\n"; return o; });
			c.ev("reuse: signature object");
			break;
		}
		case 2:
		{
			gen::Message m = gen::message(r, true);
			gen::Cfg cfg = gen::config(r, m);
			S text = m.text(&r, 0);
			if (r.chance(1, 3)) text = hostile::damage(r, text);
			watch(c, "signer reused", [&] {
				dk::KeyHold hold;
				DKIM::SignatoryOptions o;
				dk::apply(cfg, o, hold);
				std::istringstream s(text);
				dk::call([&] { DKIM::Signatory g(s); g.CreateSignature(o); g.CreateSignature(o); });
			}, [&] { return cfg.str() + "\n" + quote(text, 2000); });
			in.push_back(text + cfg.str());
			c.ev("reuse: signer");
			break;
		}
		default:
		{
			entry::Input v = hostile::verification(r);
			if (v.which == entry::VERIFY_DNS) v.which = entry::VERIFY;
			watch(c, "verifier reused", [&] {
				std::istringstream s(v.a);
				dk::call([&] {
					DKIM::Validatory d(s, v.which == entry::VERIFY_ARC ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
					d.CustomDNSResolver = [&](const S&, S& out, void*) { out = v.b; return true; };
					DKIM::Signature g;
					DKIM::PublicKey p;
					for (int k = 0; k < 2; ++k)
						for (auto i = d.GetSignatures().begin(); i != d.GetSignatures().end(); ++i)
							dk::call([&] { d.GetSignature(i, g); d.GetPublicKey(g, p); d.CheckSignature(i, g, p); });
				});
			}, [&] { return quote(v.a, 3000) + "\nrecord " + quote(v.b, 500); });
			in.push_back(entry::pack(v));
			c.ev("reuse: verifier");
		}
	}
	S all;
	for (auto& x : in) all += x + "\n";
	c.nontrivial(all);
}

static void faults(Ctx& c)
{
	Rng& r = c.r;
	gen::Message m = gen::message(r, true);
	gen::SignSpec s = gen::signSpec(r, m);
	s.key = r.chance(1, 2) ? ref::rsaKeys()[r.below(2)] : &ref::edKey((unsigned)r.below(8));
	s.sha256 = true;
	gen::signInto(r, m, r.below(m.fields.size() + 1), s);
	S text = m.text(&r, 0);
	long at = (long)r.below(text.size());
	long seek = r.chance(1, 3) ? (long)r.below(3) : -1;
	entry::Input in;
	in.which = r.chance(1, 2) ? entry::SIGN : s.arc ? entry::VERIFY_ARC : entry::VERIFY;
	in.opt = (unsigned)r.below(64);
	in.a = text;
	if (in.which != entry::SIGN) in.b = s.key->record();
	unsigned long hit = 0;
	watch(c, "failing stream", [&] {
		streams::Buf buf(text);
		buf.chunk = 100;
		if (seek >= 0) buf.failSeek = seek; else buf.failAt = at;
		std::istream is(&buf);
		entry::run(in, &is);
		hit += buf.faults + buf.seekFaults;
	}, [&] { return S(entry::name(in.which)) + ", fault at " + std::to_string(at) + " seek " + std::to_string(seek) + "\n" + quote(text, 2000); });
	c.ev("faults injected", hit);
	c.nontrivial(text + std::to_string(at) + std::to_string(seek));
}

// --- who owns an RSA object ---
struct Watched { RSA* k; bool freed = false; bool callers; unsigned id; };
static int exIndex = -1;
static void onFree(void*, void* ptr, CRYPTO_EX_DATA*, int, long, void*) { if (ptr) ((Watched*)ptr)->freed = true; }

struct Slot { Watched* k = nullptr; bool own = true; };

static void ownership(Ctx& c)
{
	Rng& r = c.r;
	if (exIndex < 0) exIndex = RSA_get_ex_new_index(0, nullptr, nullptr, nullptr, onFree);
	std::vector<std::unique_ptr<Watched>> keys;
	S hist;
	auto fresh = [&](bool callers) {
		const ref::Key& k = *ref::rsaKeys()[0];
		RSA* x = EVP_PKEY_get1_RSA((EVP_PKEY*)k.pkey);
		RSA* d = RSAPrivateKey_dup(x);
		RSA_free(x);
		keys.emplace_back(new Watched);
		Watched* w = keys.back().get();
		w->k = d;
		w->callers = callers;
		w->id = (unsigned)keys.size();
		RSA_set_ex_data(d, exIndex, w);
		return w;
	};
	const ref::Key& other = *ref::rsaKeys()[r.below(2)];
	auto ctx = [&] { return "history:" + hist; };
	{
		std::unique_ptr<DKIM::SignatoryOptions> o(new DKIM::SignatoryOptions);
		Slot primary;
		std::vector<std::pair<DKIM::AdditionalSignaturesOptions*, Slot>> add;	// inside the options
		std::list<std::pair<DKIM::AdditionalSignaturesOptions, Slot>> own;	// copies of the caller
		auto audit = [&](const char* when) {
			for (auto& w : keys)
			{
				bool held = w->callers;
				if (o && primary.k == w.get() && primary.own) held = true;
				if (o) for (auto& a : add) if (a.second.k == w.get() && a.second.own) held = true;
				for (auto& a : own) if (a.second.k == w.get() && a.second.own) held = true;
				c.check(!(held && w->freed), "key-freed-while-owned", [&] { return S(when) + ": key " + std::to_string(w->id) + (w->callers ? " of the caller" : "") + " was freed\n" + ctx(); });
				c.check(held || w->freed, "key-not-freed", [&] { return S(when) + ": key " + std::to_string(w->id) + " has no owner left\n" + ctx(); });
				c.ev("key objects audited");
			}
		};
		auto use = [&](const std::function<RSA*()>& get, const Slot& s, const char* what) {
			if (!s.k || s.k->freed) return;
			c.check(get() == s.k->k, "another-key-object", [&] { return S(what) + "\n" + ctx(); });
		};
		size_t n = 2 + r.below(14);
		for (size_t i = 0; i < n; ++i)
		{
			size_t k = r.below(add.size() + own.size() + 1);
			std::list<std::pair<DKIM::AdditionalSignaturesOptions, Slot>>::iterator oi = own.begin();
			Slot* s;
			DKIM::AdditionalSignaturesOptions* a = nullptr;
			S name;
			if (k == 0) { s = &primary; name = "primary"; }
			else if (k <= add.size()) { s = &add[k - 1].second; a = add[k - 1].first; name = "additional" + std::to_string(k); }
			else { std::advance(oi, (long)(k - 1 - add.size())); s = &oi->second; a = &oi->first; name = "copy" + std::to_string(k - add.size()); }
			switch (r.below(10))
			{
				case 8:	// the same object again, perhaps passed on or taken back
				{
					if (!s->k || s->k->freed) break;
					size_t users = 0;
					if (primary.k == s->k) ++users;
					for (auto& x : add) users += x.second.k == s->k;
					for (auto& x : own) users += x.second.k == s->k;
					bool give = s->own || (users == 1 && r.chance(1, 2));
					if (s->own && r.chance(1, 3)) give = false;
					hist += " " + name + (give ? "=key " : "=caller's key ") + std::to_string(s->k->id) + " again";
					if (a) a->SetRSAPrivateKey(s->k->k, give); else o->SetRSAPrivateKey(s->k->k, give);
					if (give != s->own) s->k->callers = !give;
					s->own = give;
					c.ev("same key object set again");
					break;
				}
				case 0: case 1:
				{
					bool mine = r.chance(1, 2);
					Watched* w = fresh(mine);
					hist += " " + name + (mine ? "=caller's key " : "=key ") + std::to_string(w->id);
					if (a) a->SetRSAPrivateKey(w->k, !mine); else o->SetRSAPrivateKey(w->k, !mine);
					*s = Slot { w, !mine };
					break;
				}
				case 2:
				{
					bool bad = r.chance(1, 2);
					S t = bad ? S(r.chance(1, 2) ? keys::ec256 : "AAAA") : r.chance(1, 2) ? other.pem : other.der64;
					hist += " " + name + (bad ? "=unusable text" : "=text");
					dk::Out x = dk::call([&] { if (a) a->SetPrivateKey(t); else o->SetPrivateKey(t); });
					c.check(x.ok() == !bad, "key-text", ctx);
					if (!bad) *s = Slot();
					break;
				}
				case 3:
					hist += " " + name + "=none";
					if (a) a->SetRSAPrivateKey(nullptr, true); else o->SetRSAPrivateKey(nullptr, true);
					*s = Slot();
					break;
				case 4:
					hist += " add";
					add.push_back({ &o->AddAdditionalSignature(), Slot() });
					break;
				case 5:
					if (!a) break;
					hist += " copy of " + name;
					own.push_back({ *a, *s });
					break;
				case 6:
				{
					if (!a || add.empty()) break;
					size_t j = r.below(add.size());
					hist += " additional" + std::to_string(j + 1) + ":=" + name;
					DKIM::AdditionalSignaturesOptions& to = *add[j].first;
					to = *a;
					Slot v = *s;
					add[j].second = v;
					break;
				}
				case 7:
					if (own.empty()) break;
					hist += " drop a copy";
					own.pop_front();
					break;
				default:
				{
					hist += " sign";
					o->SetDomain("example.org").SetSelector("s");
					for (auto& x : add) x.first->SetDomain("example.org").SetSelector("s");
					std::istringstream m("From: a@b.c\r\n\r\nx\r\n");
					dk::call([&] { DKIM::Signatory(m).CreateSignature(*o); });
				}
			}
			audit("in between");
			use([&] { return o->GetRSAPrivateKey(); }, primary, "primary");
			for (auto& x : add) use([&] { return x.first->GetRSAPrivateKey(); }, x.second, "additional");
		}
		if (r.chance(1, 2)) { o.reset(); hist += " options gone"; audit("options gone"); }
		own.clear();
		o.reset();
		hist += " all gone";
		audit("all gone");
	}
	for (auto& w : keys)
		if (w->callers)
		{
			c.check(!w->freed, "callers-key-freed", ctx);
			RSA_free(w->k);
			c.check(w->freed, "reference-to-callers-key-kept", ctx);
			c.ev("caller's keys audited at the end");
		}
	c.ev("ownership histories");
	c.nontrivial(hist);
	if (c.idx < 60) c.sample(hist.substr(0, 300));
}

void mon::run(Ctx& c)
{
	switch (c.r.below(6))
	{
		case 0: case 1: anyEntry(c); break;
		case 2: reuse(c); break;
		case 3: faults(c); break;
		default: ownership(c);
	}
}
