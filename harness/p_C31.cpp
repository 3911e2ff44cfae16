// C31: when memory runs out or a library call fails, the operation fails, too; nothing comes out wrong.
#include "frozen.hpp"
#include "hostile.hpp"
#include <algorithm>
#include <cstdlib>
#include <new>
#include <openssl/err.h>
extern "C" int __lsan_do_recoverable_leak_check();
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"An operation (sign, verify, load keys, any parser or codec, on valid and hostile input) is run once while its memory allocations and its calls into OpenSSL, "
	"libsodium and the resolver set-up are counted, then again and again with one of them failing, or all from there on (every crypto call; every allocation or "
	"a sample of them). The outcome must be an error or the one without the fault, and that one again afterwards; the bytes in use must return to the same "
	"level. Non-trivial: distinct (operation, fault) of which the fault was hit.";
uint64_t mon::cases(bool th) { return th ? 20000 : 360; }
unsigned mon::cpu_limit() { return 120; }

// --- the allocator of C++ ---
// the callers of the allocation being traced
static unsigned long stacks[1 << 16];
static char* stackTop;
__attribute__((no_sanitize("address", "undefined"), noinline)) static unsigned long callers()
{
	unsigned long h = 14695981039346656037ul;
	void** fp = (void**)__builtin_frame_address(0);
	for (int k = 0; k < 40; ++k)
	{
		if ((char*)fp < (char*)&fp || (char*)fp >= stackTop - 16 || ((unsigned long)fp & 7)) break;
		h = (h ^ (unsigned long)fp[1]) * 1099511628211ul;
		void** up = (void**)fp[0];
		if (up <= fp) break;
		fp = up;
	}
	return h;
}

static void* allocate(size_t n, bool mayThrow)
{
	interpose::Fault& f = interpose::fault;
	if (f.armed && f.trace && f.n < f.room) stacks[f.n] = callers();
	if (interpose::step("operator new")) { if (mayThrow) throw std::bad_alloc(); return nullptr; }
	void* p = malloc(n ? n : 1);
	if (!p && mayThrow) throw std::bad_alloc();
	return p;
}
void* operator new(size_t n) { return allocate(n, true); }
void* operator new[](size_t n) { return allocate(n, true); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return allocate(n, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return allocate(n, false); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }

static void arm(bool on) { interpose::fault.armed = on; }

// The outcome of an operation: "!" is an error of any kind, everything else is a result.
typedef std::vector<S> Result;

static S show(const Result& r) { S o; for (auto& x : r) o += "[" + quote(x, 300) + "] "; return o; }

// An error instead of a result is allowed, and what follows an error may be missing.
static bool allowed(const Result& got, const Result& want)
{
	for (size_t i = 0; i < got.size(); ++i)
	{
		if (got[i] == "!") continue;
		if (i >= want.size() || got[i] != want[i]) return false;
	}
	if (got.size() == want.size()) return true;
	return !got.empty() && got.back() == "!";
}

struct Op
{
	S name, ctx;
	std::function<Result()> run;
};

static long bytes() { ERR_clear_error(); return (long)__sanitizer_get_current_allocated_bytes(); }

static void campaign(Ctx& c, const Op& op, size_t sample)
{
	interpose::Fault& f = interpose::fault;
	f = interpose::Fault();
	Result want = op.run();
	op.run();
	static const char* names[1 << 16];
	f = interpose::Fault();
	f.trace = names;
	f.room = 1 << 16;
	Result again = op.run();
	long total = f.n;
	f = interpose::Fault();
	c.check(again == want, "unstable", [&] { return op.name + "\n" + show(want) + "\n" + show(again) + "\n" + op.ctx; });
	if (!total) { c.ev("operations without a fallible call"); return; }
	// calls to other libraries are all tried, allocations up to the sample
	std::vector<long> at, mem;
	for (long k = 0; k < total; ++k) (k < (1 << 16) && S(names[k]) != "operator new" ? at : mem).push_back(k);
	c.ev("fallible calls counted", (uint64_t)total);
	// first those reached in a new way
	static std::set<unsigned long> tried;
	c.r.shuffle(mem);
	std::vector<long> known;
	std::vector<long> fresh;
	for (long k : mem)
	{
		unsigned long w = k < (1 << 16) ? hash(op.name) ^ stacks[k] : 0;
		bool isNew = fresh.size() < 2 * sample && tried.insert(w).second;
		(isNew ? fresh : known).push_back(k);
	}
	c.ev("allocations reached in a new way", fresh.size());
	sample = std::max(fresh.size(), sample / 2);
	mem = fresh;
	mem.insert(mem.end(), known.begin(), known.end());
	if (c.verbose) sample = mem.size();	// a single case: what was tried before is not known
	if (mem.size() > sample) mem.resize(sample);
	at.insert(at.end(), mem.begin(), mem.end());
	for (long k : at)
	{
		uint64_t coin = hash(std::to_string(k) + op.ctx);
		bool forGood = coin % 4 == 0;
		int negative = (int)(coin >> 10) % 2;
		long grown = 0;
		for (int round = 0; round < 4; ++round)
		{
			Result got;
			long b0 = bytes();
			{
				f = interpose::Fault();
				f.at = k;
				f.forGood = forGood;
				f.negative = negative;
				got = op.run();
			}
			bool hit = f.hits > 0;
			S what = f.hit ? f.hit : "";
			f = interpose::Fault();
			auto say = [&] {
				return op.name + ": " + what + " number " + std::to_string(k) + " of " + std::to_string(total) + " fails" + (forGood ? " and all behind it" : "")
					+ "\n got " + show(got) + "\nwant " + show(want) + "\n" + op.ctx; };
			c.check(allowed(got, want), ("wrong-result-when-" + what + "-fails").c_str(), say);
			if (!hit) { c.ev("fault not reached"); break; }
			if (round == 0)
			{
				c.ev("fault: " + what);
				c.ev(got == want ? "fault without consequence" : "fault reported");
				c.nontrivial(op.name + std::to_string(k) + (forGood ? "+" : "") + op.ctx);
				Result after = op.run();
				c.check(after == want, ("lasting-damage-when-" + what + "-fails").c_str(), [&] { return "afterwards " + show(after) + "\n" + say(); });
				got.clear();
				after.clear();
				continue;
			}
			Result().swap(got);
			S().swap(what);
			long b1 = bytes();
			if (b1 <= b0) break;
			grown = b1 - b0;
			if (round == 3 && c.verbose) __lsan_do_recoverable_leak_check();
			if (round == 3)
				c.check(false, (S("leak-when-") + "a-call-fails").c_str(), [&] { return std::to_string(grown) + " bytes left behind each time\n" + say(); });
		}
	}
	c.ev("operation: " + op.name);
}

// --- operations ---
static Result entryOp(const entry::Input& in)
{
	entry::Seen s = entry::run(in);
	Result r;
	bool bad = false;
	for (auto& o : s.outs) if (!o.ok()) bad = true;
	// with an error the rest of the text is open
	r.push_back(bad || (in.which == entry::PACKET && s.text.find("failed|") != S::npos) ? S("!") : s.text);
	return r;
}

static Result signOp(const S& text, const gen::Cfg& cfg)
{
	S out;
	dk::KeyHold hold;
	dk::Out o = dk::call([&] {
		DKIM::SignatoryOptions opt;
		dk::apply(cfg, opt, hold);
		out = dk::sign(text, opt);
	});
	return { o.ok() ? out : S("!") };
}

// every signature of the message; one result for the lookup of the fields, then per signature what was read and the verdict
static Result verifyOp(const S& text, bool arc, dk::Dns& dns)
{
	Result r;
	std::istringstream in(text);
	std::unique_ptr<DKIM::Validatory> v;
	dk::Out o = dk::call([&] { v.reset(new DKIM::Validatory(in, arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM)); });
	r.push_back(o.ok() ? std::to_string(v->GetSignatures().size()) : S("!"));
	if (!o.ok()) return r;
	bool armed = dk::around != nullptr;
	v->CustomDNSResolver = [&dns, armed](const S& n, S& t, void* d) {
		if (armed) arm(false);
		bool k = dns(n, t, d);
		dns.asked.clear();
		if (armed) arm(true);
		return k;
	};
	for (auto i = v->GetSignatures().begin(); i != v->GetSignatures().end(); ++i)
	{
		DKIM::Signature sig;
		DKIM::PublicKey pub;
		entry::Seen s;
		o = dk::call([&] { v->GetSignature(i, sig); });
		if (o.ok()) entry::readSignature(s, sig);
		r.push_back(o.ok() ? s.text : S("!"));
		entry::Seen p;
		dk::Out o2 = o;
		if (o.ok()) o2 = dk::call([&] { v->GetPublicKey(sig, pub); });
		if (o2.ok()) entry::readRecord(p, pub);
		r.push_back(o2.ok() ? p.text : S("!"));
		dk::Out o3 = o2;
		if (o2.ok()) o3 = dk::call([&] { v->CheckSignature(i, sig, pub); });
		r.push_back(o3.ok() ? S("pass") : S("!"));
		dk::Out o4 = o;
		if (o.ok()) o4 = dk::call([&] { v->CheckBodyHash(sig); });
		r.push_back(o4.ok() ? S("body hash") : S("!"));
	}
	return r;
}

void mon::begin(Ctx&)
{
	dk::around = arm;
	int here;
	stackTop = (char*)&here + 4096;
	for (auto k : ref::rsaKeys()) (void)k->record();
	for (unsigned i = 0; i < 8; ++i) ref::edKey(i);
}

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	size_t sample = c.thorough ? 2000 : 60;
	Op op;
	gen::Message m;
	gen::Cfg cfg;
	S text;
	dk::Dns dns;
	entry::Input in;
	bool arc = false;
	size_t kind = r.below(8);
	if (kind < 5)
	{
		m = gen::message(r, true);
		if (m.body.size() > 3000) m.body.resize(3000);
		cfg = gen::config(r, m, r.chance(1, 3));
		cfg.hasX = false;
		cfg.hasL = false;
		if (cfg.sigs.size() == 1 && !cfg.arc && r.chance(1, 3)) cfg.identity = "user@sub." + cfg.sigs[0].domain;
		text = m.text(&r, (int)r.below(3));
	}
	if (kind < 2)
	{
		op.name = "sign";
		op.run = [&] { return signOp(text, cfg); };
		op.ctx = cfg.str() + "\n" + quote(text, 2000);
	}
	else if (kind < 5)
	{
		interpose::fault = interpose::Fault();
		S sig;
		dk::Out o = dk::call([&] { sig = dk::sign(text, cfg); });
		c.check(o.ok(), "refused", [&] { return o.what + cfg.str(); });
		arc = cfg.arc != 0;
		dns = dk::zoneFor(cfg);
		for (auto& k : cfg.sigs) if (r.chance(2, 3)) dns.zone[dk::keyName(k)].second = gen::recordFor(r, *k.key);
		S good = sig + "\r\n" + text;
		op.name = "verify";
		switch (kind == 2 ? 0 : r.below(7))
		{
			case 0: text = good; break;
			case 1:		// body changed
			{
				size_t b = good.find("\r\n\r\n");
				text = good + "changed\r\n";
				if (b == S::npos) text = good + "\r\n\r\nchanged\r\n";
				op.name = "verify changed body";
				break;
			}
			case 2:
			{
				size_t f = ref::lower(text).find("from");
				text.insert(f + 4 < text.size() ? text.find(':', f) + 1 : 0, "x");
				text = sig + "\r\n" + text;
				op.name = "verify changed header";
				break;
			}
			case 3:
				for (auto& z : dns.zone) z.second.second = (z.second.second.find("ed25519") != S::npos ? ref::edKey(7) : ref::rsaKey("a")).record();
				text = good;
				op.name = "verify with another key";
				break;
			case 4: case 5:	// the record restricts the key
				for (auto& z : dns.zone)
				{
					S& t = z.second.second;
					bool h = r.chance(1, 3);
					if (h && t.find("h=") != S::npos) h = false;
					if (h) t = S(cfg.sha256 ? "h=sha1" : "h=sha256") + ":some-other-hash;" + t;
					else if (t.find("t=") == S::npos) t = S(r.pick({ "t=s;", "t=y:s; ", "t=a-long-unknown-flag:s;" })) + t;
					if (t.find("v=DKIM1") != S::npos && t.find("v=DKIM1") > 0) { size_t p = t.find("v=DKIM1"); t.erase(p, 7); if (p < t.size() && t[p] == ';') t.erase(p, 1); t = "v=DKIM1;" + t; }
				}
				text = good;
				op.name = "verify with a restricted key";
				break;
			default: text = hostile::damage(r, good); op.name = "verify damaged"; break;
		}
		// right behind the verification of the unchanged message: what is left on the stack and the heap is the right hash
		op.run = [&, good] {
			interpose::Fault keep = interpose::fault;
			interpose::fault = interpose::Fault();
			dk::around = nullptr;
			dk::Dns z = dk::zoneFor(cfg);
			verifyOp(good, arc, z);
			dk::around = arm;
			interpose::fault = keep;
			return verifyOp(text, arc, dns);
		};
		op.ctx = cfg.str() + "\n" + quote(text, 3000);
	}
	else
	{
		do in = hostile::any(r);
		while (in.which <= entry::VERIFY_DNS || in.which == entry::SIGN || in.a.size() + in.b.size() > 6000);
		op.name = entry::name(in.which);
		op.run = [&] { return entryOp(in); };
		op.ctx = "opt " + std::to_string(in.opt) + "\na " + quote(in.a, 2000) + "\nb " + quote(in.b, 2000);
	}
	campaign(c, op, sample);
	c.state(op.name);
}
