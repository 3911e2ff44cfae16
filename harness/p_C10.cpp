// C10: expiry, under a clock the monitor controls.
#include "dk.hpp"
#include "sigtext.hpp"
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"time(), gettimeofday() and clock_gettime() are replaced by a clock of the monitor. The same field is parsed at clock values before, at and "
	"behind x= (small and huge, up to and beyond 64 bits), complete signatures are verified at moving times, and signatures are made with "
	"absolute and relative expiry while the clock ticks on every call. Non-trivial: distinct (field, time) pairs.";
uint64_t mon::cases(bool th) { return th ? 1000000 : 40000; }

static bool fake = false;
static long now_ = 0, tick = 0;
static unsigned long asked = 0;
static long clockValue()
{
	++asked;
	long t = now_;
	now_ += tick;
	return t;
}
extern "C" time_t time(time_t* t) noexcept
{
	time_t v;
	if (fake) v = clockValue();
	else { timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
	if (t) *t = v;
	return v;
}
extern "C" int clock_gettime(clockid_t id, timespec* ts) noexcept
{
	if (fake && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI)) { ts->tv_sec = clockValue(); ts->tv_nsec = 0; return 0; }
	return (int)syscall(SYS_clock_gettime, id, ts);
}
extern "C" int gettimeofday(timeval* tv, void*) noexcept
{
	if (fake) { tv->tv_sec = clockValue(); tv->tv_usec = 0; return 0; }
	timespec ts;
	syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
struct Fake
{
	Fake(long t, long step = 0) { now_ = t; tick = step; fake = true; }
	~Fake() { fake = false; }
};

static long someTime(Rng& r)
{
	switch (r.below(6))
	{
		case 0: return 1 + (long)r.below(1000);
		case 1: return 2147483648l + r.range(-3, 3);
		case 2: return 4294967296l + r.range(-3, 3);
		case 3: return 253402300800l + r.range(-3, 3);
		case 4: return (long)(r.next() >> (1 + r.below(40)) >> 1);
		default: return 1500000000l + (long)r.below(1000000000);
	}
}

static void verifier(Ctx& c)
{
	Rng& r = c.r;
	bool arc = r.chance(1, 4);
	S d = gen::domain(r);
	sigtext::Tags tags = sigtext::tags(r, arc, d);
	long x = someTime(r);
	S xs = std::to_string(x);
	bool number = true, huge = false;
	switch (r.below(6))
	{
		case 0: xs = S(r.below(4), '0') + xs; break;
		case 1: xs = r.pick({ "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999", "9999999999999999999999999999999999", "18446744073709551617" }); huge = true; break;
		case 2: xs = r.pick({ "", "abc", "-1", "1e9", "0x7fffffff", "99999999999a", "1 2", "+99999999999", "99999999999.5", "99999999999,", "=", "a99999999999" }); number = false; break;
		case 3: x = 0; xs = "0"; break;
		default: break;
	}
	tags.push_back({ "x", xs });
	r.shuffle(tags);
	S f = sigtext::layout(r, arc ? "ARC-Message-Signature" : "DKIM-Signature", tags);
	std::istringstream in(f + "\r\n\r\n");
	DKIM::Message msg;
	while (msg.ParseLine(in) && !msg.IsDone()) {}
	auto h = msg.GetHeaders().front();
	std::unique_ptr<DKIM::Signature> kept(new DKIM::Signature);
	// the verdict follows the clock at each parse
	for (int i = 0; i < 5; ++i)
	{
		long t;
		switch (r.below(4))
		{
			case 0: t = x + r.range(-2, 2); break;
			case 1: t = someTime(r); break;
			case 2: t = x; break;
			default: t = x / 2 + (long)r.below(1000) ;
		}
		if (t < 0) t = 0;
		bool ok = number && (huge || x >= t);
		if (huge && t > 0x7ffffffffffffff0l) t = 1700000000;
		DKIM::Signature own;
		DKIM::Signature& sig = r.chance(1, 2) ? own : *kept;
		sig.Reset();
		dk::Out o;
		{
			Fake fk(t);
			o = dk::call([&] { sig.Parse(h); });
		}
		auto ctx = [&] { return "x=" + xs + " at " + std::to_string(t) + ": " + o.cls + " " + o.what + "\n" + quote(f, 2000); };
		if (ok) c.check(o.ok(), "unexpired-signature-refused", ctx);
		else
		{
			c.check(!o.ok(), number ? "expired-signature-accepted" : "invalid-expiry-accepted", ctx);
			c.check(o.cls == "permerror", "wrong-class", ctx);
		}
		c.ev(!number ? "not a number, refused" : ok ? (x == t && !huge ? "expiring just now, accepted" : "unexpired, accepted") : "expired, refused");
		c.nontrivial(f + std::to_string(t));
	}
}

// real signatures, moving time
static void whole(Ctx& c)
{
	Rng& r = c.r;
	gen::Message m = gen::message(r, true);
	gen::SignSpec s = gen::signSpec(r, m);
	if (s.key->kind == ref::RSA_KEY) s.key = ref::rsaKeys()[r.below(2)];
	long x = 1000 + (long)(r.next() >> (24 + r.below(16)));
	s.x = std::to_string(x);
	gen::signInto(r, m, 0, s);
	S text = m.text();
	dk::Dns dns;
	dns.zone[s.s + "._domainkey." + ref::lower(s.d)] = { 0, s.key->record() };
	std::istringstream in(text);
	DKIM::Validatory v(in, s.arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
	v.CustomDNSResolver = std::ref(dns);
	for (int i = 0; i < 3; ++i)
	{
		long t = r.chance(1, 2) ? x - (long)r.below(1000) : x + 1 + (long)r.below(1000);
		dk::Out o;
		{
			Fake fk(t);
			o = dk::verify(v, v.GetSignatures().begin());
		}
		S want = t <= x ? "pass" : "permerror";
		c.check(o.cls == want, "verdict-at-time", [&] { return "x=" + s.x + " at " + std::to_string(t) + ": " + o.cls + " " + o.what + " instead of " + want + "\n" + quote(text, 3000); });
		c.ev("complete verifications: " + o.cls);
	}
	c.nontrivial(text);
}

static void signer(Ctx& c)
{
	Rng& r = c.r;
	gen::Message m = gen::message(r, true);
	gen::Cfg cfg = gen::config(r, m);
	for (auto& s : cfg.sigs) if (s.key->kind == ref::RSA_KEY) s.key = ref::rsaKeys()[r.below(2)];
	cfg.hasT = cfg.hasX = false;
	dk::KeyHold hold;
	DKIM::SignatoryOptions o;
	dk::apply(cfg, o, hold);
	bool withT = r.chance(2, 3), ownNow = withT && r.chance(1, 2);
	bool withX = r.chance(5, 6), abs = r.chance(1, 2);
	long t = 1 + (long)(r.next() >> (2 + r.below(40))), x = 1 + (long)(r.next() >> (2 + r.below(40)));
	long start = 1 + (long)(r.next() >> (2 + r.below(40)));
	long step = r.chance(1, 2) ? 0 : 1 + (long)r.below(1000);
	if (withT) o.SetTimestamp(ownNow ? -1 : t);
	if (withX)
	{
		if (abs && r.chance(1, 2)) o.SetExpiration(x);
		else o.SetExpiration(x, abs);
	}
	S text = m.text(), out;
	long after;
	dk::Out res;
	{
		Fake fk(start, step);
		res = dk::call([&] { out = dk::sign(text, o); });
		after = now_;
	}
	auto ctx = [&] { return cfg.str() + "\nt " + (withT ? ownNow ? "now" : std::to_string(t) : "none") + " x " + (withX ? std::to_string(x) + (abs ? " absolute" : " relative") : S("none"))
		+ " clock " + std::to_string(start) + ".." + std::to_string(after) + "\n" + res.cls + " " + res.what + "\n" + quote(out, 3000); };
	c.check(res.ok(), "signing-refused", ctx);
	ref::Msg pm = ref::parse(out + "\r\n");
	c.check(pm.f.size() == cfg.sigs.size(), "number-of-fields", ctx);
	for (auto& f : pm.f)
	{
		std::vector<ref::Tag> tl;
		c.check(ref::tagList(f.raw.substr(f.voff), tl), "not-a-tag-list", ctx);
		const ref::Tag* tt = ref::findTag(tl, "t"), *tx = ref::findTag(tl, "x");
		c.check((tt != nullptr) == withT, "timestamp-presence", ctx);
		c.check((tx != nullptr) == withX, "expiry-presence", ctx);
		long tv = tt ? strtol(tt->value.c_str(), nullptr, 10) : -1;
		if (withT && !ownNow) c.check(tt->value == std::to_string(t), "timestamp-differs", ctx);
		if (ownNow) c.check(tv >= start && tv <= after && tt->value == std::to_string(tv), "timestamp-not-now", ctx);
		if (withX && abs) c.check(tx->value == std::to_string(x), "absolute-expiry-differs", ctx);
		if (withX && !abs)
		{
			if (withT) c.check(tx->value == std::to_string(tv + x), "relative-expiry-not-from-timestamp", ctx);
			else
			{
				long xv = strtol(tx->value.c_str(), nullptr, 10);
				c.check(tx->value == std::to_string(xv) && xv - x >= start && xv - x <= after, "relative-expiry-not-from-now", ctx);
			}
		}
		c.ev("emitted fields checked");
		if (withX) c.ev(abs ? "absolute expiries" : withT ? "relative to the timestamp" : "relative to the signing time");
	}
	c.nontrivial(out);
}

void mon::run(Ctx& c)
{
	unsigned long before = asked;
	switch (c.idx % 16)
	{
		case 0: whole(c); break;
		case 1: case 2: signer(c); break;
		default: verifier(c);
	}
	c.ev("clock readings", asked - before);
	if (c.idx < 16) c.sample("case " + std::to_string(c.idx) + ": " + std::to_string(asked - before) + " clock readings");
}
