// C26: independent objects in concurrent threads, sharing only constant ones.
#include "frozen.hpp"
#include "hostile.hpp"
#include "streams.hpp"
#include <atomic>
#include <memory>
#include <sched.h>
#include <thread>
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Several threads run operations (every entry point, and signing, verifying, reading and canonicalizing with constant objects shared by all threads) "
	"with seeded yields and delays under ThreadSanitizer; results are compared with those of one thread, computed afterwards. "
	"Non-trivial: distinct sets of operations; states: distinct orders in which operations began and ended.";
uint64_t mon::cases(bool th) { return th ? 60000 : 2400; }
unsigned mon::cpu_limit() { return 120; }

// The code of the libraries below is not instrumented.
extern "C" const char* __tsan_default_suppressions()
{
	return "called_from_lib:libcrypto.so\ncalled_from_lib:libssl.so\ncalled_from_lib:libsodium.so\ncalled_from_lib:libresolv.so\n";
}
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=98:history_size=4:second_deadlock_stack=1:report_signal_unsafe=0"; }

struct Shared
{
	gen::Cfg cfg;
	dk::KeyHold hold;
	DKIM::SignatoryOptions opt;
	S text, signedText;
	bool arc = false;
	std::vector<std::unique_ptr<DKIM::Signature>> sigs;
	std::vector<std::unique_ptr<DKIM::PublicKey>> pubs;
	DKIM::TagList tags;
	DKIM::Message msg;
	DKIM::Conversion::CanonicalizationHeader canon { DKIM::DKIM_C_RELAXED };
	dk::Dns zone;
	// signed lists of names handed to each thread as they are
	std::list<S> names;
};

struct Op { int kind; entry::Input in; size_t chunk; unsigned spin; };
enum { ANY, SIGN, VERIFY, USE, READ, FILTER, COPY, NAMES, KINDS };

static S perform(const Op& op, const Shared& sh)
{
	entry::Seen s;
	switch (op.kind)
	{
		case ANY: return entry::run(op.in).text;
		case SIGN:
		{
			streams::Buf buf(sh.text);
			buf.chunk = op.chunk;
			std::istream in(&buf);
			S out;
			entry::add(s, dk::call([&] { DKIM::Signatory g(in); out = g.CreateSignature(sh.opt); }));
			entry::add(s, out);
			break;
		}
		case VERIFY:
		{
			streams::Buf buf(sh.signedText);
			buf.chunk = op.chunk;
			std::istream in(&buf);
			entry::add(s, dk::call([&] {
				DKIM::Validatory v(in, sh.arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
				v.CustomDNSResolver = [&](const S& n, S& out, void*) { auto i = sh.zone.zone.find(n); if (i == sh.zone.zone.end()) return true; out = i->second.second; return true; };
				for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i) entry::add(s, dk::verify(v, i));
			}));
			break;
		}
		case USE:
		{
			// the threads' own verifiers with shared signatures and keys
			std::istringstream in(sh.signedText);
			entry::add(s, dk::call([&] {
				DKIM::Validatory v(in, sh.arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
				v.CustomDNSResolver = [&](const S& n, S& out, void*) { auto i = sh.zone.zone.find(n); if (i == sh.zone.zone.end()) return true; out = i->second.second; return true; };
				size_t k = 0;
				for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end() && k < sh.sigs.size(); ++i, ++k)
				{
					const DKIM::Signature& g = *sh.sigs[k];
					entry::add(s, dk::call([&] { v.CheckBodyHash(g); }));
					DKIM::PublicKey own;
					entry::add(s, dk::call([&] { v.GetPublicKey(g, own); }));
					entry::add(s, dk::call([&] { v.CheckSignature(i, g, own); }));
					if (k < sh.pubs.size()) entry::add(s, dk::call([&] { v.CheckSignature(i, g, *sh.pubs[k]); }));
				}
			}));
			break;
		}
		case READ:
		{
			for (auto& g : sh.sigs) { const DKIM::Signature& x = *g; entry::readSignature(s, x); s.text += std::to_string((int)x.IsARC()); DKIM::TagListEntry e; if (x.GetTag("bh", e)) entry::add(s, e.GetValue()); }
			for (auto& p : sh.pubs) { const DKIM::PublicKey& x = *p; entry::readRecord(s, x); }
			DKIM::TagListEntry e;
			if (sh.tags.GetTag("h", e)) entry::add(s, e.GetValue());
			for (auto& h : sh.msg.GetHeaders()) { entry::add(s, h->GetName()); entry::add(s, h->GetHeader().substr(h->GetValueOffset())); }
			const DKIM::SignatoryOptions& o = sh.opt;
			entry::add(s, o.GetDomain() + o.GetSelector() + o.GetED25519PrivateKey() + o.GetIdentity() + std::to_string(o.GetARCInstance()) + std::to_string((int)o.GetSignatureAlgorithm()));
			for (auto& h : o.GetHeaders()) entry::add(s, h);
			for (auto& h : o.GetOversignHeaders()) entry::add(s, h);
			for (auto& a : o.GetAdditionalSignatures()) entry::add(s, a.GetDomain() + a.GetSelector() + a.GetED25519PrivateKey());
			break;
		}
		case FILTER:
			for (auto& h : sh.msg.GetHeaders()) entry::add(s, dk::call([&] { entry::add(s, sh.canon.FilterHeader(h->GetHeader())); }));
			break;
		case COPY:
			entry::add(s, dk::call([&] {
				std::list<DKIM::AdditionalSignaturesOptions> l(sh.opt.GetAdditionalSignatures());
				for (auto& a : l) { entry::add(s, a.GetDomain()); s.text += a.GetRSAPrivateKey() ? "k" : "-"; DKIM::AdditionalSignaturesOptions b; b = a; entry::add(s, b.GetSelector()); }
				DKIM::TagList t(sh.tags);
				DKIM::TagListEntry e;
				if (t.GetTag("b", e)) entry::add(s, e.GetValue());
			}));
			break;
		default:
			entry::add(s, dk::call([&] {
				DKIM::SignatoryOptions o;
				o.SetHeaders(sh.names).AddHeaders(sh.names).DelHeaders(sh.names).SetOversignHeaders(sh.names);
				for (auto& h : o.GetHeaders()) entry::add(s, h);
			}));
	}
	return s.text;
}

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	Shared sh;
	gen::Message m = gen::message(r, true);
	sh.cfg = gen::config(r, m);
	bool early = c.idx < 64 || r.chance(1, 4);	// the library is not used by a single thread first
	sh.text = m.text(&r, (int)r.below(3));
	bool cold = c.idx < 8;	// the first case of a shard: nothing of the library has run yet
	if (!cold) dk::apply(sh.cfg, sh.opt, sh.hold);
	sh.arc = sh.cfg.arc != 0;
	sh.names = dk::lst({ "From", "subject", "X-" + gen::word(r) });
	if (early)
	{
		gen::Message t = m;
		gen::SignSpec s = gen::signSpec(r, t);
		s.key = r.chance(1, 2) ? ref::rsaKeys()[r.below(2)] : &ref::edKey((unsigned)r.below(8));
		s.sha256 = true;
		gen::signInto(r, t, r.below(t.fields.size() + 1), s);
		sh.signedText = t.text(&r, 0);
		sh.arc = s.arc != 0;
		sh.zone.zone[s.s + "._domainkey." + ref::lower(s.d)] = { 0, s.key->record() };
		// warm up inside the threads: the shared parsed objects come from the second half of the cases
	}
	else
	{
		S field;
		dk::call([&] { field = dk::sign(sh.text, sh.opt); });
		sh.signedText = field + (field.empty() ? "" : "\r\n") + sh.text;
		sh.zone = dk::zoneFor(sh.cfg);
		std::istringstream in(sh.signedText);
		DKIM::Validatory v(in, sh.arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
		v.CustomDNSResolver = std::ref(sh.zone);
		for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i)
		{
			std::unique_ptr<DKIM::Signature> g(new DKIM::Signature);
			std::unique_ptr<DKIM::PublicKey> p(new DKIM::PublicKey);
			if (!dk::call([&] { v.GetSignature(i, *g); v.GetPublicKey(*g, *p); }).ok()) break;
			sh.sigs.push_back(std::move(g));
			sh.pubs.push_back(std::move(p));
		}
		dk::call([&] { sh.tags.Parse("v=1; h=a:b; b=AAA; p="); });
		std::istringstream t(sh.signedText);
		dk::call([&] { while (!sh.msg.IsDone() && sh.msg.ParseLine(t)) {} });
		sh.zone.asked.clear();
	}

	size_t threads = 2 + r.below(3), per = early && c.idx < 64 ? 2 * entry::COUNT : 2 + r.below(6);
	std::vector<Op> pool;
	std::vector<std::vector<size_t>> plan(threads);
	S kinds;
	auto op = [&](int kind) { Op o; o.kind = kind; o.chunk = 1 + r.below(300); o.spin = (unsigned)r.below(6); if (kind == ANY) o.in = hostile::any(r); pool.push_back(o); };
	if (early && c.idx < 64)
	{
		// every operation in every thread: first uses coincide
		for (size_t k = 0; k < per; ++k) { op(ANY); if (k < entry::COUNT) { while (pool.back().in.which != (int)k) pool.back().in = hostile::any(r); } }
		for (int k = SIGN; k < KINDS; ++k) if (!cold || k == VERIFY || k == NAMES) op(k);
		for (auto& p : plan) { for (size_t k = 0; k < pool.size(); ++k) p.push_back(k); if (r.chance(1, 2)) r.shuffle(p); }
	}
	else
	{
		for (size_t k = 0; k < per; ++k) op(r.chance(1, 3) ? ANY : SIGN + (int)r.below(KINDS - SIGN));
		for (auto& p : plan) for (size_t k = 0; k < per; ++k) p.push_back(r.below(pool.size()));
	}
	for (auto& o : pool) { kinds += (char)('a' + o.kind); if (o.kind == ANY) kinds += entry::pack(o.in); }

	std::vector<std::vector<S>> got(threads);
	std::atomic<unsigned> ready(0), ticket(0);
	std::vector<std::vector<unsigned>> order(threads);
	std::vector<std::thread> ts;
	for (size_t t = 0; t < threads; ++t)
	{
		got[t].resize(plan[t].size());
		ts.emplace_back([&, t] {
			ready.fetch_add(1, std::memory_order_relaxed);
			while (ready.load(std::memory_order_relaxed) < threads) sched_yield();
			for (size_t k = 0; k < plan[t].size(); ++k)
			{
				const Op& o = pool[plan[t][k]];
				for (unsigned n = o.spin; n; --n) sched_yield();
				// relaxed: the tickets must not order the threads
				order[t].push_back(ticket.fetch_add(1, std::memory_order_relaxed));
				got[t][k] = perform(o, sh);
				order[t].push_back(ticket.fetch_add(1, std::memory_order_relaxed));
			}
		});
	}
	for (auto& t : ts) t.join();

	std::vector<S> want(pool.size());
	for (size_t k = 0; k < pool.size(); ++k) want[k] = perform(pool[k], sh);
	for (size_t t = 0; t < threads; ++t)
		for (size_t k = 0; k < plan[t].size(); ++k)
		{
			const Op& o = pool[plan[t][k]];
			c.check(got[t][k] == want[plan[t][k]], "result-differs-between-threads", [&] {
				return "operation " + std::to_string(o.kind) + (o.kind == ANY ? S(" ") + entry::name(o.in.which) + "\na " + quote(o.in.a, 1000) + "\nb " + quote(o.in.b, 500) : S()) + "\nin a thread " +
					quote(got[t][k], 1500) + "\nalone " + quote(want[plan[t][k]], 1500); });
			c.ev("results compared");
		}
	// how the threads overlapped
	std::map<unsigned, S> seq;
	unsigned overlaps = 0;
	for (size_t t = 0; t < threads; ++t)
		for (size_t k = 0; k + 1 < order[t].size(); k += 2)
		{
			seq[order[t][k]] = std::to_string(t) + "b";
			seq[order[t][k + 1]] = std::to_string(t) + "e";
			if (order[t][k + 1] > order[t][k] + 1) ++overlaps;
		}
	S s;
	for (auto& x : seq) s += x.second;
	c.state(s);
	c.ev("operations that overlapped another thread's", overlaps);
	c.ev("threads run", threads);
	for (auto& o : pool) c.ev(o.kind == ANY ? S("operation: ") + entry::name(o.in.which) : "shared operation " + std::to_string(o.kind));
	c.nontrivial(kinds + sh.text);
	if (c.idx < 20) c.sample(std::to_string(threads) + " threads: " + s.substr(0, 200));
}
