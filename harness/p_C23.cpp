// C23: memory safety on hostile input. The oracle is the instrumentation (see run.py: variants).
#include "hostile.hpp"
#include <cstdio>
#include <cstdlib>
#include <sys/stat.h>
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"Every entry point is called with damaged valid input, assembled nonsense and arbitrary bytes, and with signatures and keys of every length that "
	"reach the crypto calls; the instrumentation watches each access. Non-trivial: distinct inputs.";
uint64_t mon::cases(bool th) { return th ? 3000000 : 50000; }

void mon::run(Ctx& c)
{
	entry::Input in = hostile::any(c.r);
	if (getenv("MON_SEEDS"))
	{
		if (in.a.size() + in.b.size() > 3000) return;
		FILE* f = fopen((S(getenv("MON_SEEDS")) + "/" + std::to_string(c.idx)).c_str(), "w");
		S p = entry::pack(in);
		if (f) { fwrite(p.data(), 1, p.size(), f); fclose(f); }
		return;
	}
	interpose::Counts before = interpose::counts;
	if (c.verbose) fprintf(stderr, "%s opt %u\na %s\nb %s\n", entry::name(in.which), in.opt, quote(in.a, 6000).c_str(), quote(in.b, 3000).c_str());
	entry::Seen s = entry::run(in);
	bool ok = !s.outs.empty() && s.outs.back().ok();
	c.ev(S(entry::name(in.which)) + (ok ? ": accepted" : ": refused"));
	c.ev("regions checked at the crypto calls", interpose::counts.regions - before.regions);
	c.ev("RSA verifications", interpose::counts.rsaVerify - before.rsaVerify);
	c.ev("Ed25519 verifications", interpose::counts.edVerify - before.edVerify);
	c.nontrivial(entry::pack(in));
	c.state(std::to_string(in.which) + s.text.substr(0, 60));
	if (c.idx < 20) c.sample(S(entry::name(in.which)) + " " + quote(in.a, 200));
}
