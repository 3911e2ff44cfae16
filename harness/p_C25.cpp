// C25: the work grows only linearly with the size of the input.
#include "shapes.hpp"
using namespace mon;
typedef std::string S;

extern "C" { extern uint64_t covmon_blocks, covmon_bytes; extern int covmon_on; }

const char* const mon::RULE =
	"Inputs of one shape in sizes n, 4n, 8n and 16n (a part of a hostile input repeated, or a family built to size) are run while the executed basic "
	"blocks of the library and the bytes its memory and string calls handle are counted; 16n may cost at most 6 times what 4n costs, unless the step from "
	"4n to 8n or from 8n to 16n alone is proportional. Non-trivial: distinct shapes whose biggest input costs more than its bytes.";
uint64_t mon::cases(bool th) { return th ? 60000 : 6000; }
unsigned mon::cpu_limit() { return 60; }

static uint64_t work(const entry::Input& in)
{
	covmon_blocks = covmon_bytes = 0;
	entry::maxSignatures = 2;
	covmon_on = 1;
	entry::run(in);
	covmon_on = 0;
	return covmon_blocks + covmon_bytes;
}

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	shapes::Shape s = r.chance(1, 2) ? shapes::family(r) : shapes::pump(r);
	size_t n = c.thorough && r.chance(1, 10) ? 16384 : 2048;
	entry::Input big = s.make(16 * n);
	uint64_t w16 = work(big);
	c.ev("inputs metered");
	c.ev("work counted (blocks and bytes)", w16);
	size_t size = big.a.size() + big.b.size();
	uint64_t perByte = w16 / (size + 1);
	if (c.events["max work per byte of input"] < perByte) c.events["max work per byte of input"] = perByte;
	if (w16 < size) { c.ev("ended before the repeated part"); return; }
	uint64_t w4 = work(s.make(4 * n));
	c.ev("inputs metered");
	c.nontrivial(s.name);
	c.ev(S("entry: ") + entry::name(big.which));
	uint64_t ratio = w16 * 100 / (w4 + 1);
	if (ratio < 100000 && c.events["max growth for 4 times the size, percent"] < ratio && ratio <= 600) c.events["max growth for 4 times the size, percent"] = ratio;
	if (ratio > 600)
	{
		uint64_t w8 = work(s.make(8 * n));
		c.ev("inputs metered");
		bool one = w8 * 10 > w4 * 25, two = w16 * 10 > w8 * 25;
		c.ev("steps examined");
		c.check(!(one && two), (S("superlinear: ") + entry::name(big.which)).c_str(), [&] {
			return s.name + "\nopt " + std::to_string(big.opt) + "\nwork " + std::to_string(w4) + ", " + std::to_string(w8) + ", " + std::to_string(w16) + " for 4n, 8n, 16n with n = " + std::to_string(n); });
	}
	if (c.idx < 20) c.sample(s.name.substr(0, 200) + ": " + std::to_string(w4) + " -> " + std::to_string(w16));
}
