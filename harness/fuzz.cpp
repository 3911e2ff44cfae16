// libFuzzer target over the same entry points as C23.
#include "entry.hpp"
#include <cstdio>
#include <unistd.h>
namespace mon
{
	std::string quote(const std::string& s, size_t) { return s; }
	void Ctx::fail(const std::string& k, const std::string& d) { fprintf(stderr, "%s %s\n", k.c_str(), d.c_str()); abort(); }
	void die(const std::string& k, const std::string& d) { fprintf(stderr, "FAIL %s %s\n", k.c_str(), d.c_str()); abort(); }
	void Ctx::nontrivial(const std::string&) {}
	void Ctx::state(const std::string&) {}
	void Ctx::sample(const std::string&) {}
}
extern "C" int LLVMFuzzerTestOneInput(const unsigned char* d, size_t n)
{
	entry::Input in = entry::unpack(std::string((const char*)d, n));
	entry::Seen s = entry::run(in);
	for (auto& o : s.outs) if (o.cls.compare(0, 6, "other:") == 0) { fprintf(stderr, "foreign exception %s %s\n", o.cls.c_str(), o.what.c_str()); abort(); }
	return 0;
}
