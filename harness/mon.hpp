// Monitor core: one property driver per executable. A driver defines the functions at the end.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace mon
{
	struct Rng
	{
		uint64_t s;
		explicit Rng(uint64_t seed = 0) : s(seed) {}
		uint64_t next()
		{
			uint64_t z = (s += 0x9E3779B97F4A7C15ull);
			z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
			z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
			return z ^ (z >> 31);
		}
		// 0 .. n-1
		size_t below(size_t n) { return n ? (size_t)(next() % n) : 0; }
		// a .. b inclusive
		long range(long a, long b) { return a + (long)below((size_t)(b - a + 1)); }
		bool chance(unsigned num, unsigned den) { return below(den) < num; }
		template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
		const char* pick(std::initializer_list<const char*> l) { return *(l.begin() + below(l.size())); }
		std::string bytes(size_t n) { std::string r; r.reserve(n); for (size_t i = 0; i < n; ++i) r += (char)next(); return r; }
		std::string from(const std::string& alphabet, size_t n)
		{ std::string r; r.reserve(n); for (size_t i = 0; i < n; ++i) r += alphabet[below(alphabet.size())]; return r; }
		template <class T> void shuffle(std::vector<T>& v)
		{ for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]); }
	};

	struct Abort {};	// a case has ended (violation recorded)

	struct Ctx
	{
		Rng r;
		uint64_t idx = 0, seed = 0;
		bool thorough = false, verbose = false;

		// Records a violation of the property and ends the case.
		[[noreturn]] void fail(const std::string& key, const std::string& detail);
		void check(bool ok, const char* key, const std::function<std::string()>& detail)
		{ if (!ok) fail(key, detail()); }
		// Counts something a monitor observed.
		void ev(const std::string& name, uint64_t n = 1) { events[name] += n; }
		// Registers the case (by its content) as non-trivial.
		void nontrivial(const std::string& content);
		void state(const std::string& content);	// a distinct state/verdict shape seen
		void sample(const std::string& text);

		std::map<std::string, uint64_t> events;
		std::set<uint64_t> distinct, states;
		std::vector<std::string> samples;
	};

	uint64_t hash(const std::string& s, uint64_t h = 1469598103934665603ull);
	std::string quote(const std::string& s, size_t max = 400);	// printable, C-escaped, shortened
	std::string hex(const std::string& s);

	// Run by the driver in another thread or a callback where no exception may pass.
	[[noreturn]] void die(const std::string& key, const std::string& detail);

	// --- defined by the driver ---
	extern const char* const RULE;
	uint64_t cases(bool thorough);
	void run(Ctx& c);
	// Optional, called once before / after the cases of a shard (weak defaults).
	void begin(Ctx& c);
	void end(Ctx& c);
	unsigned cpu_limit();	// seconds of CPU time per case
}
