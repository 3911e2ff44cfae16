#pragma once
#include <functional>

namespace interpose
{
	// Answers the library's DNS queries: returns the answer length (or -1 with the h_errno value set).
	extern thread_local std::function<int(const char* name, unsigned char* answer, int size, int& herr)> dns;
	// Make the bytes behind the answer unreadable. Only around a direct call of the resolver, with dnsDone()
	// right behind it: the buffer is on the stack.
	extern thread_local bool poison;
	extern thread_local bool socket;	// a query leaves an open descriptor in the resolver's state, as a TCP query does
	extern thread_local int dnsClass, dnsType;	// of the last query
	void dnsDone();		// call after the query returned: the answer buffer is ordinary memory again

	// Sizes of what the library is about to hand to the crypto library (-1: unknown).
	struct Expect { long edSig = -1, edKey = -1, edPub = -1; };
	extern thread_local Expect expect;

	// Faults: while armed, every call of a watched function (and whatever else calls step()) is counted; the call with
	// number "at" fails, or all from there on. The function then returns what its documentation gives for a failure.
	struct Fault
	{
		bool armed = false, forGood = false;
		long at = -1, n = 0, hits = 0;
		int negative = 0;	// functions that have two values for failures: the negative one
		const char* hit = nullptr;
		const char** trace = nullptr;	// the names of the first "room" calls
		long room = 0;
	};
	extern thread_local Fault fault;
	inline bool step(const char* what)
	{
		Fault& f = fault;
		if (!f.armed) return false;
		long k = f.n++;
		if (k < f.room) f.trace[k] = what;
		if (f.at < 0 || (f.forGood ? k < f.at : k != f.at)) return false;
		++f.hits;
		if (!f.hit) f.hit = what;
		return true;
	}

	struct Counts { unsigned long regions = 0, dnsQueries = 0, edVerify = 0, edSign = 0, rsaVerify = 0, rsaSign = 0; };
	extern thread_local Counts counts;
}
