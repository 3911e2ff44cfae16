// C36: memory is bounded by the header, not by the body.
#include "shapes.hpp"
#include <pthread.h>
#include <sys/mman.h>
using namespace mon;
typedef std::string S;

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);

const char* const mon::RULE =
	"Messages whose bodies come from a generating stream (no copy of the body exists) are signed and verified with bodies of size n and 16n, and inputs of one shape (a repeated part of a "
	"hostile input, or a family built to size) are run in sizes 4n and 16n, on a stack of their own, while allocations are tracked. The peak of the memory held must not grow with the body, and at most in "
	"proportion to other input; the depth of the stack must not grow at all. Non-trivial: distinct shapes and bodies.";
uint64_t mon::cases(bool th) { return th ? 60000 : 3000; }
unsigned mon::cpu_limit() { return 60; }

static bool on;
static long cur, top;
static void onMalloc(const volatile void*, size_t n) { if (on && (cur += (long)n) > top) top = cur; }
static void onFree(const volatile void* p) { if (on && p) cur -= (long)__sanitizer_get_allocated_size(p); }

struct Use { long heap = 0, stack = 0; };
static const size_t STACK = 4 << 20;

// Runs f on a fresh stack; what it held at most.
static Use metered(const std::function<void()>& f)
{
	static bool installed;
	if (!installed) { installed = true; if (!__sanitizer_install_malloc_and_free_hooks(onMalloc, onFree)) { fprintf(stderr, "no hooks\n"); _exit(3); } }
	static const size_t GUARD = 1 << 20;
	char* map = (char*)mmap(nullptr, GUARD + STACK, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (map == MAP_FAILED) { perror("mmap"); _exit(3); }
	char* st = map + GUARD;
	if (mprotect(st, STACK, PROT_READ | PROT_WRITE)) { perror("mprotect"); _exit(3); }
	pthread_attr_t a;
	pthread_attr_init(&a);
	pthread_attr_setstack(&a, st, STACK);
	struct Arg { const std::function<void()>* f; std::exception_ptr e; } arg{ &f, nullptr };
	pthread_t t;
	if (pthread_create(&t, &a, [](void* p) -> void* {
		Arg* g = (Arg*)p;
		cur = top = 0;
		on = true;
		try { (*g->f)(); } catch (...) { g->e = std::current_exception(); }
		on = false;
		return nullptr;
	}, &arg) != 0) { perror("pthread_create"); _exit(3); }
	pthread_join(t, nullptr);
	pthread_attr_destroy(&a);
	Use u;
	u.heap = top;
	size_t low = 0;
	const long* w = (const long*)st;
	while (low < STACK / sizeof *w && !w[low]) ++low;
	u.stack = (long)(STACK - low * sizeof *w);
	munmap(map, GUARD + STACK);
	if (arg.e) std::rethrow_exception(arg.e);
	return u;
}

// head, then unit again and again, then tail: a seekable stream that holds only a window of it.
class Endless : public std::streambuf
{
	public:
		Endless(const S& h, const S& u, size_t times, const S& t) : head(h), unit(u), tail(t), n(times) {}
		long size() const { return (long)(head.size() + unit.size() * n + tail.size()); }
	private:
		S head, unit, tail;
		size_t n;
		long off = 0;	// behind the window
		char win[1024];
		char at(long p) const
		{
			size_t q = (size_t)p;
			if (q < head.size()) return head[q];
			q -= head.size();
			if (q < unit.size() * n) return unit[q % unit.size()];
			return tail[q - unit.size() * n];
		}
		int_type underflow() override
		{
			if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
			long k = std::min((long)sizeof win, size() - off);
			if (k <= 0) return traits_type::eof();
			for (long i = 0; i < k; ++i) win[i] = at(off + i);
			off += k;
			setg(win, win, win + k);
			return traits_type::to_int_type(win[0]);
		}
		pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override
		{
			long here = off - (egptr() - gptr());
			if (d == std::ios_base::cur && o == 0) return pos_type(here);
			return seekpos(pos_type(d == std::ios_base::beg ? o : d == std::ios_base::cur ? here + o : size() + o), std::ios_base::in);
		}
		pos_type seekpos(pos_type p, std::ios_base::openmode) override
		{
			long to = (long)off_type(p);
			if (to < 0 || to > size()) return pos_type(off_type(-1));
			off = to;
			setg(nullptr, nullptr, nullptr);
			return p;
		}
};

static void bodies(Ctx& c)
{
	Rng& r = c.r;
	S unit, tail;
	for (size_t k = 1 + r.below(3); k || unit.empty(); k -= k > 0)
		switch (r.below(8))
		{
			case 0: unit += gen::word(r); break;
			case 1: unit += r.pick({ "\r\n", "\n", "\r\n\r\n", "\r", "\r\n \r\n" }); break;
			case 2: unit += S(1 + r.below(80), r.pick({ " ", "\t", "x", "\n", "\r" })[0]); break;
			case 3: unit += gen::body(r); break;
			case 4: unit += hostile::splice(r).substr(0, 200); break;
			case 5: unit += r.bytes(1 + r.below(20)); break;
			case 6: unit += gen::body(r) + "\r\n"; break;
			default: unit += " \r\n"; break;
		}
	tail = r.pick({ "", "x", "\r\n", "x\r\n", " ", "\r\nx", "\r\n.\r\n" });
	gen::Message m = gen::message(r, false);
	m.body.clear();
	m.blank = true;
	S head = m.text(&r, 0);
	gen::Cfg cfg = gen::config(r, m);
	if (unit.size() > 4000) unit.resize(4000);
	size_t n = 65536 / unit.size() + 1, m16 = 16 * n * (c.thorough && r.chance(1, 20) ? 16 : 1);
	if (cfg.hasL) cfg.l = r.chance(1, 2) ? n * unit.size() / 4 : r.below(1000);
	dk::KeyHold hold;
	DKIM::SignatoryOptions o;
	dk::apply(cfg, o, hold);
	dk::Dns dns = dk::zoneFor(cfg);
	S sig;
	S outs;
	auto work = [&](size_t times) {
		sig.clear();
		outs.clear();
		{
			Endless b(head, unit, times, tail);
			std::istream in(&b);
			dk::Out x = dk::call([&] { sig = DKIM::Signatory(in).CreateSignature(o); });
			outs += x.cls + " ";
		}
		Endless b(sig.empty() ? head : sig + "\r\n" + head, unit, times, tail);
		std::istream in(&b);
		DKIM::Validatory v(in, cfg.arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
		v.CustomDNSResolver = std::ref(dns);
		for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i) outs += dk::verify(v, i).cls + " ";
	};
	metered([&] { work(1); });
	Use a = metered([&] { work(n); });
	S first = outs;
	Use z = metered([&] { work(m16); });
	c.ev("bodies streamed");
	c.ev("outcomes of bodies: " + (outs == first ? outs.substr(0, 30) : S("differ")));
	S what = quote(unit, 600) + "^n " + quote(tail) + "\n" + cfg.str();
	c.nontrivial(what);
	if (c.events["max growth of the peak for 16 times the body, bytes"] < (uint64_t)std::max(0l, z.heap - a.heap)) c.events["max growth of the peak for 16 times the body, bytes"] = (uint64_t)(z.heap - a.heap);
	c.check(z.heap - a.heap <= 196608, "memory-grows-with-body", [&] { return what + "\npeak " + std::to_string(a.heap) + " with " + std::to_string(n) + " units, " + std::to_string(z.heap) + " with " + std::to_string(m16); });
	c.check(z.stack - a.stack <= 16384, "stack-grows-with-body", [&] { return what + "\nstack " + std::to_string(a.stack) + ", " + std::to_string(z.stack); });
	if (c.idx < 40) c.sample(quote(unit, 100) + "^" + std::to_string(m16) + ": peak " + std::to_string(z.heap) + " bytes, stack " + std::to_string(z.stack));
}

static void inputs(Ctx& c)
{
	Rng& r = c.r;
	shapes::Shape s = r.chance(1, 2) ? shapes::family(r) : shapes::pump(r);
	size_t n = c.thorough && r.chance(1, 10) ? 16384 : 2048;
	entry::maxSignatures = 2;
	auto use = [&](const entry::Input& in) { return metered([&] { entry::run(in); }); };
	entry::Input small = s.make(4 * n), big = s.make(16 * n);
	use(small);
	Use a = use(small), z = use(big);
	c.ev("inputs metered");
	c.ev(S("entry: ") + entry::name(big.which));
	c.nontrivial(s.name);
	size_t size = big.a.size() + big.b.size();
	auto text = [&] { return s.name + "\nopt " + std::to_string(big.opt) + "\nheap " + std::to_string(a.heap) + " -> " + std::to_string(z.heap) + ", stack " + std::to_string(a.stack) + " -> " + std::to_string(z.stack) +
		" for inputs of " + std::to_string(small.a.size() + small.b.size()) + " -> " + std::to_string(size) + " bytes"; };
	auto most = [&](const char* what, uint64_t v) { if (c.events[what] < v) c.events[what] = v; };
	most("max bytes held per byte of input", (uint64_t)z.heap / (size + 1));
	most("max growth of the stack, bytes", (uint64_t)std::max(0l, z.stack - a.stack));
	if (z.heap > 65536) most("max growth of the peak for 4 times the size, percent", (uint64_t)z.heap * 100 / (uint64_t)(a.heap + 1));
	c.check(z.heap < 65536 || z.heap < 7 * a.heap, (S("memory-superlinear:") + entry::name(big.which)).c_str(), text);
	c.check((size_t)z.heap < (4 << 20) + size * 1000, (S("memory-out-of-proportion:") + entry::name(big.which)).c_str(), text);
	c.check(z.stack - a.stack <= 16384, (S("stack-grows-with-input:") + entry::name(big.which)).c_str(), text);
	if (c.idx < 40) c.sample(s.name.substr(0, 200) + ": peak " + std::to_string(a.heap) + " -> " + std::to_string(z.heap));
}

void mon::run(Ctx& c)
{
	if (c.r.chance(1, 4)) bodies(c); else inputs(c);
}
