// C37: a message is read from where the stream stands, whatever the stream is.
#include "frozen.hpp"
#include "hostile.hpp"
#include "streams.hpp"
#include <fstream>
#include <sys/mman.h>
using namespace mon;
typedef std::string S;

const char* const mon::RULE =
	"One stream holds several messages, each reaching to its end (a message inside another's body, other text before them), anywhere from position 0 to several GB. Signers, verifiers and parsers for all of "
	"them share it and are made and used in any order, while its owner moves it and leaves it in any state in between. String streams, files with buffers of any size, buffers with windows of any size, and a buffer that "
	"shows all at once are used, with any settings. Results must be those of a string stream with the one message; settings must not change. Non-trivial: distinct streams and histories.";
uint64_t mon::cases(bool th) { return th ? 400000 : 6000; }

typedef long long Pos;

// `before` again and again for `base` bytes, then text; holds a window only.
class Window : public std::streambuf
{
	public:
		Window(const S& b, Pos n, const S& t, size_t w) : before(b), text(t), base(n), win(w) {}
	private:
		S before, text;
		Pos base, off = 0;
		std::vector<char> win;
		Pos size() const { return base + (Pos)text.size(); }
		int_type underflow() override
		{
			if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
			Pos k = std::min<Pos>((Pos)win.size(), size() - off);
			if (k <= 0) return traits_type::eof();
			for (Pos i = 0; i < k; ++i) win[(size_t)i] = off + i < base ? before[(size_t)((off + i) % (Pos)before.size())] : text[(size_t)(off + i - base)];
			off += k;
			setg(win.data(), win.data(), win.data() + k);
			return traits_type::to_int_type(win[0]);
		}
		pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override
		{
			Pos here = off - (egptr() - gptr());
			if (d == std::ios_base::cur && o == 0) return pos_type(here);
			return seekpos(pos_type(d == std::ios_base::beg ? (Pos)o : d == std::ios_base::cur ? here + (Pos)o : size() + (Pos)o), std::ios_base::in);
		}
		pos_type seekpos(pos_type p, std::ios_base::openmode) override
		{
			Pos to = (Pos)off_type(p);
			if (to < 0 || to > size()) return pos_type(off_type(-1));
			off = to;
			setg(nullptr, nullptr, nullptr);
			return p;
		}
};

// all of it in one get area
class Whole : public std::streambuf
{
	public:
		explicit Whole(const S& t) : text(t) { setg(&text[0], &text[0], &text[0] + text.size()); }
	private:
		S text;
		pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override
		{
			return seekpos(pos_type((d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? gptr() - eback() : (off_type)text.size()) + o), std::ios_base::in);
		}
		pos_type seekpos(pos_type p, std::ios_base::openmode) override
		{
			if (off_type(p) < 0 || off_type(p) > (off_type)text.size()) return pos_type(off_type(-1));
			setg(eback(), eback() + off_type(p), egptr());
			return p;
		}
};

struct Source
{
	std::unique_ptr<std::streambuf> buf;
	std::vector<char> area;
	std::unique_ptr<std::istream> in;
	int fd = -1;
	S kind;
	~Source() { in.reset(); if (fd >= 0) close(fd); }
};

// the stream: `base` bytes of other text, then text
static void make(Rng& r, Source& s, const S& before, Pos base, const S& text)
{
	auto lead = [&] { S b; while ((Pos)b.size() < base) b += before; b.resize((size_t)base); return b; };
	bool far = base > 100000;
	switch (far ? 3 + r.below(2) : r.below(8))
	{
		case 0: s.kind = "istringstream"; s.in.reset(new std::istringstream(lead() + text)); return;
		case 1: s.kind = "stringstream"; s.in.reset(new std::stringstream(lead() + text, std::ios::in | std::ios::out | (r.chance(1, 2) ? std::ios::ate : std::ios::in))); return;
		case 2: s.kind = "stringstream, binary"; s.in.reset(new std::istringstream(lead() + text, std::ios::in | std::ios::binary)); return;
		case 3: case 7:
		{
			s.fd = memfd_create("m", 0);
			if (s.fd < 0) { char t[] = "/tmp/C37.XXXXXX"; s.fd = mkstemp(t); if (s.fd >= 0) unlink(t); }
			if (s.fd < 0) { perror("memfd_create"); _exit(3); }
			S b = far ? S() : lead();
			b += text;
			if (pwrite(s.fd, b.data(), b.size(), far ? base : 0) != (ssize_t)b.size()) { perror("pwrite"); _exit(3); }
			std::filebuf* f = new std::filebuf;
			s.buf.reset(f);
			size_t size = r.chance(1, 3) ? r.below(3) : r.below(9000);
			s.area.resize(size + 1);
			f->pubsetbuf(size ? s.area.data() : nullptr, (std::streamsize)size);
			if (!f->open("/proc/self/fd/" + std::to_string(s.fd), r.chance(1, 2) ? std::ios::in : std::ios::in | std::ios::out | std::ios::binary)) { perror("open"); _exit(3); }
			s.kind = "file, buffer of " + std::to_string(size);
			break;
		}
		case 4: { size_t w = 1 + r.below(r.chance(1, 2) ? 40 : 20000); s.kind = "window of " + std::to_string(w); s.buf.reset(new Window(before, base, text, w)); break; }
		case 5: s.kind = "whole"; s.buf.reset(new Whole(lead() + text)); break;
		default: { std::unique_ptr<streams::Buf> b(new streams::Buf(lead() + text)); b->chunk = 1 + r.below(r.chance(1, 2) ? 30 : 10000); s.kind = "chunks of " + std::to_string(b->chunk); s.buf = std::move(b); break; }
	}
	s.in.reset(r.chance(1, 3) ? new std::iostream(s.buf.get()) : new std::istream(s.buf.get()));
}

struct Quoted : std::numpunct<char>
{
	char do_thousands_sep() const override { return '\''; }
	std::string do_grouping() const override { return "\1"; }
};

static S settings(std::istream& in)
{
	return std::to_string((long)in.flags()) + " " + std::to_string(in.precision()) + " " + std::to_string(in.width()) + " " + std::to_string((int)in.fill()) + " " +
		std::to_string((int)in.exceptions()) + " " + std::to_string((uintptr_t)in.tie()) + " " + std::to_string((uintptr_t)in.rdbuf()) + " " + std::to_string(in.iword(0)) + " " + in.getloc().name() + " " +
		std::to_string((uintptr_t)&std::use_facet<std::numpunct<char>>(in.getloc()));
}

static void setup(Rng& r, std::istream& in, std::ostream& tied)
{
	if (r.chance(1, 2)) in.exceptions(std::ios::badbit);
	if (r.chance(1, 3)) in.unsetf(std::ios::skipws);
	if (r.chance(1, 3)) in.setf(std::ios::hex, std::ios::basefield);
	if (r.chance(1, 3)) in.width((std::streamsize)r.below(6));
	if (r.chance(1, 3)) in.fill('0');
	if (r.chance(1, 3)) in.precision(2);
	if (r.chance(1, 3)) in.setf(std::ios::showbase | std::ios::uppercase | std::ios::unitbuf);
	if (r.chance(1, 3)) in.tie(&tied);
	if (r.chance(1, 4)) in.imbue(std::locale(std::locale::classic(), new Quoted));
	in.iword(0) = (long)r.below(1000);
}

// What is done with one message.
struct Reader
{
	enum Kind { SIGN, VERIFY, PARSE } kind;
	Pos start;
	gen::Cfg cfg;
	dk::KeyHold hold;
	DKIM::SignatoryOptions o;
	bool arc = false;
	const std::map<S, S>* zone = nullptr;
	std::unique_ptr<DKIM::Signatory> g;
	std::unique_ptr<DKIM::Validatory> v;
	std::unique_ptr<DKIM::Message> m;
	std::vector<S> want;	// per use; VERIFY: per signature
	S made;

	bool ready() const { return g || v || m; }
	// the stream stands at the start
	S open(std::istream& in)
	{
		entry::Seen s;
		switch (kind)
		{
			case SIGN: g.reset(new DKIM::Signatory(in)); return use(in, 0);	// reads now
			case VERIFY:
				entry::add(s, dk::call([&] {
					v.reset(new DKIM::Validatory(in, arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM));
					v->CustomDNSResolver = [this](const S& n, S& out, void*) { auto i = zone->find(n); if (i != zone->end()) out = i->second; return true; };
					for (auto i = v->GetSignatures().begin(); i != v->GetSignatures().end(); ++i) entry::add(s, (*i)->GetHeader());
				}));
				return s.text;
			default:
				m.reset(new DKIM::Message);
				entry::add(s, dk::call([&] {
					while (m->ParseLine(in) && !m->IsDone()) {}
					entry::add(s, std::to_string(m->GetBodyOffset() == -1 ? -1 : (Pos)m->GetBodyOffset() - start));
					for (auto& h : m->GetHeaders()) { entry::add(s, h->GetName()); entry::add(s, h->GetHeader()); }
				}));
				return s.text;
		}
	}
	size_t uses() const { return kind == VERIFY ? v ? v->GetSignatures().size() : 0 : kind == SIGN ? 1 : m && m->IsDone() ? 2 : 0; }
	S use(std::istream& in, size_t k)
	{
		entry::Seen s;
		if (kind == SIGN)
		{
			S out;
			entry::add(s, dk::call([&] { out = g->CreateSignature(o); }));
			entry::add(s, out);
		}
		else if (kind == VERIFY)
		{
			auto i = v->GetSignatures().begin();
			std::advance(i, (long)k);
			DKIM::Signature sig;
			DKIM::PublicKey pub;
			dk::Out o1 = dk::call([&] { v->GetSignature(i, sig); });
			entry::add(s, o1);
			entry::readSignature(s, sig);
			if (!o1.ok()) return s.text;
			entry::add(s, dk::call([&] { v->GetPublicKey(sig, pub); v->CheckSignature(i, sig, pub); }));
		}
		else
		{
			S got;
			entry::add(s, dk::call([&] {
				bool all = DKIM::Conversion::CanonicalizationBody(in, k ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE, m->GetBodyOffset(), k == 0 && start % 2, 20, [&](const char* p, size_t n) { got.append(p, n); });
				got += all ? "+" : "-";
			}));
			entry::add(s, got);
		}
		return s.text;
	}
};

void mon::run(Ctx& c)
{
	Rng& r = c.r;
	// messages, each inside the body of the one before
	std::vector<S> texts;
	std::map<S, S> zone;
	std::vector<gen::Message> parts;
	bool arc = r.chance(1, 6);
	for (size_t n = 1 + r.below(3); n; --n)
	{
		gen::Message m = gen::message(r, true);
		if (!texts.empty())
		{
			m.blank = true;
			if (m.body.size() > 3000) m.body.resize(3000);
			m.body += (r.chance(2, 3) ? "\r\n" : "") + texts.back();
		}
		for (size_t k = r.below(3); k; --k)
		{
			gen::SignSpec s = gen::signSpec(r, m);
			bool rsa = r.chance(1, 2);
			s.key = rsa ? ref::rsaKeys()[r.below(2)] : &ref::edKey((unsigned)r.below(8));
			s.sha256 = !rsa || r.chance(1, 2);
			s.arc = arc ? 1 + (unsigned)r.below(50) : 0;
			if (arc) s.hasI = false;
			gen::signInto(r, m, r.below(m.fields.size() + 1), s);
			zone[s.s + "._domainkey." + ref::lower(s.d)] = gen::recordFor(r, *s.key);
		}
		S body = m.body;
		m.body.clear();
		texts.push_back(m.text(&r, (int)r.below(3)) + (m.blank ? body : S()));
		m.body = body;
		parts.push_back(m);
	}
	const S& all = texts.back();
	S before = r.pick({ "x", "From: other@example.org\r\nDKIM-Signature: v=1\r\n", "\r\n", "body\r\n\r\n", "A: b\r\n\r\n" });
	if (r.chance(1, 4)) before += hostile::splice(r).substr(0, 200);
	Pos base = 0;
	switch (r.below(6))
	{
		case 0: case 1: break;
		case 2: case 3: base = (Pos)r.below(r.chance(1, 2) ? 40 : 20000); break;
		case 4: base = (1ll << (r.chance(1, 2) ? 31 : 32)) - (Pos)r.below(all.size() + 10); break;
		default: base = (Pos)r.below(1ull << 33); break;
	}

	// readers, and what they give on streams of their own
	std::vector<std::unique_ptr<Reader>> readers;
	for (size_t n = 1 + r.below(4); n; --n)
	{
		size_t w = r.below(texts.size());
		std::unique_ptr<Reader> p(new Reader);
		p->kind = r.chance(1, 6) ? Reader::PARSE : r.chance(1, 2) ? Reader::SIGN : Reader::VERIFY;
		p->start = base + (Pos)(all.size() - texts[w].size());
		p->arc = arc;
		p->zone = &zone;
		if (p->kind == Reader::SIGN)
		{
			p->cfg = gen::config(r, parts[w]);
			dk::apply(p->cfg, p->o, p->hold);
		}
		Reader plain;
		plain.kind = p->kind;
		plain.start = 0;
		plain.arc = arc;
		plain.zone = &zone;
		if (p->kind == Reader::SIGN) dk::apply(p->cfg, plain.o, plain.hold);
		std::istringstream in(texts[w]);
		S opened = plain.open(in);
		p->made = opened;
		for (size_t k = 0, u = plain.uses(); k < u; ++k)
		{
			if (p->kind == Reader::PARSE)
			{
				// the limit depends on the start only
				S got;
				entry::Seen s;
				entry::add(s, dk::call([&] {
					bool whole = DKIM::Conversion::CanonicalizationBody(in, k ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE, plain.m->GetBodyOffset(), k == 0 && p->start % 2, 20, [&](const char* q, size_t z) { got.append(q, z); });
					got += whole ? "+" : "-";
				}));
				entry::add(s, got);
				p->want.push_back(s.text);
			}
			else p->want.push_back(p->kind == Reader::SIGN ? opened : plain.use(in, k));
		}
		readers.push_back(std::move(p));
	}

	Source src;
	make(r, src, before, base, all);
	std::istream& in = *src.in;
	std::ostringstream tied;
	setup(r, in, tied);
	S was = settings(in);
	Pos size = base + (Pos)all.size();
	S hist;
	auto what = [&] { return src.kind + ", " + std::to_string(base) + " bytes of " + quote(before, 100) + " before\nhistory" + hist + "\n" + quote(all, 5000); };
	for (size_t n = 2 + r.below(7); n; --n)
	{
		if (r.chance(1, 2))
		{
			// its owner uses it
			in.clear();
			switch (r.below(6))
			{
				case 0: in.seekg(base + (Pos)r.below(all.size() + 1)); break;
				case 1: in.seekg(size); in.get(); break;
				case 2: in.seekg(0); in.get(); break;
				case 3: { in.seekg(base + (Pos)r.below(all.size() + 1)); char x[300]; in.read(x, sizeof x); break; }
				case 4: in.setstate(std::ios::failbit); break;
				default: in.setstate(std::ios::eofbit); break;
			}
			hist += " owner";
			c.ev("uses by the owner");
		}
		size_t w = r.below(readers.size());
		Reader& p = *readers[w];
		if (!p.ready() || r.chance(1, 8))
		{
			in.clear();
			in.seekg(p.start);
			if (!in) { fprintf(stderr, "harness: cannot move the stream\n"); _exit(3); }
			hist += " open" + std::to_string(w);
			S got = p.open(in);
			c.check(got == p.made, "message-read-differently", [&] { return what() + "\ngot   " + quote(got, 1500) + "\nplain " + quote(p.made, 1500) + (p.kind == Reader::SIGN ? "\n" + p.cfg.str() : S()); });
			c.ev("messages opened");
		}
		else if (!p.want.empty())
		{
			size_t k = r.below(p.want.size());
			hist += " use" + std::to_string(w) + "." + std::to_string(k);
			S got = p.use(in, k);
			c.check(got == p.want[k], "result-differs", [&] { return what() + "\ngot   " + quote(got, 1500) + "\nplain " + quote(p.want[k], 1500) + (p.kind == Reader::SIGN ? "\n" + p.cfg.str() : S()); });
			c.ev(p.kind == Reader::SIGN ? "signatures repeated" : p.kind == Reader::VERIFY ? "signatures verified" : "bodies read");
			if (p.kind == Reader::VERIFY) c.ev(got.size() > 4 && got.compare(got.size() - 4, 4, "[ok]") == 0 ? "outcome pass" : "outcome other");
		}
		S now = settings(in);
		c.check(now == was, "settings-changed", [&] { return what() + "\nbefore " + was + "\nafter  " + now; });
	}
	c.ev("stream: " + src.kind.substr(0, src.kind.find_first_of(" ,")));
	c.ev(base == 0 ? "base 0" : base < (1 << 20) ? "base small" : "base beyond 2 GB or near");
	c.nontrivial(all + hist + src.kind);
	c.state(hist);
	if (c.idx < 20) c.sample(src.kind + " base " + std::to_string(base) + hist);
}
