// What the builds of C40 run: one request, one result. The input is made by the driver or, from a seed, here; both sides
// use the harness compiled alike, only the library differs.
#pragma once
#include "entry.hpp"

namespace builds
{
	typedef std::string S;

	inline void put(S& o, const S& x) { uint32_t n = (uint32_t)x.size(); o.append((char*)&n, 4); o += x; }
	inline S get(const S& d, size_t& p)
	{
		uint32_t n = 0;
		if (p + 4 > d.size()) return S();
		memcpy(&n, d.data() + p, 4);
		S x = d.substr(p + 4, n);
		p += 4 + n;
		return x;
	}

	inline S request(const entry::Input& in) { S o = "E"; o += (char)in.which; o += (char)in.opt; put(o, in.a); put(o, in.b); return o; }
	inline S request(uint64_t seed) { S o = "W"; o.append((char*)&seed, 8); return o; }

	// (the input, the result)
	inline std::pair<S, S> run(const S& req)
	{
		entry::Seen s;
		if (req[0] == 'E')
		{
			entry::Input in;
			in.which = (unsigned char)req[1];
			in.opt = (unsigned char)req[2];
			size_t p = 3;
			in.a = get(req, p);
			in.b = get(req, p);
			return { S(), entry::run(in).text };
		}
		uint64_t seed;
		memcpy(&seed, req.data() + 1, 8);
		mon::Rng r(seed);
		gen::Message m = gen::message(r, true);
		gen::Cfg cfg = gen::config(r, m);
		S text = m.text(&r, (int)r.below(3));
		S input = text + "\n" + cfg.str();
		dk::KeyHold hold;
		DKIM::SignatoryOptions o;
		entry::add(s, dk::call([&] { dk::apply(cfg, o, hold); }));
		for (auto& h : o.GetHeaders()) entry::add(s, h);
		S sig;
		entry::add(s, dk::call([&] { sig = dk::sign(text, o); }));
		entry::add(s, sig);
		if (!sig.empty())
		{
			std::istringstream in(sig + "\r\n" + text);
			DKIM::Validatory v(in, cfg.arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
			dk::Dns d = dk::zoneFor(cfg);
			v.CustomDNSResolver = std::ref(d);
			for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i)
			{
				DKIM::Signature g;
				entry::add(s, dk::verify(v, i, &g));
				entry::readSignature(s, g);
			}
		}
		return { input, s.text };
	}
}
