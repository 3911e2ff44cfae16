// Stream buffers with chosen chunking and chosen faults. No header of /repo.
#pragma once
#include <istream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <vector>

namespace streams
{
	struct IoError : std::runtime_error { IoError() : std::runtime_error("injected I/O error") {} };

	// A seekable, read-only stream over a string that delivers at most `chunk` bytes at a time and can fail.
	class Buf : public std::streambuf
	{
		public:
			std::string data;
			size_t chunk = 1 << 20;
			// faults: an absolute byte position that cannot be read, number of times it fails (-1: always)
			long failAt = -1;
			long failTimes = -1;
			long failSeek = -1;	// the n-th repositioning fails (0: the first)
			long failSeekTimes = -1;
			long failTell = -1;	// the n-th question for the position fails
			long failTellTimes = -1;
			bool returnEof = false;	// the failing read pretends to be at the end (not used as a fault)
			bool seekable = true;
			// what happened
			unsigned long reads = 0, seeks = 0, tells = 0, faults = 0, seekFaults = 0, tellFaults = 0;
			long maxRead = 0;

			explicit Buf(const std::string& d) : data(d) {}
			long pos() const { return off - (egptr() - gptr()); }
		protected:
			long off = 0;	// behind the current chunk
			std::string cur;
			bool fill()
			{
				if (off >= (long)data.size()) return false;
				long n = (long)data.size() - off;
				if (n > (long)chunk) n = (long)chunk;
				if (failAt >= 0 && failTimes != 0 && off + n > failAt)
				{
					if (off == failAt)
					{
						if (failTimes > 0) --failTimes;
						++faults;
						throw IoError();
					}
					n = failAt - off;
					if (n < 0) n = 0;
					if (n == 0)
					{
						// behind the failing position (after a seek)
						n = (long)data.size() - off;
						if (n > (long)chunk) n = (long)chunk;
					}
				}
				cur.assign(data, (size_t)off, (size_t)n);
				off += n;
				setg(&cur[0], &cur[0], &cur[0] + cur.size());
				++reads;
				if (off > maxRead) maxRead = off;
				return true;
			}
			int_type underflow() override
			{
				if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
				return fill() ? traits_type::to_int_type(*gptr()) : traits_type::eof();
			}
			pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override
			{
				if (!seekable) return pos_type(off_type(-1));
				long here = pos();
				if (d == std::ios_base::cur && o == 0)	// tellg
				{
					++tells;
					if (failTell >= 0 && (long)tells - 1 >= failTell && failTellTimes != 0)
					{
						if (failTellTimes > 0) --failTellTimes;
						++tellFaults;
						return pos_type(off_type(-1));
					}
					return pos_type(here);
				}
				long to = d == std::ios_base::beg ? (long)o : d == std::ios_base::cur ? here + (long)o : (long)data.size() + (long)o;
				return seekpos(pos_type(to), std::ios_base::in);
			}
			pos_type seekpos(pos_type p, std::ios_base::openmode) override
			{
				if (!seekable) return pos_type(off_type(-1));
				long to = (long)off_type(p);
				++seeks;
				if (failSeek >= 0 && (long)seeks - 1 >= failSeek && failSeekTimes != 0)
				{
					if (failSeekTimes > 0) --failSeekTimes;
					++seekFaults;
					return pos_type(off_type(-1));
				}
				if (to < 0 || to > (long)data.size()) return pos_type(off_type(-1));
				off = to;
				cur.clear();
				setg(nullptr, nullptr, nullptr);
				return pos_type(to);
			}
	};
}
