// Frames over stdin and stdout: u32 number of fields, then per field u32 length and bytes.
#ifndef VDRV_HPP
#define VDRV_HPP

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>

namespace vdrv
{
	using Fields = std::vector<std::string>;

	inline FILE*& out()
	{
		static FILE* f = stdout;
		return f;
	}

	inline bool getn(void* p, size_t n)
	{
		return fread(p, 1, n, stdin) == n;
	}

	inline bool receive(Fields& f)
	{
		uint32_t n;
		if(!getn(&n, 4)) { return false; }
		f.clear();
		for(uint32_t k = 0; k < n; ++k)
		{
			uint32_t l;
			if(!getn(&l, 4)) { return false; }
			std::string s(l, '\0');
			if(l != 0 && !getn(s.data(), l)) { return false; }
			f.push_back(std::move(s));
		}
		return true;
	}

	inline void send(Fields const& f)
	{
		auto put = [](uint32_t v) { fwrite(&v, 1, 4, out()); };
		put(static_cast<uint32_t>(f.size()));
		for(auto const& s : f)
		{
			put(static_cast<uint32_t>(s.size()));
			fwrite(s.data(), 1, s.size(), out());
		}
		fflush(out());
	}

	// The protocol keeps descriptors of its own, so that code under test can use 0 and 1
	inline void init()
	{
		auto fd = fcntl(1, F_DUPFD_CLOEXEC, 100);
		out() = fdopen(fd, "w");
		auto null = open("/dev/null", O_WRONLY);
		dup2(null, 1);
		close(null);
	}

	template<class F>
	int serve(F&& f)
	{
		init();
		Fields in;
		while(receive(in)) { send(f(in)); }
		return 0;
	}

	inline std::vector<size_t> sizes(std::string const& s)
	{
		std::vector<size_t> ret;
		char const* p = s.c_str();
		while(*p != '\0')
		{
			char* e;
			ret.push_back(strtoull(p, &e, 10));
			if(e == p) { break; }
			p = e;
			while(*p == ' ' || *p == ',') { ++p; }
		}
		return ret;
	}
}

#endif
