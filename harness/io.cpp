// Queues, buffers and files
#include "vdrv.hpp"

#include "core/io/fifo.hpp"
#include "core/io/input_buffer.hpp"
#include "core/io/output_buffer.hpp"
#include "core/io/reader.hpp"
#include "core/io/writer.hpp"
#include "core/io/input_file.hpp"
#include "core/io/mem_io_redirector.hpp"

#include <atomic>
#include <cstring>
#include <chrono>
#include <dirent.h>
#include <functional>
#include <memory>
#include <sys/stat.h>
#include <thread>

namespace
{
	using namespace Maike;
	using Bytes = std::basic_string<std::byte>;

	struct Pace
	{
		uint64_t state;
		void operator()()
		{
			if(state == 0) { return; }
			state = state * 6364136223846793005ull + 1442695040888963407ull;
			auto x = (state >> 40) % 16;
			if(x < 4) { std::this_thread::yield(); }
			else if(x == 4) { std::this_thread::sleep_for(std::chrono::microseconds{50}); }
			else if(x < 8)
			{
				for(int volatile k = 0; k < static_cast<int>(x) * 20; ++k) {}
			}
		}
	};

	struct Sizes
	{
		std::vector<size_t> v;
		size_t k{0};
		size_t next()
		{
			return v[k++ % v.size()];
		}
	};

	// A source that gives as much as it likes, and the end again and again
	struct Source
	{
		std::string const* data;
		Sizes sizes;
		size_t pos{0};
	};

	size_t read(Source& src, std::byte* buffer, size_t n)
	{
		n = std::min(n, src.data->size() - src.pos);
		if(n > 1) { n = std::min(n, std::max(src.sizes.next(), size_t{1})); }
		if(n != 0) { memcpy(buffer, src.data->data() + src.pos, n); }
		src.pos += n;
		return n;
	}

	struct Sink
	{
		std::string* data;
	};

	void write(Sink& sink, std::byte const* buffer, size_t n)
	{
		sink.data->append(reinterpret_cast<char const*>(buffer), n);
	}

	template<class F>
	auto withCapacity(size_t n, F&& f)
	{
		switch(n)
		{
			case 1: return f(std::integral_constant<size_t, 1>{});
			case 2: return f(std::integral_constant<size_t, 2>{});
			case 3: return f(std::integral_constant<size_t, 3>{});
			case 7: return f(std::integral_constant<size_t, 7>{});
			case 64: return f(std::integral_constant<size_t, 64>{});
			default: return f(std::integral_constant<size_t, 4096>{});
		}
	}

	template<class S>
	void readAll(S& src, std::string const& kind, size_t capacity, std::string const& sizes, Pace pace, std::atomic<size_t>& got, std::string& out, bool again)
	{
		auto add = [&](std::byte const* p, size_t n) {
			out.append(reinterpret_cast<char const*>(p), n);
			got.store(out.size(), std::memory_order_relaxed);
		};
		if(kind == "direct" || kind == "reader")
		{
			Sizes s{vdrv::sizes(sizes)};
			Io::Reader r{src};
			while(true)
			{
				pace();
				auto n = s.next();
				auto buffer = std::make_unique<std::byte[]>(n);
				auto k = kind == "direct" ? read(src, buffer.get(), n) : read(r, buffer.get(), n);
				if(k > n) { throw std::runtime_error{"read gave more than there is room for"}; }
				if(k == 0) { break; }
				add(buffer.get(), k);
			}
		}
		else
		{
			withCapacity(capacity, [&](auto cap) {
				Io::InputBuffer<Io::Reader, cap.value> buffer{Io::Reader{src}};
				while(true)
				{
					pace();
					auto c = buffer.getchar();
					if(c == -1) { break; }
					if(c < 0 || c > 255) { throw std::runtime_error{"getchar gave " + std::to_string(c)}; }
					auto b = static_cast<std::byte>(c);
					add(&b, 1);
				}
				if(again)
				{
					for(int k = 0; k < 3; ++k)
					{
						if(buffer.getchar() != -1) { throw std::runtime_error{"something after the end"}; }
					}
				}
				return 0;
			});
		}
	}

	template<class S, class W>
	void writeAll(S& dest, std::string const& kind, size_t capacity, std::string const& sizes, std::string const& data, Pace pace, W&& written)
	{
		auto p = reinterpret_cast<std::byte const*>(data.data());
		auto v = vdrv::sizes(sizes);
		if(kind == "direct" || kind == "writer" || kind == "chars")
		{
			Sizes s{v};
			size_t pos = 0;
			while(pos < data.size() || s.k < v.size())
			{
				pace();
				auto n = std::min(s.next(), data.size() - pos);
				// The buffer belongs to the caller, who may reuse it at once
				auto tmp = std::make_unique<std::byte[]>(n);
				if(n != 0) { memcpy(tmp.get(), p + pos, n); }
				Io::Writer w{dest};
				if(kind == "direct") { write(dest, static_cast<std::byte const*>(tmp.get()), n); }
				else if(kind == "writer") { write(w, static_cast<std::byte const*>(tmp.get()), n); }
				else { write(w, reinterpret_cast<char const*>(tmp.get()), n); }
				memset(tmp.get(), 0x5a, n);
				pos += n;
				written(pos);
			}
		}
		else
		{
			// v: after so many bytes, flush
			withCapacity(capacity, [&](auto cap) {
				Io::OutputBuffer<Io::TaggedWriter<3>, cap.value> buffer{Io::TaggedWriter<3>{dest}};
				Sizes s{v};
				auto left = s.next();
				for(size_t k = 0; k < data.size(); ++k)
				{
					pace();
					if(k % 3 == 0) { buffer.putchar(data[k]); }
					else { buffer.putchar(p[k]); }
					if(--left == 0 || left > 1000000)
					{
						buffer.flush();
						written(k + 1);
						if(v.size() % 2 == 0) { buffer.flush(); }
						left = s.next();
					}
				}
				return 0;
			});
		}
	}

	// pipe DATA WKIND WCAP WSIZES RKIND RCAP RSIZES MODE WPACE RPACE
	vdrv::Fields pipe(vdrv::Fields const& in)
	{
		auto const& data = in[1];
		auto const& mode = in[8];
		Io::Fifo<std::byte> fifo;
		std::string out;
		std::atomic<size_t> got{0};
		std::string error;
		auto writer = [&]() {
			writeAll(fifo, in[2], std::stoul(in[3]), in[4], data, Pace{std::stoull(in[9])}, [&](size_t n) {
				if(mode == "lockstep")
				{
					// What has been written is there to be read at once
					while(got.load(std::memory_order_relaxed) < n) { std::this_thread::yield(); }
				}
			});
			fifo.stop();
		};
		auto reader = [&]() {
			try
			{
				readAll(fifo, in[5], std::stoul(in[6]), in[7], Pace{std::stoull(in[10])}, got, out, false);
			}
			catch(std::exception const& e)
			{
				error = e.what();
				got = static_cast<size_t>(-1);
			}
		};
		if(mode == "seq")
		{
			writer();
			reader();
		}
		else
		{
			std::thread a{reader};
			std::thread b{writer};
			a.join();
			b.join();
		}
		if(!error.empty()) { return {"error", error}; }
		return {"ok", std::move(out)};
	}

	// words N WSIZES RSIZES WPACE RPACE         a queue of something that is not a byte
	vdrv::Fields words(vdrv::Fields const& in)
	{
		auto n = std::stoul(in[1]);
		std::vector<uint64_t> data(n);
		for(size_t k = 0; k < n; ++k) { data[k] = k * 0x9e3779b97f4a7c15ull; }
		Io::Fifo<uint64_t> fifo;
		std::vector<uint64_t> out;
		std::thread a{[&]() {
			Sizes s{vdrv::sizes(in[3])};
			Pace pace{std::stoull(in[5])};
			while(true)
			{
				pace();
				auto k = s.next();
				std::vector<uint64_t> tmp(k);
				k = read(fifo, tmp.data(), k);
				if(k == 0) { return; }
				out.insert(out.end(), tmp.begin(), tmp.begin() + k);
			}
		}};
		std::thread b{[&]() {
			Sizes s{vdrv::sizes(in[2])};
			Pace pace{std::stoull(in[4])};
			size_t pos = 0;
			while(pos < n)
			{
				pace();
				auto k = std::min(s.next(), n - pos);
				write(fifo, data.data() + pos, k);
				pos += k;
			}
			fifo.stop();
		}};
		a.join();
		b.join();
		return {out == data ? "ok" : "differs", std::to_string(out.size())};
	}

	// buffers DATA WCAP FLUSHES RCAP SHORT       OutputBuffer to a string, InputBuffer from a source with short reads
	vdrv::Fields buffers(vdrv::Fields const& in)
	{
		std::string sunk;
		Sink sink{&sunk};
		writeAll(sink, "buffer", std::stoul(in[2]), in[3], in[1], Pace{0}, [](size_t) {});
		Source src{&in[1], Sizes{vdrv::sizes(in[5])}};
		std::string out;
		std::atomic<size_t> got;
		try
		{
			readAll(src, "buffer", std::stoul(in[4]), "", Pace{0}, got, out, true);
		}
		catch(std::exception const& e)
		{
			return {"error", e.what()};
		}
		return {"ok", std::move(sunk), std::move(out)};
	}

	std::string descriptors()
	{
		int n = 0;
		auto d = opendir("/proc/self/fd");
		while(auto e = readdir(d))
		{
			if(e->d_name[0] != '.') { ++n; }
		}
		closedir(d);
		return std::to_string(n - 1);
	}

	// file PATH RKIND RCAP RSIZES MOVES OTHER
	// MOVES: c move construct, a move assign to an open file, r move assign to a closed file, n a file that has been moved from is destroyed
	vdrv::Fields file(vdrv::Fields const& in)
	{
		auto before = descriptors();
		std::string out;
		std::string error;
		try
		{
			auto f = std::make_unique<Io::InputFile>(fs::path{in[1]});
			for(auto c : in[5])
			{
				if(c == 'c') { f = std::make_unique<Io::InputFile>(std::move(*f)); }
				else
				{
					auto g = std::make_unique<Io::InputFile>(fs::path{in[6]});
					if(c == 'r') { g->reset(); }
					*g = std::move(*f);
					f = std::move(g);
				}
			}
			std::atomic<size_t> got;
			readAll(*f, in[2], std::stoul(in[3]), in[4], Pace{0}, got, out, true);
		}
		catch(std::exception const& e)
		{
			error = e.what();
		}
		auto after = descriptors();
		if(before != after) { return {"leak", before + " " + after}; }
		if(!error.empty()) { return {"error", error, std::move(out)}; }
		return {"ok", std::move(out)};
	}

	// mem INPUT READSIZES OPS PAYLOAD       OPS: 1 n, 2 n: n bytes of PAYLOAD to stdout or stderr
	vdrv::Fields mem(vdrv::Fields const& in)
	{
		Io::MemRedirector r{reinterpret_cast<std::byte const*>(in[1].data()), in[1].size()};
		Io::Redirector v{r};
		Sizes s{vdrv::sizes(in[2])};
		std::string got;
		while(true)
		{
			auto n = s.next();
			auto b = std::make_unique<std::byte[]>(n);
			auto k = v.stdin()(v.handle(), b.get(), n);
			if(k > n) { return {"more than room"}; }
			if(k == 0) { break; }
			got.append(reinterpret_cast<char const*>(b.get()), k);
		}
		auto ops = vdrv::sizes(in[3]);
		size_t pos = 0;
		auto p = reinterpret_cast<std::byte const*>(in[4].data());
		for(size_t k = 0; k + 1 < ops.size(); k += 2)
		{
			auto n = std::min(ops[k + 1], in[4].size() - pos);
			(ops[k] == 1 ? v.stdout() : v.stderr())(v.handle(), p + pos, n);
			pos += n;
		}
		auto text = [](auto const& x) { return std::string(reinterpret_cast<char const*>(x.data()), x.size()); };
		return {"ok", got, text(r.stdout()), text(r.stderr())};
	}

	vdrv::Fields serve(vdrv::Fields const& in)
	{
		if(in[0] == "pipe") { return pipe(in); }
		if(in[0] == "words") { return words(in); }
		if(in[0] == "buffers") { return buffers(in); }
		if(in[0] == "file") { return file(in); }
		if(in[0] == "mem") { return mem(in); }
		return {"unknown"};
	}
}

int main()
{
	return vdrv::serve(serve);
}
