// Starts programs, several at a time, through Maike::Exec::execve
#include "vdrv.hpp"

#include "core/exec/execve.hpp"

#include <cstring>
#include <fcntl.h>
#include <dirent.h>
#include <sys/wait.h>
#include <thread>
#include <atomic>

namespace
{
	struct Redirector
	{
		std::string const& in;
		size_t pos{0};
		std::string out;
		std::string err;

		explicit Redirector(std::string const& s): in{s}
		{
		}

		size_t operator()(std::byte* buffer, size_t n, Maike::Io::Redirector::StdIn)
		{
			n = std::min(n, in.size() - pos);
			if(n != 0) { memcpy(buffer, in.data() + pos, n); }
			pos += n;
			return n;
		}

		void operator()(std::byte const* buffer, size_t n, Maike::Io::Redirector::StdOut)
		{
			out.append(reinterpret_cast<char const*>(buffer), n);
		}

		void operator()(std::byte const* buffer, size_t n, Maike::Io::Redirector::StdErr)
		{
			err.append(reinterpret_cast<char const*>(buffer), n);
		}
	};

	std::string text(std::vector<std::byte> const& v)
	{
		return std::string(reinterpret_cast<char const*>(v.data()), v.size());
	}

	struct Call
	{
		bool with_input;
		std::string input;
		std::string exe;
		std::vector<std::string> args;
		std::string after;
		std::string done;
		vdrv::Fields ret;
	};

	std::string show(Maike::Exec::ExitStatus s)
	{
		auto r = s.returnedFromMain() ? "exit " + std::to_string(s.returnCode())
		                              : "signal " + std::to_string(s.signo());
		return r + (failed(s) ? " failed" : " ok");
	}

	// Starts when there is a file named after, and makes a file named done when the call has returned
	void run(Call& c)
	{
		while(!c.after.empty() && access(c.after.c_str(), F_OK) != 0) { usleep(500); }
		try
		{
			if(c.with_input)
			{
				Redirector r{c.input};
				auto s = Maike::Exec::execve(c.exe, c.args, r);
				c.ret = {show(s), std::move(r.out), std::move(r.err)};
			}
			else
			{
				auto r = Maike::Exec::execve(c.exe, c.args);
				c.ret = {show(r.exitStatus()), text(r.stdout()), text(r.stderr())};
			}
		}
		catch(std::exception const& e)
		{
			c.ret = {"error", e.what(), ""};
		}
		if(!c.done.empty()) { ::close(::open(c.done.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0644)); }
	}

	std::string descriptors()
	{
		int n = 0;
		auto d = opendir("/proc/self/fd");
		while(auto e = readdir(d))
		{
			if(e->d_name[0] != '.') { ++n; }
		}
		closedir(d);
		return std::to_string(n - 1);
	}

	// THREADS then per call: "1"/"0", input, exe, number of args, args..., after, done
	vdrv::Fields serve(vdrv::Fields const& in)
	{
		auto n_threads = std::stoul(in[0]);
		std::vector<Call> calls;
		for(size_t k = 1; k < in.size();)
		{
			Call c{in[k] == "1", in[k + 1], in[k + 2], {}, {}, {}, {}};
			auto n = std::stoul(in[k + 3]);
			c.args.assign(in.begin() + k + 4, in.begin() + k + 4 + n);
			c.after = in[k + 4 + n];
			c.done = in[k + 5 + n];
			k += 6 + n;
			calls.push_back(std::move(c));
		}
		auto before = descriptors();
		std::atomic<size_t> next{0};
		std::vector<std::thread> threads;
		for(size_t k = 0; k < n_threads; ++k)
		{
			threads.emplace_back([&]() {
				size_t i;
				while((i = next++) < calls.size()) { run(calls[i]); }
			});
		}
		for(auto& t : threads) { t.join(); }
		int status;
		auto left = waitpid(-1, &status, WNOHANG);
		vdrv::Fields ret{before, descriptors(), left == -1 ? "none" : "some"};
		for(auto& c : calls)
		{
			for(auto& f : c.ret) { ret.push_back(std::move(f)); }
		}
		return ret;
	}
}

int main()
{
	return vdrv::serve(serve);
}
