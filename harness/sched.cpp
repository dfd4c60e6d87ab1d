// The thread pool, results, counters, events and callables
#include "vdrv.hpp"

#include "core/sched/thread_pool.hpp"
#include "core/sched/signaling_counter.hpp"
#include "core/sched/event.hpp"
#include "core/utils/unique_function.hpp"
#include "core/utils/scope_exit_handler.hpp"

#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <memory>
#include <optional>
#include <thread>

namespace
{
	using namespace Maike;

	struct Pace
	{
		uint64_t state;
		void operator()()
		{
			if(state == 0) { return; }
			state = state * 6364136223846793005ull + 1442695040888963407ull;
			auto x = (state >> 40) % 16;
			if(x < 4) { std::this_thread::yield(); }
			else if(x == 4) { std::this_thread::sleep_for(std::chrono::microseconds{60}); }
			else if(x < 8)
			{
				for(int volatile k = 0; k < static_cast<int>(x) * 30; ++k) {}
			}
		}
	};

	void rest(size_t us)
	{
		if(us != 0) { std::this_thread::sleep_for(std::chrono::microseconds{us}); }
	}

	class Latch
	{
	public:
		void open()
		{
			std::lock_guard l{m};
			opened = true;
			cv.notify_all();
		}
		void wait()
		{
			std::unique_lock l{m};
			cv.wait(l, [this]() { return opened; });
		}

	private:
		std::mutex m;
		std::condition_variable cv;
		bool opened{false};
	};

	struct Failure
	{
		size_t id;
	};

	using Counter = Sched::SignalingCounter<size_t>;

	struct World;

	// Belongs to the callable given to the pool
	struct Token
	{
		World* w;
		size_t id;
		Token(World* world, size_t i): w{world}, id{i}
		{
		}
		Token(Token&& t): w{t.w}, id{t.id}
		{
			t.w = nullptr;
		}
		Token& operator=(Token&&) = delete;
		~Token();
	};

	struct Spec
	{
		long parent;
		size_t kind;
		size_t delay;
		bool gate;
		size_t getters;
	};

	std::string textOf(size_t k)
	{
		return "result of " + std::to_string(k) + std::string(k % 40, 'x');
	}

	struct World
	{
		std::vector<Spec> specs;
		std::vector<std::vector<size_t>> children;
		std::unique_ptr<std::atomic<int>[]> runs;
		std::unique_ptr<std::atomic<int>[]> dead;
		std::unique_ptr<std::atomic<size_t>[]> thrown;
		std::unique_ptr<std::atomic<size_t>[]> died;
		std::atomic<size_t> seq{1};
		std::atomic<size_t> free_done{0};
		Latch gate;
		Counter counter{0};
		Sched::ThreadPool* pool{nullptr};
		std::vector<std::unique_ptr<Sched::AsyncTaskResult<std::string>>> strings;
		std::vector<std::unique_ptr<Sched::AsyncTaskResult<std::unique_ptr<size_t>>>> pointers;
		std::vector<std::unique_ptr<Sched::AsyncTaskResult<std::vector<int>>>> vectors;

		void body(size_t k)
		{
			++runs[k];
			auto const& s = specs[k];
			for(auto c : children[k]) { add(c); }
			rest(s.delay);
			if(s.gate) { gate.wait(); }
			else { ++free_done; }
		}

		void fail(size_t k)
		{
			thrown[k] = seq++;
			throw Failure{k};
		}

		void add(size_t k)
		{
			auto const& s = specs[k];
			Token t{this, k};
			// kind: 0 nothing, 1 throws, 2 result, 3 throws instead of giving a result
			if(s.kind < 2)
			{
				pool->addTask([lock = std::unique_lock<Counter>{counter}, t = std::move(t)]() mutable {
					t.w->body(t.id);
					if(t.w->specs[t.id].kind == 1) { t.w->fail(t.id); }
				});
				return;
			}
			auto common = [](Token& t) {
				t.w->body(t.id);
				if(t.w->specs[t.id].kind == 3) { t.w->fail(t.id); }
			};
			if(strings[k])
			{
				pool->addTask([lock = std::unique_lock<Counter>{counter}, t = std::move(t), common]() mutable {
					common(t);
					return textOf(t.id);
				}, *strings[k]);
			}
			else if(pointers[k])
			{
				pool->addTask([lock = std::unique_lock<Counter>{counter}, t = std::move(t), common]() mutable {
					common(t);
					return std::make_unique<size_t>(t.id);
				}, *pointers[k]);
			}
			else
			{
				pool->addTask([lock = std::unique_lock<Counter>{counter}, t = std::move(t), common]() mutable {
					common(t);
					return std::vector<int>(t.id % 9, static_cast<int>(t.id));
				}, *vectors[k]);
			}
		}

		bool right(size_t k, std::string const& x)
		{
			return x == textOf(k);
		}
		bool right(size_t k, std::unique_ptr<size_t> const& x)
		{
			return x != nullptr && *x == k;
		}
		bool right(size_t k, std::vector<int> const& x)
		{
			return x == std::vector<int>(k % 9, static_cast<int>(k));
		}

		template<class R>
		bool received(size_t k, R& res, bool take)
		{
			auto const fails = specs[k].kind == 3;
			try
			{
				if(take)
				{
					auto x = res.take();
					return !fails && right(k, x);
				}
				auto const& x = res.get();
				return !fails && right(k, x);
			}
			catch(Failure const& e)
			{
				return fails && e.id == k;
			}
		}

		bool received(size_t k, bool take)
		{
			if(strings[k]) { return received(k, *strings[k], take); }
			if(pointers[k]) { return received(k, *pointers[k], take); }
			return received(k, *vectors[k], take);
		}
	};

	Token::~Token()
	{
		if(w != nullptr)
		{
			++w->dead[id];
			w->died[id] = w->seq++;
		}
	}

	// pool WORKERS MODE PACE TASKS        TASKS: 5 numbers each: parent + 1, kind, delay, gate, getters
	// MODE: wait, atonce
	vdrv::Fields pool(vdrv::Fields const& in)
	{
		auto W = in[1];
		auto const wait = in[2] == "wait";
		Pace pace{std::stoull(in[3])};
		auto v = vdrv::sizes(in[4]);
		World w;
		auto const n = v.size() / 5;
		w.children.resize(n);
		w.runs = std::make_unique<std::atomic<int>[]>(n);
		w.dead = std::make_unique<std::atomic<int>[]>(n);
		w.thrown = std::make_unique<std::atomic<size_t>[]>(n);
		w.died = std::make_unique<std::atomic<size_t>[]>(n);
		w.strings.resize(n);
		w.pointers.resize(n);
		w.vectors.resize(n);
		size_t n_free = 0;
		size_t n_throw = 0;
		std::string problem;
		std::vector<std::thread> getters;
		std::atomic<int> wrong{0};
		std::atomic<size_t> answers{0};
		for(size_t k = 0; k < n; ++k)
		{
			auto p = v.data() + 5 * k;
			w.specs.push_back({static_cast<long>(p[0]) - 1, p[1], p[2], p[3] != 0, p[4]});
			if(p[0] != 0) { w.children[p[0] - 1].push_back(k); }
			if(p[3] == 0) { ++n_free; }
			if(p[1] == 1) { ++n_throw; }
			if(p[1] >= 2)
			{
				if(k % 3 == 0) { w.strings[k] = std::make_unique<Sched::AsyncTaskResult<std::string>>(); }
				else if(k % 3 == 1) { w.pointers[k] = std::make_unique<Sched::AsyncTaskResult<std::unique_ptr<size_t>>>(); }
				else { w.vectors[k] = std::make_unique<Sched::AsyncTaskResult<std::vector<int>>>(); }
			}
		}
		for(size_t k = 0; k < n; ++k)
		{
			if(w.specs[k].kind < 2) { continue; }
			for(size_t g = 0; g < w.specs[k].getters; ++g)
			{
				getters.emplace_back([&w, k, &wrong, &answers]() {
					if(!w.received(k, false)) { ++wrong; }
					++answers;
				});
			}
		}
		{
			Sched::ThreadPool tp{ThreadCount{W.c_str()}};
			w.pool = &tp;
			if(std::to_string(tp.count()) != W) { problem = "wrong number of workers"; }
			for(size_t k = 0; k < n; ++k)
			{
				if(w.specs[k].parent < 0)
				{
					pace();
					w.add(k);
				}
			}
			if(wait)
			{
				// All that does not block gets done while the others block
				while(w.free_done != n_free) { std::this_thread::yield(); }
			}
			w.gate.open();
			if(wait)
			{
				w.counter.wait(0);
				for(size_t k = 0; k < n; ++k)
				{
					if(w.runs[k] != 1) { problem = "task " + std::to_string(k) + " ran " + std::to_string(w.runs[k]) + " times (waited for)"; }
				}
				auto e = tp.takeLastException();
				if((e != nullptr) != (n_throw != 0)) { problem = e == nullptr ? "an exception was lost" : "an exception came from nowhere"; }
				if(e != nullptr)
				{
					try
					{
						std::rethrow_exception(e);
					}
					catch(Failure const& f)
					{
						if(f.id >= n || w.specs[f.id].kind != 1) { problem = "an exception of another task was kept"; }
						else
						{
							for(size_t k = 0; k < n; ++k)
							{
								if(w.specs[k].kind == 1 && w.died[k] < w.thrown[f.id])
								{ problem = "not the first exception was kept, but that of " + std::to_string(f.id) + ", which was thrown after task " + std::to_string(k) + " had failed"; }
							}
						}
					}
				}
				if(tp.takeLastException() != nullptr) { problem = "an exception could be taken twice"; }
				// In turn: the first stays until taken
				for(size_t k = 0; k < 3 && n_throw != 0; ++k)
				{
					tp.addTask([lock = std::unique_lock<Counter>{w.counter}, k]() { throw Failure{1000 + k}; });
					w.counter.wait(0);
					if(k == 0) { continue; }
					try
					{
						auto x = tp.takeLastException();
						if(x == nullptr) { problem = "an exception was lost"; }
						else { std::rethrow_exception(x); }
					}
					catch(Failure const& f)
					{
						if(f.id != (k == 1 ? 1000 : 1002)) { problem = "wrong exception " + std::to_string(f.id) + " in turn " + std::to_string(k); }
					}
				}
			}
		}
		for(size_t k = 0; k < n; ++k)
		{
			if(w.runs[k] != 1) { problem = "task " + std::to_string(k) + " ran " + std::to_string(w.runs[k]) + " times"; }
			if(w.dead[k] != 1) { problem = "callable " + std::to_string(k) + " was destroyed " + std::to_string(w.dead[k]) + " times"; }
		}
		if(w.counter != 0) { problem = "the tasks hold the counter"; }
		if(!problem.empty() && problem.find("ran 0") != std::string::npos)
		{
			// Whoever waits for that one would wait for ever
			vdrv::send({"error", problem});
			_exit(0);
		}
		for(auto& t : getters) { t.join(); }
		for(size_t k = 0; k < n; ++k)
		{
			if(w.specs[k].kind >= 2 && (!w.received(k, false) || !w.received(k, true))) { ++wrong; }
		}
		if(wrong != 0) { problem = "a result did not get back"; }
		if(!problem.empty()) { return {"error", problem}; }
		return {"ok"};
	}

	// early WORKERS DELAYS     results that go out of scope right away: that waits for the task
	vdrv::Fields early(vdrv::Fields const& in)
	{
		auto v = vdrv::sizes(in[2]);
		Sched::ThreadPool tp{ThreadCount{in[1].c_str()}};
		std::vector<std::thread> threads;
		std::atomic<int> bad{0};
		for(auto d : v)
		{
			threads.emplace_back([&tp, d, &bad]() {
				std::atomic<bool> done{false};
				{
					Sched::AsyncTaskResult<std::string> r;
					tp.addTask([d, &done]() -> std::string {
						rest(d / 2);
						done = true;
						if(d % 2) { throw Failure{d}; }
						return "x";
					}, r);
				}
				if(!done) { ++bad; }
			});
		}
		for(auto& t : threads) { t.join(); }
		return {bad == 0 ? "ok" : "a result was gone before its task had ended"};
	}

	// counter INIT PHASES WAITERS PACE        PHASES: inc, dec, threads    WAITERS: phase, value
	// gives the value after each phase, then for each waiter in which phase it was released (0: after them)
	template<class T>
	vdrv::Fields counter(vdrv::Fields const& in)
	{
		auto init = static_cast<T>(std::stol(in[1]));
		auto phases = vdrv::sizes(in[2]);
		auto v = vdrv::sizes(in[3]);
		auto seed = std::stoull(in[4]);
		struct Waiter
		{
			size_t phase;
			T value;
			std::atomic<bool> released{false};
			std::thread thread;
			size_t seen{0};
			bool joined{false};
		};
		std::deque<Waiter> waiters;
		Sched::SignalingCounter<T> c{init};
		for(size_t k = 0; k + 1 < v.size(); k += 2)
		{
			waiters.emplace_back();
			waiters.back().phase = v[k];
			waiters.back().value = static_cast<T>(v[k + 1]);
		}
		auto model = init;
		std::string problem;
		auto settle = [&](size_t p) {
			if(!(c == model) || c != model || c == static_cast<T>(model + 1)) { problem = "wrong value after phase " + std::to_string(p); }
			for(auto& w : waiters)
			{
				if(!w.joined && w.thread.joinable() && w.value == model)
				{
					w.thread.join();
					w.joined = true;
					if(w.seen == 0) { w.seen = p; }
				}
			}
			for(auto& w : waiters)
			{
				if(w.seen == 0 && w.released) { w.seen = p; }
			}
			// Who is there already need not wait
			c.wait(model);
		};
		for(size_t p = 1; 3 * p <= phases.size(); ++p)
		{
			for(auto& w : waiters)
			{
				if(w.phase == p)
				{
					w.thread = std::thread{[&c, &w]() {
						c.wait(w.value);
						w.released = true;
					}};
				}
			}
			auto inc = phases[3 * p - 3];
			auto dec = phases[3 * p - 2];
			auto n = std::max(phases[3 * p - 1], size_t{1});
			std::atomic<size_t> left_inc{inc};
			std::atomic<size_t> left_dec{dec};
			std::vector<std::thread> threads;
			auto claim = [](std::atomic<size_t>& x) {
				auto k = x.load();
				while(k != 0)
				{
					if(x.compare_exchange_weak(k, k - 1)) { return true; }
				}
				return false;
			};
			for(size_t t = 0; t < n; ++t)
			{
				threads.emplace_back([&, t]() {
					Pace pace{seed == 0 ? 0 : seed + 77 * t + p};
					while(true)
					{
						pace();
						if(claim(left_inc))
						{
							if(t % 2) { c.lock(); }
							else { ++c; }
						}
						else if(claim(left_dec))
						{
							if(t % 2) { c.unlock(); }
							else { --c; }
						}
						else { return; }
					}
				});
			}
			for(auto& t : threads) { t.join(); }
			model = static_cast<T>(model + inc - dec);
			settle(p);
		}
		for(auto& w : waiters)
		{
			if(!w.thread.joinable()) { continue; }
			while(model < w.value)
			{
				++c;
				++model;
			}
			while(model > w.value)
			{
				--c;
				--model;
			}
			w.thread.join();
		}
		if(!problem.empty()) { return {"error", problem}; }
		vdrv::Fields ret{"ok"};
		for(auto& w : waiters) { ret.push_back(std::to_string(w.seen)); }
		return ret;
	}

	// event SETS SETTERS PACE PACE BURST
	vdrv::Fields event(vdrv::Fields const& in)
	{
		auto n = std::stoul(in[1]);
		auto setters = std::max(std::stoul(in[2]), 1ul);
		auto burst = std::max(std::stoul(in[5]), 1ul);
		Sched::Event e;
		std::atomic<size_t> begun{0};
		std::atomic<size_t> ended{0};
		std::atomic<size_t> woken{0};
		std::string problem;
		std::thread waiter{[&]() {
			Pace pace{std::stoull(in[4])};
			size_t seen = 0;
			while(seen < n)
			{
				e.waitAndReset();
				auto w = ++woken;
				seen = begun.load();
				if(w > seen) { problem = "woken " + std::to_string(w) + " times by " + std::to_string(seen) + " events"; }
				pace();
			}
		}};
		std::vector<std::thread> threads;
		std::atomic<size_t> left{n};
		for(size_t s = 0; s < setters; ++s)
		{
			threads.emplace_back([&, s]() {
				auto p = std::stoull(in[3]);
				Pace pace{p == 0 ? 0 : p + s};
				size_t k = 0;
				while(true)
				{
					auto l = left.load();
					do
					{
						if(l == 0) { return; }
					} while(!left.compare_exchange_weak(l, l - 1));
					++begun;
					e.set();
					++ended;
					if(++k % burst == 0) { pace(); }
				}
			});
		}
		for(auto& t : threads) { t.join(); }
		waiter.join();
		return {problem.empty() ? "ok" : problem};
	}

	// pingpong N       each waits for the other: every event is needed
	vdrv::Fields pingpong(vdrv::Fields const& in)
	{
		auto n = std::stoul(in[1]);
		Sched::Event a, b;
		size_t value = 0;
		bool bad = false;
		std::thread t{[&]() {
			Pace pace{std::stoull(in[2])};
			for(size_t k = 0; k < n; ++k)
			{
				a.waitAndReset();
				if(value != 2 * k + 1) { bad = true; }
				++value;
				pace();
				b.set();
			}
		}};
		Pace pace{std::stoull(in[3])};
		for(size_t k = 0; k < n; ++k)
		{
			if(value != 2 * k) { bad = true; }
			++value;
			a.set();
			if(k % 3 == 0) { pace(); }
			b.waitAndReset();
		}
		t.join();
		return {bad ? "not in turn" : "ok"};
	}

	struct Life
	{
		int* alive;
		int id;
		Life(int* a, int i): alive{a}, id{i}
		{
			++alive[id];
		}
		Life(Life&& x): alive{x.alive}, id{x.id}
		{
			x.alive = nullptr;
		}
		Life& operator=(Life&&) = delete;
		~Life()
		{
			if(alive != nullptr) { --alive[id]; }
		}
	};

	using Func = UniqueFunction<std::string(int, std::unique_ptr<int>, std::string&)>;

	std::string plain(int a, std::unique_ptr<int> p, std::string& s)
	{
		s += "f";
		return "plain " + std::to_string(a + *p);
	}

	Func makeFunc(int* alive, int id)
	{
		switch(id % 4)
		{
			case 0:
				return Func{[l = Life{alive, id}](int a, std::unique_ptr<int> p, std::string& s) {
					s += "s";
					return std::to_string(l.id) + " " + std::to_string(a + *p);
				}};
			case 1:
				return Func{[l = Life{alive, id}, n = 0, big = std::array<long, 30>{}](int a, std::unique_ptr<int> p, std::string& s) mutable {
					s += "b";
					++n;
					big[n % 30] = n;
					return std::to_string(l.id) + " " + std::to_string(a + *p) + " call " + std::to_string(n);
				}};
			case 2:
				return Func{[l = Life{alive, id}, q = std::make_unique<int>(id)](int a, std::unique_ptr<int> p, std::string& s) {
					s += "m";
					if(a == 7) { throw Failure{static_cast<size_t>(*q)}; }
					return std::to_string(*q) + " " + std::to_string(a + *p);
				}};
			default: return Func{plain};
		}
	}

	// ufun OPS        OPS: op a b;  op 0: slot a gets a new one   1: slot a moves to an empty slot b   2: slot a is assigned to b   3: a is called with b   4: a is destroyed
	vdrv::Fields ufun(vdrv::Fields const& in)
	{
		auto ops = vdrv::sizes(in[1]);
		std::vector<std::optional<Func>> slots(8);
		std::vector<int> model(8, -2);
		std::vector<int> calls(ops.size() + 1);
		std::vector<int> alive(ops.size() + 1);
		int next = 0;
		for(size_t k = 0; k + 2 < ops.size(); k += 3)
		{
			auto op = ops[k];
			auto a = ops[k + 1] % 8;
			auto b = ops[k + 2] % 8;
			if(op == 0)
			{
				auto id = next++;
				slots[a].reset();
				slots[a].emplace(makeFunc(alive.data(), id));
				model[a] = id;
			}
			else if(op == 1 && a != b && slots[a])
			{
				slots[b].reset();
				slots[b].emplace(std::move(*slots[a]));
				model[b] = model[a];
				model[a] = -1;
			}
			else if(op == 2 && a != b && slots[a] && slots[b])
			{
				*slots[b] = std::move(*slots[a]);
				model[b] = model[a];
				model[a] = -1;
			}
			else if(op == 3 && slots[a] && model[a] >= 0)
			{
				auto id = model[a];
				std::string s;
				auto x = static_cast<int>(ops[k + 2]);
				auto const n = std::to_string(x + 5);
				std::string want = std::to_string(id) + " " + n;
				std::string tag(1, "sbmf"[id % 4]);
				if(id % 4 == 1) { want += " call " + std::to_string(++calls[id]); }
				if(id % 4 == 3) { want = "plain " + n; }
				if(id % 4 == 2 && x == 7) { want = "failure " + std::to_string(id); }
				std::string got;
				try
				{
					got = (*slots[a])(x, std::make_unique<int>(5), s);
				}
				catch(Failure const& e)
				{
					got = "failure " + std::to_string(e.id);
				}
				if(got != want || s != tag) { return {"call of " + want + " gave " + got}; }
			}
			else if(op == 4)
			{
				slots[a].reset();
				model[a] = -2;
			}
			for(size_t i = 0; i < 8; ++i)
			{
				if(slots[i].has_value() != (model[i] != -2)) { return {"model"}; }
				if(slots[i] && slots[i]->valid() != (model[i] >= 0)) { return {"valid() is wrong"}; }
			}
			for(int id = 0; id < next; ++id)
			{
				if(id % 4 == 3) { continue; }
				auto here = std::count(model.begin(), model.end(), id);
				if(alive[id] != here) { return {"callable " + std::to_string(id) + " is there " + std::to_string(alive[id]) + " times instead of " + std::to_string(here)}; }
			}
		}
		slots.clear();
		for(int id = 0; id < next; ++id)
		{
			if(alive[id] != 0) { return {"a callable was not destroyed"}; }
		}
		return {"ok"};
	}

	struct OnExit
	{
		int* n;
		std::unique_ptr<int> big{std::make_unique<int>(3)};
		void operator()()
		{
			*n += *big - 2;
		}
	};

	// scope N MOVES THROW
	vdrv::Fields scope(vdrv::Fields const& in)
	{
		auto n = std::stoul(in[1]);
		auto moves = std::stoul(in[2]);
		std::vector<int> called(n + 1);
		try
		{
			std::vector<ScopeExitHandler<OnExit>> v;
			for(size_t k = 0; k < n; ++k)
			{
				ScopeExitHandler<OnExit> h{OnExit{&called[k]}};
				std::optional<ScopeExitHandler<OnExit>> chain{std::move(h)};
				for(size_t m = 0; m < moves; ++m)
				{
					ScopeExitHandler<OnExit> g{std::move(*chain)};
					chain.reset();
					chain.emplace(std::move(g));
				}
				v.push_back(std::move(*chain));
			}
			int lambda = 0;
			{
				auto f = UniqueFunction<void()>{[h = ScopeExitHandler{[&lambda]() { ++lambda; }}]() {}};
				auto g = std::move(f);
				g();
				if(lambda != 0) { return {"called early"}; }
			}
			if(lambda != 1) { return {"called " + std::to_string(lambda) + " times"}; }
			for(auto c : called)
			{
				if(c != 0) { return {"called early"}; }
			}
			if(in[3] == "1") { throw 1; }
		}
		catch(int)
		{
		}
		for(size_t k = 0; k < n; ++k)
		{
			if(called[k] != 1) { return {"called " + std::to_string(called[k]) + " times"}; }
		}
		return {"ok"};
	}

	// meet WORKERS PACE ROUNDS        ROUNDS: 3 numbers each: tasks, flavour, pause
	// The tasks of a round are handed over in a burst and each ends only when all of them have been started.
	vdrv::Fields meet(vdrv::Fields const& in)
	{
		Pace pace{std::stoull(in[2])};
		auto v = vdrv::sizes(in[3]);
		Sched::ThreadPool tp{ThreadCount{in[1].c_str()}};
		for(size_t r = 0; r + 2 < v.size(); r += 3)
		{
			auto const n = v[r];
			auto const flavour = v[r + 1];
			std::atomic<size_t> there{0};
			std::atomic<size_t> done{0};
			std::vector<std::unique_ptr<Sched::AsyncTaskResult<size_t>>> results(n);
			std::vector<std::unique_ptr<Sched::AsyncTaskResult<size_t>>>* res = &results;
			auto body = [&there, &done, n]() {
				++there;
				while(there < n) { std::this_thread::yield(); }
				++done;
			};
			auto add = [&tp, res, flavour, body](size_t k) {
				if(flavour % 3 == 0 || (flavour % 3 == 2 && k % 2 == 0))
				{
					(*res)[k] = std::make_unique<Sched::AsyncTaskResult<size_t>>();
					tp.addTask([body, k]() {
						body();
						return k;
					}, *(*res)[k]);
				}
				else { tp.addTask(body); }
			};
			rest(v[r + 2]);
			if(flavour >= 3 && n > 1)
			{
				tp.addTask([&add, n, body]() {
					for(size_t k = 1; k < n; ++k) { add(k); }
					body();
				});
			}
			else
			{
				for(size_t k = 0; k < n; ++k)
				{
					pace();
					add(k);
				}
			}
			while(done < n) { std::this_thread::yield(); }
			for(size_t k = 0; k < n; ++k)
			{
				if(results[k] && results[k]->get() != k) { return {"task " + std::to_string(k) + " gave another result"}; }
			}
		}
		return {"ok"};
	}

	vdrv::Fields serve(vdrv::Fields const& in)
	{
		if(in[0] == "meet") { return meet(in); }
		if(in[0] == "pool") { return pool(in); }
		if(in[0] == "early") { return early(in); }
		if(in[0] == "counter") { return counter<int>(in); }
		if(in[0] == "ucounter") { return counter<size_t>(in); }
		if(in[0] == "event") { return event(in); }
		if(in[0] == "pingpong") { return pingpong(in); }
		if(in[0] == "ufun") { return ufun(in); }
		if(in[0] == "scope") { return scope(in); }
		return {"unknown"};
	}
}

int main()
{
	return vdrv::serve(serve);
}
