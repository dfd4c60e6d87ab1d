// The key-value store: reading, writing, typed access, merging
#include "vdrv.hpp"

#include "core/key_value_store/compound.hpp"
#include "core/key_value_store/array.hpp"

#include <algorithm>
#include <cstring>

namespace
{
	using namespace Maike::KeyValueStore;

	struct Source
	{
		std::string const& text;
		std::vector<size_t> cuts;
		size_t pos{0};
		size_t k{0};
	};

	size_t read(Source& src, std::byte* buffer, size_t N)
	{
		auto n = std::min(N, src.text.size() - src.pos);
		if(!src.cuts.empty())
		{
			n = std::min(n, src.cuts[src.k % src.cuts.size()]);
			++src.k;
		}
		memcpy(buffer, src.text.data() + src.pos, n);
		src.pos += n;
		return n;
	}

	struct Sink
	{
		std::string text;
	};

	void write(Sink& sink, char const* buffer, size_t N)
	{
		sink.text.append(buffer, N);
	}

	void write(Sink& sink, std::byte const* buffer, size_t N)
	{
		sink.text.append(reinterpret_cast<char const*>(buffer), N);
	}

	template<class T>
	std::string dump(T const& x, bool pretty = false)
	{
		Sink s;
		store(x, s, PrettyPrint{pretty});
		return s.text;
	}

	template<class F>
	vdrv::Fields guard(F&& f)
	{
		try
		{
			return f();
		}
		catch(std::exception const& e)
		{
			return {"error", e.what()};
		}
	}

	template<class C>
	vdrv::Fields access(C const& c, char const* key, std::string const& type, bool optional)
	{
		auto with = [&](auto tag, auto conv) -> vdrv::Fields {
			using T = decltype(tag);
			if(optional)
			{
				auto v = c.template getIf<T>(key);
				if(!v) { return {"absent"}; }
				return {"value", conv(*v)};
			}
			return {"value", conv(c.template get<T>(key))};
		};
		return guard([&]() -> vdrv::Fields {
			if(type == "string") { return with((char const*)nullptr, [](char const* s) { return dump(JsonHandle{s}); }); }
			if(type == "integer") { return with(json_int_t{}, [](json_int_t s) { return dump(JsonHandle{s}); }); }
			if(type == "float") { return with(double{}, [](double s) { return dump(JsonHandle{s}); }); }
			if(type == "compound")
			{
				if(optional)
				{
					auto v = c.template getIf<CompoundRefConst>(key);
					if(!v) { return {"absent"}; }
					return {"value", dump(v->handle())};
				}
				return {"value", dump(c.template get<CompoundRefConst>(key).handle())};
			}
			if(optional)
			{
				auto v = c.template getIf<ArrayRefConst>(key);
				if(!v) { return {"absent"}; }
				return {"value", dump(v->handle())};
			}
			return {"value", dump(c.template get<ArrayRefConst>(key).handle())};
		});
	}

	// load TEXT CUTS NAME
	// compound TEXT CUTS NAME      (also iterates)
	// array TEXT CUTS NAME
	// access TEXT KEY TYPE OPTIONAL REF
	// merge A B
	// set TEXT KEY VALUE
	// elems TEXT TYPE              (typed access to the elements of an array)
	vdrv::Fields serve(vdrv::Fields const& in)
	{
		auto const& op = in[0];
		return guard([&]() -> vdrv::Fields {
			if(op == "load")
			{
				Source src{in[1], vdrv::sizes(in[2])};
				auto h = jsonLoad(src, in[3]);
				if(!h.valid()) { return {"empty"}; }
				return {"ok", dump(h), dump(h, true), std::string{h.source()}};
			}
			if(op == "compound")
			{
				Source src{in[1], vdrv::sizes(in[2])};
				Compound c{src, in[3]};
				vdrv::Fields ret{"ok", std::to_string(c.size()), dump(c)};
				for(auto i = c.begin(); i != c.end(); ++i)
				{
					auto e = *i;
					ret.push_back(e.first);
					ret.push_back(dump(e.second));
				}
				return ret;
			}
			if(op == "array")
			{
				Source src{in[1], vdrv::sizes(in[2])};
				Array c{src, in[3]};
				vdrv::Fields ret{"ok", std::to_string(c.size())};
				for(auto i = c.begin(); i != c.end(); ++i) { ret.push_back(dump(*i)); }
				return ret;
			}
			if(op == "access")
			{
				Source src{in[1], {}};
				Compound c{src, "name"};
				if(in[5] == "1") { return access(c.reference(), in[2].c_str(), in[3], in[4] == "1"); }
				return access(c, in[2].c_str(), in[3], in[4] == "1");
			}
			if(op == "elems")
			{
				Source src{in[1], {}};
				Array c{src, "name"};
				vdrv::Fields ret;
				for(auto i = c.begin(); i != c.end(); ++i)
				{
					auto r = guard([&]() -> vdrv::Fields {
						if(in[2] == "string") { return {dump(JsonHandle{Maike::KeyValueStore::get<char const*>(*i)})}; }
						if(in[2] == "integer") { return {dump(JsonHandle{Maike::KeyValueStore::get<json_int_t>(*i)})}; }
						if(in[2] == "float") { return {dump(JsonHandle{Maike::KeyValueStore::get<double>(*i)})}; }
						if(in[2] == "compound") { return {dump(Maike::KeyValueStore::get<CompoundRefConst>(*i).handle())}; }
						return {dump(Maike::KeyValueStore::get<ArrayRefConst>(*i).handle())};
					});
					ret.push_back(r[0]);
				}
				return ret;
			}
			if(op == "merge")
			{
				Source sa{in[1], {}};
				Source sb{in[2], {}};
				Compound a{sa, "a"};
				Compound b{sb, "b"};
				Compound a2{a};
				auto r = guard([&]() -> vdrv::Fields {
					a |= b;
					return {"ok", dump(a)};
				});
				if(r[0] != "ok") { r[1].clear(); }
				r.push_back(dump(a2));
				r.push_back(dump(b));
				return r;
			}
			if(op == "set")
			{
				Source s{in[1], {}};
				Compound a{s, "a"};
				Compound copy{a.reference()};
				Source v{in[3], {}};
				auto h = jsonLoad(v, "v");
				a.set(in[2].c_str(), h);
				return {"ok", dump(a), dump(copy), dump(h)};
			}
			return {"error", "unknown"};
		});
	}
}

int main()
{
	return vdrv::serve(serve);
}
