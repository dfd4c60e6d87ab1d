// Feeds a text, cut into reads of given sizes, to the source file loaders
#include "vdrv.hpp"

#include "core/source_file_info_loaders/cxx/source_file_loader.hpp"
#include "core/source_file_info_loaders/extension/source_file_loader.hpp"
#include "core/source_file_info_loaders/maikerule/source_file_loader.hpp"

#include <algorithm>
#include <cstring>

namespace
{
	struct Source
	{
		std::string const& text;
		std::vector<size_t> cuts;
		size_t pos{0};
		size_t k{0};
	};

	size_t read(Source& src, std::byte* buffer, size_t N)
	{
		auto n = std::min(N, src.text.size() - src.pos);
		if(!src.cuts.empty())
		{
			n = std::min(n, src.cuts[src.k % src.cuts.size()]);
			++src.k;
		}
		memcpy(buffer, src.text.data() + src.pos, n);
		src.pos += n;
		return n;
	}

	struct Sink
	{
		std::string text;
	};

	void write(Sink& sink, std::byte const* buffer, size_t N)
	{
		sink.text.append(reinterpret_cast<char const*>(buffer), N);
	}

	template<class Loader>
	vdrv::Fields filter(Loader const& l, Source& src)
	{
		Sink tags;
		Sink source;
		l.filterInput(Maike::Io::Reader{src},
		              Maike::SourceFileInfoLoaders::SourceOutStream{source},
		              Maike::SourceFileInfoLoaders::TagsOutStream{tags});
		return {source.text, tags.text};
	}

	// deps TEXT CUTS PATTERN... | cxx TEXT CUTS | ext TEXT CUTS | rule TEXT CUTS
	vdrv::Fields serve(vdrv::Fields const& in)
	{
		Source src{in[1], vdrv::sizes(in[2])};
		if(in[0] == "deps")
		{
			auto loader = in.size() == 3
			                 ? Cxx::SourceFileLoader{}
			                 : Cxx::SourceFileLoader{std::vector<std::string>(in.begin() + 3, in.end())};
			vdrv::Fields ret;
			for(auto const& d : loader.getDependencies(Maike::Io::Reader{src}))
			{
				ret.push_back(d.name().string());
				auto o = d.expectedOrigin();
				ret.push_back(o == Maike::Db::SourceFileOrigin::Project
				                 ? "project"
				                 : o == Maike::Db::SourceFileOrigin::Generated
				                      ? "generated"
				                      : o == Maike::Db::SourceFileOrigin::System ? "system" : "other");
			}
			return ret;
		}
		if(in[0] == "cxx") { return filter(Cxx::SourceFileLoader{}, src); }
		if(in[0] == "ext") { return filter(Extension::SourceFileLoader{}, src); }
		return filter(Maikerule::SourceFileLoader{}, src);
	}
}

int main()
{
	return vdrv::serve(serve);
}
