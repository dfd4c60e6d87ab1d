// Visiting directed graphs
#include "vdrv.hpp"

#include "core/utils/graphutils.hpp"

#include <algorithm>
#include <cstring>

namespace
{
	template<class Id>
	struct Edge
	{
		Id to;
		size_t serial;
	};

	template<class Id>
	Id reference(Edge<Id> const& e)
	{
		return e.to;
	}

	template<class Id>
	struct Node
	{
		Id number;
		std::vector<Edge<Id>> edges;
	};

	template<class F, class Id>
	void visitEdges(F&& f, Node<Id> const& node)
	{
		std::for_each(std::begin(node.edges), std::end(node.edges), f);
	}

	template<class Id>
	Id id(Node<Id> const& node)
	{
		return node.number;
	}

	template<class Id>
	struct Graph
	{
		using node_type = Node<Id>;
		using edge_type = Edge<Id>;
		std::vector<Node<Id>> nodes;
	};

	template<class Id>
	Node<Id> const& getNodeById(Graph<Id> const& g, Id id)
	{
		return g.nodes.at(static_cast<size_t>(id));
	}

	template<class Id>
	size_t size(Graph<Id> const& g)
	{
		return g.nodes.size();
	}

	template<class F, class Id>
	void visitNodes(F&& f, Graph<Id> const& g)
	{
		std::for_each(std::begin(g.nodes), std::end(g.nodes), f);
	}

	struct Stop
	{
	};

	// N FROM EDGES STOP     FROM "all" or a node; EDGES: pairs of u32 (ffffffff: unresolved)
	// STOP: the callback throws after so many visits ("" never)
	template<class Id>
	vdrv::Fields serve(vdrv::Fields const& in)
	{
		auto n = std::stoul(in[1]);
		Graph<Id> g;
		for(size_t k = 0; k < n; ++k) { g.nodes.push_back(Node<Id>{static_cast<Id>(k), {}}); }
		auto const& e = in[3];
		for(size_t k = 0; k + 8 <= e.size(); k += 8)
		{
			uint32_t v[2];
			memcpy(v, e.data() + k, 8);
			g.nodes[v[0]].edges.push_back({v[1] == 0xffffffff ? static_cast<Id>(-1) : static_cast<Id>(v[1]), k / 8});
		}
		std::string visited;
		auto put = [&visited](uint32_t x) { visited.append(reinterpret_cast<char const*>(&x), 4); };
		auto left = in[4].empty() ? static_cast<size_t>(-1) : std::stoul(in[4]);
		auto cb = [&](Node<Id> const& node, Edge<Id> const* edge) {
			if(left-- == 0) { throw Stop{}; }
			put(static_cast<uint32_t>(node.number));
			put(edge == nullptr ? 0xffffffff : static_cast<uint32_t>(edge->serial));
		};
		try
		{
			if(in[2] == "all") { Maike::visitNodesInTopoOrder(cb, g); }
			else { Maike::processGraphNodeRecursive(cb, g, g.nodes[std::stoul(in[2])]); }
		}
		catch(Stop)
		{
			return {"stopped", std::move(visited)};
		}
		catch(std::exception const& e)
		{
			return {"error", e.what()};
		}
		return {"ok", std::move(visited)};
	}
}

int main()
{
	return vdrv::serve([](vdrv::Fields const& in) {
		if(in[0] == "int") { return serve<int>(in); }
		if(in[0] == "size_t") { return serve<size_t>(in); }
		return serve<uint16_t>(in);
	});
}
