// Replays behaviours of Grid.tla on the real OpenMps::Grid and records its answers.
//   grid OPS OUT.ndjson
// Positions are integers in quarters of a block.
#include <array>
#include <fstream>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <vector>
#include "emit.hpp"
#include "defines.hpp"
#include "Vector.hpp"
#include "Grid.hpp"
using OpenMps::DIM;

namespace
{
	Emit out;
	int k = 0;
	double nl = 1, l0 = 1, off = 0;
	OpenMps::Vector lo = OpenMps::VectorZero;
	OpenMps::Vector Pos(const std::array<long, 3>& q)
	{
		OpenMps::Vector x = OpenMps::VectorZero;
		for (std::size_t a = 0; a < DIM; a++) { x[a] = lo[a] + static_cast<double>(q[a]) * (nl / 4) + off; }
		return x;
	}
	std::array<long, 3> Ints(std::istream& in)
	{
		std::array<long, 3> q{{0, 0, 0}};
		for (std::size_t a = 0; a < DIM; a++) { in >> q[a]; }
		return q;
	}
	void Q(const std::array<long, 3>& q) { out.List(DIM, [&](auto a) { out.Int(q[a]); }); }
	void Head(const char* ev) { out.Raw("{\"ev\":"); out.Str(ev); out.Raw(",\"k\":"); out.Int(k); out.Raw(",\"c\":0"); }
	const char* Store(OpenMps::Grid& g, const OpenMps::Vector& x, std::size_t id)
	{
		try { return g.Store(x, id) ? "stored" : "refused"; }
		catch (const OpenMps::Grid::Exception&) { return "full"; }
	}
}

int main(int argc, char* argv[])
{
	if (argc != 3) { return 2; }
	std::ifstream in(argv[1]);
	out.f = std::fopen(argv[2], "w");
	if (!in || !out.f) { return 2; }
	std::unique_ptr<OpenMps::Grid> g;
	std::array<long, 3> cells{{1, 1, 1}};
	std::string line;
	while (std::getline(in, line))
	{
		std::istringstream ls(line);
		std::string cmd;
		if (!(ls >> cmd)) { continue; }
		if (cmd == "grid") // cells.. room nl l0 off min.. max..
		{
			k++;
			out.Flush();
			long room;
			cells = Ints(ls); ls >> room >> nl >> l0 >> off;
			OpenMps::Vector hi = lo;
			for (std::size_t a = 0; a < DIM; a++) { ls >> lo[a]; }
			for (std::size_t a = 0; a < DIM; a++) { ls >> hi[a]; }
			g = std::make_unique<OpenMps::Grid>(nl, l0, lo, hi);
			g->Clear();
			Head("grid"); out.Raw(",\"cells\":"); Q(cells); out.Raw(",\"cap\":"); out.Int(room); out.Raw(",\"max\":"); out.Int(static_cast<long long>(g->MaxParticles())); out.Raw("}"); out.Line();
		}
		else if (cmd == "store")
		{
			const auto q = Ints(ls); std::size_t id; ls >> id;
			const char* r = Store(*g, Pos(q), id);
			Head("store"); out.Raw(",\"x\":"); Q(q); out.Raw(",\"id\":"); out.Int(static_cast<long long>(id)); out.Raw(",\"res\":"); out.Str(r); out.Raw("}"); out.Line();
		}
		else if (cmd == "many")
		{
			std::size_t n; ls >> n;
			std::vector<std::array<long, 3>> q(n); std::vector<std::size_t> id(n); std::vector<const char*> r(n);
			for (std::size_t i = 0; i < n; i++) { q[i] = Ints(ls); ls >> id[i]; }
			#pragma omp parallel for schedule(dynamic, 1)
			for (long i = 0; i < static_cast<long>(n); i++) { const auto s = static_cast<std::size_t>(i); r[s] = Store(*g, Pos(q[s]), id[s]); }
			Head("many"); out.Raw(",\"x\":"); out.List(n, [&](auto i) { Q(q[i]); });
			out.Raw(",\"ids\":"); out.List(n, [&](auto i) { out.Int(static_cast<long long>(id[i])); });
			out.Raw(",\"res\":"); out.List(n, [&](auto i) { out.Str(r[i]); }); out.Raw("}"); out.Line();
		}
		else if (cmd == "clear") { g->Clear(); Head("clear"); out.Raw("}"); out.Line(); }
		else if (cmd == "walk")
		{
			const auto q = Ints(ls);
			std::vector<long long> ids;
			bool ended = true;
			const auto end = g->cend();
			for (auto it = g->cbegin(Pos(q)); !(it == end); ++it)
			{
				ids.push_back(static_cast<long long>(*it % 1000003));
				if (ids.size() > 5000) { ended = false; ids.resize(20); break; }
			}
			Head("walk"); out.Raw(",\"x\":"); Q(q); out.Raw(",\"ids\":"); out.List(ids.size(), [&](auto i) { out.Int(ids[i]); });
			out.Raw(",\"ended\":"); out.Bool(ended); out.Raw("}"); out.Line();
		}
		else if (cmd == "counts")
		{
			Head("counts"); out.Raw(",\"of\":[");
			bool first = true;
			for (long i = 0; i < cells[0]; i++) { for (long j = 0; j < cells[1]; j++) {
#ifdef DIM3
				for (long m = 0; m < cells[2]; m++) {
					if (!first) { out.Raw(","); } first = false;
					out.Raw("["); Q({{i, j, m}}); out.Raw(","); out.Int(static_cast<long long>(g->ParticleCount(i, j, m))); out.Raw("]");
				}
#else
				if (!first) { out.Raw(","); } first = false;
				out.Raw("["); Q({{i, j, 0}}); out.Raw(","); out.Int(static_cast<long long>(g->ParticleCount(i, j))); out.Raw("]");
#endif
			} }
			out.Raw("]}"); out.Line();
		}
		else { return 2; }
	}
	out.Flush();
	return 0;
}
