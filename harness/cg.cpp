// Records what the pressure solver does with given systems: small integer ones exhaustively, and random ones of many kinds.
//   cg OUT.ndjson SEED RANDOM
#include <array>
#include <cmath>
#include <cstdlib>
#include <random>
#include <vector>
#include "emit.hpp"
#define TEST_CONJUGATEGRADIENT
namespace { namespace OpenMps { class ConjugateGradientTest; } }
#include "Computer.hpp"

namespace { namespace OpenMps
{
	struct Wall { Vector operator()(std::size_t, double, double) const { return VectorZero; } };
	struct Pre { void operator()(double, double) const {} };
	const Wall wall;
	const Pre pre;

	class ConjugateGradientTest
	{
	public:
		using Dense = std::vector<std::vector<double>>;
		using Vec = std::vector<double>;
		Emit out;
		std::size_t size = 0;
		Environment env{1, 0.1, 9.8, 1000, 0,
#ifndef MPS_SPP
			0.95,
#endif
			2.1, 0.1,
#ifdef DIM3
			0, 0, 0, 1, 1, 1
#else
			0, 0, 1, 1
#endif
		};
		using Comp = decltype(CreateComputer(0.0, std::declval<const Environment&>(), wall, pre));
		Comp c = CreateComputer(1e-10, env, wall, pre);

		void Solve(const char* kind, const Dense& a, const Vec& b, const Vec& x0, double eps)
		{
			auto& ppe = c.ppe;
			const auto n = b.size();
			if (n != size)
			{
				ppe.A.resize(n, n, false);
				ppe.x.resize(n, false); ppe.b.resize(n, false);
				ppe.cg.r.resize(n, false); ppe.cg.p.resize(n, false); ppe.cg.Ap.resize(n, false);
#ifdef USE_VIENNACL
				ppe.tempA.resize(n, n, false);
#endif
				size = n;
			}
			ppe.allowableResidual = eps;
#ifdef USE_VIENNACL
			auto& A = ppe.tempA;
#else
			auto& A = ppe.A;
#endif
			A.clear();
			for (std::size_t i = 0; i < n; i++)
			{
				for (std::size_t j = 0; j < n; j++) { if (i == j || a[i][j] != 0) { A(i, j) = a[i][j]; } }
				ppe.b(i) = b[i];
				ppe.x(i) = x0[i];
			}
#ifdef USE_VIENNACL
			viennacl::copy(ppe.tempA, ppe.A);
#endif
			std::string how = "ok";
			try { c.SolvePressurePoissonEquation(); }
			catch (const typename Comp::Exception&) { how = "gave up"; }
			catch (const std::exception& e) { how = std::string("other exception: ") + e.what(); }
			catch (...) { how = "something else thrown"; }
			out.Raw("{\"kind\":"); out.Str(kind);
			out.Raw(",\"eps\":"); out.Dbl(eps);
			out.Raw(",\"cols\":"); out.List(n, [&](auto i) { bool first = true; out.Raw("["); for (std::size_t j = 0; j < n; j++) { if (i == j || a[i][j] != 0) { if (!first) { out.Raw(","); } first = false; out.Int(static_cast<long long>(j) + 1); } } out.Raw("]"); });
			out.Raw(",\"vals\":"); out.List(n, [&](auto i) { bool first = true; out.Raw("["); for (std::size_t j = 0; j < n; j++) { if (i == j || a[i][j] != 0) { if (!first) { out.Raw(","); } first = false; out.Dbl(a[i][j]); } } out.Raw("]"); });
			out.Raw(",\"b\":"); out.List(n, [&](auto i) { out.Dbl(b[i]); });
			out.Raw(",\"x0\":"); out.List(n, [&](auto i) { out.Dbl(x0[i]); });
			out.Raw(",\"how\":"); out.Str(how);
			out.Raw(",\"x\":"); out.List(n, [&](auto i) { const double v = ppe.x(i); out.Dbl(v); });
			out.Raw("}"); out.Line();
			if (out.s.size() > (1u << 20)) { out.Flush(); }
		}
	};
}}

int main(int argc, char* argv[])
{
	if (argc != 4) { return 2; }
	using T = OpenMps::ConjugateGradientTest;
	using Dense = T::Dense; using Vec = T::Vec;
	T t;
	t.out.f = std::fopen(argv[1], "w");
	if (!t.out.f) { return 2; }
	// every system of one or two unknowns with small integers
	for (int a = -2; a <= 2; a++) { for (int b = -2; b <= 2; b++) { for (int x = -1; x <= 1; x++) {
		t.Solve("one", {{double(a)}}, {double(b)}, {double(x)}, 1e-10);
	} } }
	for (int a = -2; a <= 2; a++) { for (int c = -2; c <= 2; c++) { for (int d = -2; d <= 2; d++) {
		for (int e = 0; e < 9; e++) { for (int f = 0; f < 9; f++) {
			t.Solve("two", {{double(a), double(c)}, {double(c), double(d)}}, {double(e % 3 - 1), double(e / 3 - 1)}, {double(f % 3 - 1), double(f / 3 - 1)}, 1e-10);
		} }
	} } }
	// of three unknowns, with a diagonal as the pressure equation has it (one sign, or empty)
	for (int d = 0; d < 8; d++) { for (int o = 0; o < 27; o++) { for (int e = 0; e < 27; e++) {
		const double p = o % 3 - 1, q = o / 3 % 3 - 1, r = o / 9 - 1;
		t.Solve("three", {{d & 1 ? -2.0 : 0, p, q}, {p, d & 2 ? -2.0 : 0, r}, {q, r, d & 4 ? -2.0 : 0}},
			{double(e % 3 - 1), double(e / 3 % 3 - 1), double(e / 9 - 1)}, {double(o % 2), 0, double(-(e % 2))}, 1e-10);
	} } }

	std::mt19937_64 rng(std::strtoull(argv[2], nullptr, 10));
	std::uniform_real_distribution<double> u(-1, 1);
	// long chains: benign, but every unknown is far from most others
	for (const std::size_t n : {160, 240, 330, 420})
	{
		Dense a(n, Vec(n, 0.0));
		Vec b(n), x0(n, 0.0);
		const double shift = n < 200 ? 0.1 : n < 300 ? 0.03 : 0.015, sign = n % 4 == 0 ? -1 : 1;
		for (std::size_t i = 0; i < n; i++)
		{
			a[i][i] = sign * (2 + shift);
			if (i > 0) { a[i][i - 1] = a[i - 1][i] = -sign; }
			b[i] = u(rng);
		}
		t.Solve("chain", a, b, x0, 1e-10);
	}
	const auto pick = [&](std::initializer_list<double> v) { return v.begin()[rng() % v.size()]; };
	const long count = std::strtol(argv[3], nullptr, 10);
	for (long k = 0; k < count; k++)
	{
		const std::size_t n = k % 5 == 0 ? 1 + rng() % 4 : k % 5 < 4 ? 2 + rng() % 14 : 16 + rng() % 30;
		Dense a(n, Vec(n, 0.0));
		Vec b(n), x0(n);
		const double scale = pick({1, 1, 1, 1e-40, 1e40, 1e-6, 1e8});
		double eps = pick({1e-3, 1e-6, 1e-8, 1e-10});
		const auto random = [&](Vec& v, double s) { for (auto& q : v) { q = s * u(rng); } };
		random(b, scale);
		switch (rng() % 4) { case 0: break; case 1: random(x0, 1); break; case 2: random(x0, 1e3); break; default: x0.assign(n, 1.0); }
		const char* kind = "";
		const double sign = rng() % 4 ? -1 : 1;
		const auto kindNo = k % 11;
		if (kindNo <= 2) // dominated by its diagonal
		{
			kind = "dominant";
			for (std::size_t i = 0; i < n; i++) { for (std::size_t j = 0; j < i; j++) { if (rng() % 3 == 0) { a[i][j] = a[j][i] = u(rng); } } }
			double m = 0.5;
			for (auto& row : a) { double s = 0; for (auto v : row) { s += std::abs(v); } m = std::max(m, s); }
			for (std::size_t i = 0; i < n; i++) { a[i][i] = sign * m * (2.2 + u(rng)* 0.1); }
			if (rng() % 3 == 0) { const double f = pick({1e-30, 1e30, 1e3}); for (auto& row : a) { for (auto& v : row) { v *= f; } } }
		}
		else if (kindNo <= 5) // as the pressure equation: couplings, some identity rows, a diagonal that may or may not exceed the sum
		{
			kind = kindNo == 5 ? "laplacian without boundary" : "laplacian";
			std::vector<bool> id(n, false);
			for (std::size_t i = 0; i < n; i++) { id[i] = kindNo == 4 && rng() % 4 == 0; }
			for (std::size_t i = 0; i < n; i++) { for (std::size_t j = 0; j < i; j++) {
				if (!id[i] && !id[j] && (j + 1 == i || rng() % 4 == 0)) { a[i][j] = a[j][i] = std::pow(10.0, 1.5 * u(rng)); } } }
			for (std::size_t i = 0; i < n; i++)
			{
				double s = 0; for (std::size_t j = 0; j < n; j++) { s += a[i][j]; }
				if (id[i]) { a[i][i] = 1; b[i] = 0; x0[i] = 0; }
				else { a[i][i] = -s - (kindNo == 5 || rng() % 3 ? 0 : std::pow(10.0, u(rng))); }
			}
			if (kindNo == 5 && rng() % 2) { double s = 0; for (auto v : b) { s += v; } b[0] -= s; } // consistent
		}
		else if (kindNo == 6)
		{
			kind = "any symmetric";
			for (std::size_t i = 0; i < n; i++) { for (std::size_t j = 0; j <= i; j++) { if (rng() % 2) { a[i][j] = a[j][i] = u(rng); } } }
		}
		else if (kindNo == 7) // badly conditioned, definite
		{
			kind = "graded";
			for (std::size_t i = 0; i < n; i++) { a[i][i] = sign * std::pow(10.0, 6 * u(rng)); }
			for (std::size_t i = 1; i < n; i++) { const double m = std::sqrt(std::abs(a[i][i] * a[i - 1][i - 1])); a[i][i - 1] = a[i - 1][i] = 0.4 * m * u(rng); }
		}
		else if (kindNo == 8) // already solved
		{
			kind = "solved";
			for (auto& v : x0) { v = static_cast<double>(rng() % 5) - 2; }
			for (std::size_t i = 0; i < n; i++) { for (std::size_t j = 0; j <= i; j++) { a[i][j] = a[j][i] = static_cast<double>(rng() % 5) - 2; } }
			for (std::size_t i = 0; i < n; i++) { b[i] = 0; for (std::size_t j = 0; j < n; j++) { b[i] += a[i][j] * x0[j]; } }
			if (rng() % 3 == 0) { b.assign(n, 0.0); x0.assign(n, 0.0); }
		}
		else if (kindNo == 9) // numbers that are none
		{
			kind = "not finite";
			for (std::size_t i = 0; i < n; i++) { a[i][i] = -2; if (i) { a[i][i - 1] = a[i - 1][i] = 1; } }
			const double bad = pick({std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()});
			const auto i = rng() % n, j = rng() % n;
			switch (rng() % 4) { case 0: a[i][i] = bad; break; case 1: b[i] = bad; break; case 2: x0[i] = bad; break; default: a[i][j] = a[j][i] = bad; }
		}
		else // identity, with zero rows here and there
		{
			kind = "diagonal";
			for (std::size_t i = 0; i < n; i++) { a[i][i] = pick({1, 1, -3, 0}); if (a[i][i] == 0 && rng() % 4) { b[i] = 0; } }
		}
		t.Solve(kind, a, b, x0, eps);
	}
	t.out.Flush();
	return 0;
}
