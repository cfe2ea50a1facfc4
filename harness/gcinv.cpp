// Records the correction matrices the code computes: every matrix with small integer entries, and random ones.
//   gcinv OUT.ndjson SEED RANDOM
#include <array>
#include <cstdlib>
#include <random>
#include "emit.hpp"
#include "Computer.hpp"
using OpenMps::DIM;
constexpr int N = static_cast<int>(DIM * DIM);

int main(int argc, char* argv[])
{
	if (argc != 4) { return 2; }
	Emit out;
	out.f = std::fopen(argv[1], "w");
	std::mt19937_64 rng(std::strtoull(argv[2], nullptr, 10));
	const auto one = [&](const std::array<double, N>& v, bool exact, double val)
	{
		OpenMps::Detail::CorrectiveMatrix m;
		for (int i = 0; i < N; i++) { m(i / DIM, i % DIM) = v[i]; }
		const auto inv = OpenMps::Detail::InvertMatrix(std::move(m), val);
		const auto mat = [&](auto get) { out.List(static_cast<int>(DIM), [&](int a) { out.List(static_cast<int>(DIM), [&](int b) { out.Dbl(get(a, b)); }); }); };
		out.Raw("{\"dim\":"); out.Int(DIM); out.Raw(",\"exact\":"); out.Bool(exact); out.Raw(",\"val\":"); out.Dbl(val);
		out.Raw(",\"m\":"); mat([&](int a, int b) { return v[static_cast<std::size_t>(a * static_cast<int>(DIM) + b)]; });
		out.Raw(",\"inv\":"); mat([&](int a, int b) { return inv(a, b); });
		out.Raw("}"); out.Line();
	};
	const int lim = DIM == 2 ? 3 : 1, base = 2 * lim + 1;
	long total = 1;
	for (int i = 0; i < N; i++) { total *= base; }
	for (long k = 0; k < total; k++)
	{
		std::array<double, N> v;
		long q = k;
		for (int i = 0; i < N; i++) { v[static_cast<std::size_t>(i)] = static_cast<double>(q % base - lim); q /= base; }
		one(v, true, 0.25);
	}
	std::uniform_real_distribution<double> u(-1, 1), e(-6, 6);
	const long n = std::strtol(argv[3], nullptr, 10);
	for (long k = 0; k < n; k++)
	{
		std::array<double, N> v{};
		const double scale = std::pow(10.0, e(rng));
		if (k % 3 == 0) { for (auto& x : v) { x = scale * u(rng); } }
		else // as they arise: sums of dx (x) dx
		{
			const int m = 1 + static_cast<int>(rng() % 8);
			for (int q = 0; q < m; q++)
			{
				double d[3]; for (auto& x : d) { x = u(rng); }
				for (int i = 0; i < N; i++) { v[static_cast<std::size_t>(i)] += scale * d[i / static_cast<int>(DIM)] * d[i % static_cast<int>(DIM)]; }
			}
		}
		one(v, false, scale);
	}
	out.Flush();
	return 0;
}
