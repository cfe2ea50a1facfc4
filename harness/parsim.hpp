// Control of the simulated OpenMP runtime (parsim.cpp).
#pragma once
#include <cstdio>
namespace parsim
{
	// threads: size of the teams; interleave: switch threads at memory accesses, otherwise one thread runs as long as it can;
	// seed: which order or interleaving (0: ascending order)
	void Schedule(int threads, bool interleave, unsigned seed);
	// From now on write what every thread of every region touches to f (nullptr: stop); k: number of the scenario.
	void Record(std::FILE* f, int k);
	// number of regions executed so far
	long Regions();
}
