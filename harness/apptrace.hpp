// Included before the application's own sources (-include): writes the parameters the first step runs with,
// and the particles as its search finds them.
#pragma once
#include <cstdlib>
#include "emit.hpp"

struct OpenMpsTrace { template<typename C> static void Point(const C& c, const char*); };
#include "Computer.hpp"

template<typename C> void OpenMpsTrace::Point(const C& c, const char* point)
{
	static bool done = false;
	const char* name = std::getenv("OPENMPS_ENV_OUT");
	if (done || name == nullptr) { return; }
	done = true;
	Emit out;
	out.f = std::fopen(name, "w");
	if (out.f == nullptr) { return; }
	const auto& e = c.GetEnvironment();
	const auto F = [&](const char* k, double v) { out.Raw(",\""); out.Raw(k); out.Raw("\":"); out.Dbl(v); };
	out.Raw("{\"dim\":"); out.Int(OpenMps::DIM);
	F("l0", e.L_0); F("rho", e.Rho); F("nu", e.Nu); F("re", e.R_e); F("maxdx", e.MaxDx); F("maxdt", e.MaxDt);
	out.Raw(",\"g\":"); out.Vec(e.G, OpenMps::DIM); out.Raw(",\"min\":"); out.Vec(e.MinX, OpenMps::DIM); out.Raw(",\"max\":"); out.Vec(e.MaxX, OpenMps::DIM);
#ifndef PRESSURE_EXPLICIT
	F("eps", c.ppe.allowableResidual); F("c", 0);
#else
	F("eps", 0); F("c", e.C);
#endif
#ifndef MPS_SPP
	F("sr", e.SurfaceRatio);
#else
	F("sr", 0);
#endif
	out.Raw(",\"ps\":[");
	if (std::string(point) == "search")
	{
		bool first = true;
		for (const auto& p : c.Particles())
		{
			out.Raw(first ? "{\"ty\":" : ",{\"ty\":"); first = false;
			out.Int(static_cast<int>(p.TYPE()));
			out.Raw(",\"x\":"); out.Vec(p.X(), OpenMps::DIM); out.Raw(",\"u\":"); out.Vec(p.U(), OpenMps::DIM);
			F("p", p.P()); F("n", p.N());
			out.Raw("}");
		}
	}
	out.Raw("]}"); out.Line(); out.Flush();
	std::fclose(out.f);
}