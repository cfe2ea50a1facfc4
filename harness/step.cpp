// Trace driver: runs scenarios on the real OpenMps::Computer and records what happens.
//   step SCENARIOS OUT.ndjson
// The scenario language is line based; see /verif/DESIGN.md ("Harness").
#include <cmath>
#include <fstream>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <vector>
#include <spawn.h>
#include <sys/wait.h>
#include <unistd.h>
#ifdef _OPENMP
#include <omp.h>
#endif
#include "emit.hpp"
#ifdef PARSIM // with the simulated OpenMP runtime
#include "parsim.hpp"
#endif

struct OpenMpsTrace
{
	template<typename C> static void Point(const C& c, const char* name);
};
#ifdef NO_HOOKS
#undef OPENMPS_TRACE
#endif
#include "Computer.hpp"

namespace
{
	using OpenMps::DIM;
	using OpenMps::Vector;
	Emit out;
	bool hooks = true;      // record the stages inside a step
	int scenario = 0;
	int current = 0;        // the computer a step is running on

	struct WallLog
	{
		std::mutex m;
		std::vector<std::pair<double, double>> pre;
		struct Call { std::size_t i; double t, dt; };
		std::vector<Call> calls;
		bool early = false;
		void Clear() { pre.clear(); calls.clear(); early = false; }
	};

	struct World // what the wall functions of one computer refer to
	{
		std::vector<Vector> x0;
		Vector v = OpenMps::VectorZero, q = OpenMps::VectorZero, d = OpenMps::VectorZero;
		double offset = 0;
		Vector boost = OpenMps::VectorZero;   // common velocity
		std::vector<std::size_t> labels;      // the walls move by label (the index, if there are none)
		WallLog log;
	};

	struct WallFn
	{
		World* w;
		Vector operator()(std::size_t i, double t, double dt) const
		{
#ifndef PARSIM
			{
				std::lock_guard<std::mutex> g(w->log.m);
				if (w->log.pre.empty()) { w->log.early = true; }
				w->log.calls.push_back({i, t, dt});
			}
#endif
			Vector x = w->x0.at(i);
			const double f = static_cast<double>((w->labels.empty() ? i : w->labels.at(i)) % 3), tt = t + w->offset;
			for (std::size_t a = 0; a < DIM; a++)
			{
				const double m = (tt * w->v[a] + (tt * tt) * w->q[a]) + dt * w->d[a];
				x[a] = x[a] + f * m;
				if (w->boost[a] != 0) { x[a] += t * w->boost[a]; }
			}
			return x;
		}
	};
	struct PreFn
	{
		World* w;
		void operator()(double t, double dt) const
		{
			std::lock_guard<std::mutex> g(w->log.m);
			w->log.pre.emplace_back(t, dt);
		}
	};

	const WallFn* wallType = nullptr; const PreFn* preType = nullptr;
	auto MakeComputer(double eps, const OpenMps::Environment& env, const WallFn& wf, const PreFn& pf)
	{
		static_cast<void>(eps);
		return OpenMps::CreateComputer(
#ifndef PRESSURE_EXPLICIT
			eps,
#endif
			env, wf, pf);
	}
	using Comp = decltype(MakeComputer(0.0, std::declval<const OpenMps::Environment&>(), *wallType, *preType));

	struct Sim
	{
		std::unique_ptr<World> world;
		std::unique_ptr<WallFn> wf;
		std::unique_ptr<PreFn> pf;
		std::unique_ptr<Comp> c;
		std::string env, opts; // as given
	};

	template<typename C> void Columns(const C& c)
	{
		const auto& ps = c.Particles();
		const auto n = ps.size();
		out.Raw("\"ty\":"); out.List(n, [&](auto i) { out.Int(static_cast<int>(ps[i].TYPE())); });
		out.Raw(",\"x\":"); out.List(n, [&](auto i) { out.Vec(ps[i].X(), DIM); });
		out.Raw(",\"u\":"); out.List(n, [&](auto i) { out.Vec(ps[i].U(), DIM); });
		out.Raw(",\"p\":"); out.List(n, [&](auto i) { out.Dbl(ps[i].P()); });
		out.Raw(",\"n\":"); out.List(n, [&](auto i) { out.Dbl(ps[i].N()); });
		out.Raw(",\"t\":"); out.Dbl(c.GetEnvironment().T());
		out.Raw(",\"dt\":"); out.Dbl(c.GetEnvironment().Dt());
	}
	void Head(const char* ev)
	{
		out.Raw("{\"ev\":"); out.Str(ev);
		out.Raw(",\"k\":"); out.Int(scenario);
		out.Raw(",\"c\":"); out.Int(current);
		out.Raw(",");
	}
	void WallCalls(World& w)
	{
		out.Raw(",\"pre\":"); out.List(w.log.pre.size(), [&](auto i) { out.Raw("["); out.Dbl(w.log.pre[i].first); out.Raw(","); out.Dbl(w.log.pre[i].second); out.Raw("]"); });
		out.Raw(",\"early\":"); out.Bool(w.log.early);
		out.Raw(",\"calls\":"); out.List(w.log.calls.size(), [&](auto i) {
			out.Raw("["); out.Int(static_cast<long long>(w.log.calls[i].i) + 1); out.Raw(","); out.Dbl(w.log.calls[i].t); out.Raw(","); out.Dbl(w.log.calls[i].dt); out.Raw("]"); });
	}
	World* world = nullptr; // of the running computer
}

template<typename C> void OpenMpsTrace::Point(const C& c, const char* name)
{
	if (!hooks) { return; }
	const std::string ev = name;
	Head(name);
	Columns(c);
	const auto n = c.Particles().size();
	if (ev == "search")
	{
		out.Raw(",\"nbr\":");
		out.List(n, [&](auto i) {
			if (c.Particles()[i].TYPE() == OpenMps::Particle::Type::Disabled) { out.Raw("[]"); return; }
			// numbers that make no sense are recorded as 0
			const auto count = std::min<std::size_t>(c.NeighborCount(i), c.neighbor.shape()[1] - 1);
			out.List(count, [&](auto k) { const std::size_t j = c.Neighbor(i, k); out.Int(j < n ? static_cast<long long>(j) + 1 : 0); });
		});
	}
	if (ev == "explicit") { WallCalls(*world); }
#ifndef PRESSURE_EXPLICIT
	if (ev == "assembled")
	{
		std::vector<std::vector<std::pair<std::size_t, double>>> rows(n);
#ifdef USE_VIENNACL
		// what the solver will use: the device matrix, copied back
		std::vector<std::map<unsigned int, double>> m(n);
		viennacl::copy(c.ppe.A, m);
		for (std::size_t i = 0; i < n; i++) { for (const auto& e : m[i]) { rows[i].emplace_back(e.first, e.second); } }
#else
		for (auto r = c.ppe.A.begin1(); r != c.ppe.A.end1(); ++r)
		{
			for (auto e = r.begin(); e != r.end(); ++e) { rows[e.index1()].emplace_back(e.index2(), *e); }
		}
#endif
		out.Raw(",\"rows\":");
		out.List(n, [&](auto i) {
			out.List(rows[i].size(), [&](auto k) { out.Raw("["); out.Int(static_cast<long long>(rows[i][k].first) + 1); out.Raw(","); out.Dbl(rows[i][k].second); out.Raw("]"); });
		});
		out.Raw(",\"b\":"); out.List(c.ppe.b.size(), [&](auto i) { out.Dbl(c.ppe.b(i)); });
	}
	if (ev == "assembled" || ev == "solve")
	{
		out.Raw(",\"sol\":"); out.List(c.ppe.x.size(), [&](auto i) { out.Dbl(c.ppe.x(i)); });
	}
#endif
	out.Raw("}");
	out.Line();
}

namespace
{
	double Num(std::istream& in)
	{
		std::string s;
		if (!(in >> s)) { throw std::runtime_error("scenario: number expected"); }
		return std::strtod(s.c_str(), nullptr);
	}
	Vector Vec(std::istream& in)
	{
		Vector v = OpenMps::VectorZero;
		for (std::size_t a = 0; a < DIM; a++) { v[a] = Num(in); }
		return v;
	}

	template<typename FN, typename FAIL> bool Guarded(FN fn, FAIL onFail)
	{
		const char* kind;
		std::string what;
		try { fn(); return true; }
		catch (const OpenMps::Grid::Exception& e) { kind = "grid"; what = e.what(); }
		catch (const typename Comp::Exception& e) { kind = "computer"; what = e.what(); }
		catch (const std::exception& e) { kind = "other"; what = e.what(); }
		catch (...) { kind = "unknown"; }
		onFail();
		Head("throw");
		out.Raw("\"kind\":"); out.Str(kind);
		out.Raw(",\"what\":"); out.Str(what);
		out.Raw("}"); out.Line();
		return false;
	}
}

int main(int argc, char* argv[])
{
	if (argc != 3) { return 2; }
	std::ifstream in(argv[1]);
	out.f = std::fopen(argv[2], "w");
	if (!in || !out.f) { return 2; }
#ifdef PARSIM
	std::FILE* const regions = std::fopen((std::string(argv[2]) + ".regions").c_str(), "w");
	if (!regions) { return 2; }
#endif

	std::string line, name, opts;
	bool exact = false;
	double maxDt = 0, courant = 0, g = 0, rho = 0, nu = 0, ratio = 0, l0 = 0, eps = 0, sr = 0, c0 = 0;
	Vector minX = OpenMps::VectorZero, maxX = OpenMps::VectorZero;
	Vector wv = minX, wq = minX, wd = minX;
	std::vector<OpenMps::Particle> pending;
	std::vector<Vector> pendingX0; // where the wall functions start from, if not from the particles
	double offset = 0;
	std::string envLine, threadsLine, schedLine, rel = "[]";
	bool sched = false;
	Vector boost = minX, mirror = minX, shift = minX;
	unsigned shuffle = 0;
	std::vector<std::size_t> labels;
	std::map<int, Sim> sims;
	bool failed = false;
	int from = -1;

	const auto Env = [&]()
	{
		return OpenMps::Environment(maxDt, courant, g, rho, nu,
#ifndef MPS_SPP
			sr,
#endif
			ratio,
#ifdef PRESSURE_EXPLICIT
			c0,
#endif
			l0,
#ifdef DIM3
			minX[0], minX[1], minX[2], maxX[0], maxX[1], maxX[2]
#else
			minX[0], minX[1], maxX[0], maxX[1]
#endif
			);
	};
	const auto New = [&](int id, double offset)
	{
		Sim s;
		s.world = std::make_unique<World>();
		s.world->v = wv; s.world->q = wq; s.world->d = wd; s.world->offset = offset;
		s.world->boost = boost; s.world->labels = labels;
		s.wf = std::make_unique<WallFn>(WallFn{s.world.get()});
		s.pf = std::make_unique<PreFn>(PreFn{s.world.get()});
		s.c = std::make_unique<Comp>(MakeComputer(eps, Env(), *s.wf, *s.pf));
		s.env = envLine; s.opts = opts;
		sims[id] = std::move(s);
		current = id;
		world = sims[id].world.get();
		const auto& e = sims[id].c->GetEnvironment();
		Head("new");
		out.Raw("\"name\":"); out.Str(name);
		out.Raw(",\"exact\":"); out.Bool(exact);
		out.Raw(",\"opts\":"); out.Raw(opts);
		out.Raw(",\"hooks\":"); out.Bool(hooks);
		const auto F = [&](const char* k, double v) { out.Raw(",\""); out.Raw(k); out.Raw("\":"); out.Dbl(v); };
		out.Raw(",\"sched\":"); out.Bool(sched);
		out.Raw(",\"rel\":"); out.Raw(rel);
		out.Raw(",\"boost\":"); out.Vec(boost, DIM);
		out.Raw(",\"labels\":"); out.List(labels.size(), [&](auto i) { out.Int(static_cast<long long>(labels[i])); });
		out.Raw(",\"raw\":{\"dim\":"); out.Int(DIM);
		F("maxdt", maxDt); F("courant", courant); F("g", g); F("rho", rho); F("nu", nu); F("ratio", ratio); F("l0", l0);
		F("eps", eps); F("sr", sr); F("c", c0); F("offset", offset);
		out.Raw(",\"min\":"); out.Vec(minX, DIM); out.Raw(",\"max\":"); out.Vec(maxX, DIM);
		out.Raw(",\"wv\":"); out.Vec(wv, DIM); out.Raw(",\"wq\":"); out.Vec(wq, DIM); out.Raw(",\"wd\":"); out.Vec(wd, DIM);
		out.Raw("},\"env\":{\"dim\":"); out.Int(DIM);
		F("maxdt", e.MaxDt); F("maxdx", e.MaxDx); F("l0", e.L_0); F("re", e.R_e); F("rho", e.Rho); F("nu", e.Nu); F("nl", e.NeighborLength);
		F("n0", e.N0()); F("t", e.T()); F("dt", e.Dt());
		out.Raw(",\"g\":"); out.Vec(e.G, DIM); out.Raw(",\"min\":"); out.Vec(e.MinX, DIM); out.Raw(",\"max\":"); out.Vec(e.MaxX, DIM);
#ifndef MPS_SPP
		F("sr", e.SurfaceRatio);
#else
		F("sr", 0);
#endif
#ifndef MPS_HL
		F("lam", e.Lambda());
#else
		F("lam", 0);
#endif
#ifdef PRESSURE_EXPLICIT
		F("c", e.C);
#else
		F("c", 0);
#endif
		out.Raw("}}"); out.Line();
	};
	const auto Add = [&](std::vector<OpenMps::Particle> ps, long long from, const std::vector<Vector>* x0, const std::string& how)
	{
		Head("add");
		Columns(*sims[current].c);
		out.Raw(",\"from\":"); out.Int(from); // the computer whose particles these are (or -1)
		out.Raw(",\"ps\":{");
		const auto n = ps.size();
		out.Raw("\"ty\":"); out.List(n, [&](auto i) { out.Int(static_cast<int>(ps[i].TYPE())); });
		out.Raw(",\"x\":"); out.List(n, [&](auto i) { out.Vec(ps[i].X(), DIM); });
		out.Raw(",\"u\":"); out.List(n, [&](auto i) { out.Vec(ps[i].U(), DIM); });
		out.Raw(",\"p\":"); out.List(n, [&](auto i) { out.Dbl(ps[i].P()); });
		out.Raw(",\"n\":"); out.List(n, [&](auto i) { out.Dbl(ps[i].N()); });
		out.Raw("}}"); out.Line();
		if (x0 != nullptr) { world->x0 = *x0; }
		else { for (const auto& p : ps) { world->x0.push_back(p.X()); } }
		const bool added = Guarded([&] {
			auto& c = *sims[current].c;
			if (how == "list") { c.AddParticles(std::list<OpenMps::Particle>(ps.begin(), ps.end())); }
			else if (how == "const") { const auto q = ps; c.AddParticles(q); }
			else { c.AddParticles(std::move(ps)); }
		}, [] {});
		if (!added) { failed = true; return; }
		Head("added"); Columns(*sims[current].c);
		out.Raw(",\"w0\":"); out.List(world->x0.size(), [&](auto i) { out.Vec(world->x0[i], DIM); });
		out.Raw("}"); out.Line();
	};
	const auto StepOnce = [&](bool prescribed, double dt, bool log)
	{
		auto& c = *sims[current].c;
		const bool saved = hooks;
		hooks = hooks && log;
		world->log.Clear();
		const auto begin = out.s.size();
		if (!log) { Head("jump"); Columns(c); out.Raw("}"); out.Line(); }
		Head("begin"); out.Raw("\"prescribed\":"); out.Bool(prescribed); out.Raw(",\"want\":"); out.Dbl(dt);
		out.Raw(",\"quiet\":"); out.Bool(!log);
		out.Raw(","); Columns(c); out.Raw("}"); out.Line();
		std::string before;
		if (!log) // recorded only if the step fails
		{
			before = out.s.substr(begin);
			out.s.resize(begin);
		}
		const bool ok = Guarded([&] { if (prescribed) { c.ForwardTime(dt); } else { c.ForwardTime(); } },
			[&] { out.Raw(before); });
		hooks = saved;
		if (!ok) { failed = true; return; }
		if (log) { Head("end"); Columns(c); WallCalls(*world); out.Raw("}"); out.Line(); }
	};
	// A new simulation with the current particles of another one, or the image of them, makes one step in a process of its own.
	const auto Twin = [&](int id, int src, const std::string& step, bool image)
	{
		const auto& sim = sims[src];
		const auto& env = sim.c->GetEnvironment();
		const auto& ps = sim.c->Particles();
		const auto n = ps.size();
		std::ostringstream t;
		t.precision(17);
		const auto V = [&](const Vector& v) { for (std::size_t a = 0; a < DIM; a++) { t << ' ' << v[a]; } };
		const auto M = [&](Vector v) { if (image) { for (std::size_t a = 0; a < DIM; a++) { v[a] *= mirror[a]; } } return v; };
		const auto X = [&](const Vector& x) { Vector v = M(x); if (image) { for (std::size_t a = 0; a < DIM; a++) { v[a] += shift[a]; } } return v; };
		std::vector<std::size_t> perm(n);
		for (std::size_t i = 0; i < n; i++) { perm[i] = i; }
		if (image && shuffle != 0)
		{
			unsigned z = shuffle;
			for (std::size_t i = n; i > 1; i--) { z = z * 1664525u + 1013904223u; std::swap(perm[i - 1], perm[(z >> 8) % i]); }
		}
		std::istringstream es(sim.env);
		std::string word;
		t << "scenario " << name << "\nopts" << sim.opts << "\nhooks 0\n" << (schedLine.empty() ? threadsLine : schedLine) << "\n";
		for (int i = 0; i < 11; i++) { es >> word; t << word << ' '; }
		Vector lo = Vec(es), hi = Vec(es);
		if (image)
		{
			lo = X(lo); hi = X(hi);
			for (std::size_t a = 0; a < DIM; a++) { if (mirror[a] < 0) { std::swap(lo[a], hi[a]); } }
		}
		V(lo); V(hi);
		t << "\nwall"; V(M(sim.world->v)); V(M(sim.world->q)); V(M(sim.world->d));
		t << "\noffset " << env.T() + sim.world->offset << "\n";
		if (image)
		{
			Emit e;
			e.Raw("[{\"perm\":"); e.List(n, [&](auto i) { e.Int(static_cast<long long>(perm[i]) + 1); });
			e.Raw(",\"mirror\":"); e.Vec(mirror, DIM); e.Raw(",\"shift\":"); e.Vec(shift, DIM); e.Raw(",\"boost\":"); e.Vec(boost, DIM); e.Raw("}]");
			t << "rel " << e.s << "\nboost"; V(boost);
			t << "\nlabels"; for (const auto i : perm) { t << ' ' << i; }
			t << "\n";
		}
		t << "new " << id << "\nfrom " << src << "\n";
		for (const auto i : perm)
		{
			const auto& p = ps[i];
			Vector u = M(p.U());
			if (image) { u += boost; }
			t << "p " << static_cast<int>(p.TYPE()); V(X(p.X())); V(u); t << ' ' << p.P() << ' ' << p.N() << "\n";
		}
		for (const auto i : perm) { t << "x0"; V(X(sim.world->x0.at(i))); t << "\n"; }
		t << "add\n" << step << "\n";
		const std::string base = std::string(argv[2]) + ".twin";
		{ std::ofstream o(base + ".scn"); o << t.str(); }
		std::string exe = "/proc/self/exe", a1 = base + ".scn", a2 = base + ".out";
		char* args[] = {exe.data(), a1.data(), a2.data(), nullptr};
		pid_t pid; int status = -1;
		unlink(a2.c_str());
		if (posix_spawn(&pid, exe.c_str(), nullptr, nullptr, args, environ) == 0) { waitpid(pid, &status, 0); }
		std::ifstream r(a2);
		std::string l;
		while (std::getline(r, l))
		{
			const auto k = l.find("\"k\":1,");
			if (k == std::string::npos || l.back() != '}') { continue; }
			out.Raw(l.replace(k, 6, "\"k\":" + std::to_string(scenario) + ",")); out.Line();
		}
		if (status != 0)
		{
			if (WIFEXITED(status) && WEXITSTATUS(status) == 2) { std::exit(2); }
			Head("crash"); out.Raw("\"how\":"); out.Str("dies with status " + std::to_string(status) + " in a twin"); out.Raw("}"); out.Line();
			failed = true;
		}
	};
	const auto Quiet = [&](std::istream& ls, bool prescribed)
	{
		int n; ls >> n;
		const double dt = prescribed ? Num(ls) : 0.0;
		for (int i = 0; i < n && !failed; i++) { StepOnce(prescribed, dt, false); }
		if (!failed) { Head("jump"); Columns(*sims[current].c); out.Raw("}"); out.Line(); }
	};

	while (std::getline(in, line))
	{
		std::istringstream ls(line);
		std::string cmd;
		if (!(ls >> cmd) || cmd[0] == '#') { continue; }
		if (cmd == "scenario")
		{
			scenario++;
			ls >> name;
			out.Flush();
			exact = false; hooks = true; failed = false;
			wv = wq = wd = OpenMps::VectorZero;
			pending.clear(); sims.clear();
			pendingX0.clear(); offset = 0; from = -1; rel = "[]"; sched = false; schedLine.clear(); boost = OpenMps::VectorZero; labels.clear();
		}
		else if (failed) { continue; }
		else if (cmd == "opts") { std::getline(ls, opts); }
		else if (cmd == "exact") { exact = true; }
		else if (cmd == "hooks") { int v; ls >> v; hooks = v != 0; }
		else if (cmd == "threads")
		{
			int v; ls >> v;
			threadsLine = line;
#ifdef _OPENMP
			omp_set_num_threads(v);
#else
			static_cast<void>(v);
#endif
		}
		else if (cmd == "env")
		{
			maxDt = Num(ls); courant = Num(ls); g = Num(ls); rho = Num(ls); nu = Num(ls); ratio = Num(ls); l0 = Num(ls);
			eps = Num(ls); sr = Num(ls); c0 = Num(ls);
			minX = Vec(ls); maxX = Vec(ls);
			envLine = line;
		}
		else if (cmd == "wall") { wv = Vec(ls); wq = Vec(ls); wd = Vec(ls); }
		else if (cmd == "new") { int id; ls >> id; New(id, offset); }
		else if (cmd == "offset") { offset = Num(ls); }
		else if (cmd == "from") { ls >> from; }
		else if (cmd == "x0") { pendingX0.push_back(Vec(ls)); }
		else if (cmd == "twin") { int id, src; ls >> id >> src; std::string step; std::getline(ls, step); Twin(id, src, step, false); }
		else if (cmd == "image") // image NEW FROM SHUFFLE mirror shift boost step
		{
			int id, src; ls >> id >> src >> shuffle;
			const Vector was = boost;
			mirror = Vec(ls); shift = Vec(ls); boost = Vec(ls);
			std::string step; std::getline(ls, step);
			Twin(id, src, step, true);
			boost = was;
		}
		else if (cmd == "racer") // racer NEW FROM THREADS INTERLEAVE SEED step : a twin with other threads
		{
			int id, src, n, il; unsigned z; ls >> id >> src >> n >> il >> z;
			std::string step; std::getline(ls, step);
			schedLine = "sched " + std::to_string(n) + " " + std::to_string(il) + " " + std::to_string(z);
			Twin(id, src, step, false);
			schedLine.clear();
		}
		else if (cmd == "sched")
		{
			int n, il; unsigned z; ls >> n >> il >> z;
			sched = true;
#ifdef PARSIM
			parsim::Schedule(n, il != 0, z);
#elif defined(_OPENMP)
			omp_set_num_threads(n);
#endif
		}
		else if (cmd == "record") // record what every thread touches, with at least N threads (0: stop)
		{
#ifdef PARSIM
			int n; ls >> n;
			parsim::Schedule(n == 0 ? 1 : n, false, 0);
			parsim::Record(n == 0 ? nullptr : regions, scenario);
#endif
		}
		else if (cmd == "rel") { std::getline(ls, rel); }
		else if (cmd == "boost") { boost = Vec(ls); }
		else if (cmd == "labels") { std::size_t i; while (ls >> i) { labels.push_back(i); } }
		else if (cmd == "use") { ls >> current; world = sims[current].world.get(); }
		else if (cmd == "p")
		{
			int ty; ls >> ty;
			OpenMps::Particle p(static_cast<OpenMps::Particle::Type>(ty));
			const Vector x = Vec(ls), u = Vec(ls);
			p.X() = x; p.U() = u; p.P() = Num(ls); p.N() = Num(ls);
			pending.push_back(p);
		}
		else if (cmd == "add") { auto ps = std::move(pending); pending.clear(); std::string how; ls >> how; Add(std::move(ps), from, pendingX0.empty() ? nullptr : &pendingX0, how); }
		else if (cmd == "auto") { int n; ls >> n; for (int i = 0; i < n && !failed; i++) { StepOnce(false, 0, true); } }
		else if (cmd == "until") // until T MAX : automatic steps until the clock shows T
		{
			const double t = Num(ls); int n; ls >> n;
			for (int i = 0; i < n && !failed && sims[current].c->GetEnvironment().T() < t; i++) { StepOnce(false, 0, true); }
		}
		else if (cmd == "fixed") { int n; ls >> n; const double dt = Num(ls); for (int i = 0; i < n && !failed; i++) { StepOnce(true, dt, true); } }
		else if (cmd == "quiet") { Quiet(ls, false); }
		else if (cmd == "quietfixed") { Quiet(ls, true); }
		else if (cmd == "copy") // copy NEW FROM : a new computer that gets the current particles of another one
		{
			int id, from; ls >> id >> from;
			auto& src = sims[from];
			std::vector<OpenMps::Particle> ps(src.c->Particles().begin(), src.c->Particles().end());
			const auto x0 = src.world->x0;
			New(id, src.c->GetEnvironment().T() + src.world->offset);
			Add(std::move(ps), from, &x0, "");
		}
		else { std::cerr << "unknown command: " << cmd << std::endl; return 2; }
	}
	out.Flush();
	std::fclose(out.f);
#ifdef PARSIM
	std::fclose(regions);
#endif
	return 0;
}
