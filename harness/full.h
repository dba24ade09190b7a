// Complete driver runs: grid, outputs and restarts set up by the project's own initialisation code.
#ifndef FULL_H
#define FULL_H
#include "mini.h"
#include <dirent.h>
#include <unistd.h>

namespace mini {

struct Out {
	std::string dir;                 // "" : no output managers at all
	double outdt = 0, restartdt = 0; // seconds; 0: none
	int perfile = -1;
	int nx = 4, ny = 3, nz = 0;
	bool vort = false, div = false, temp = false, ps = false, ri = false;
	bool reference = true;
	std::string restart;             // file to start from
	double start = 0, end = -1;      // model times in seconds; end < 0: dt * steps
	bool norms = false;
	std::function<void(_TempestCommandLineVariables &)> tweak;   // last word on the options
};

inline void drive(Sim & s, const Cfg & c, const Out & o) {
	_TempestCommandLineVariables & v = s.v;
	v.timeDeltaT = seconds(c.dt);
	Time t0; t0 += seconds(0);
	Time end; end += seconds(o.end >= 0 ? o.end : c.dt * c.steps);
	v.timeEndTime = end;
	v.strOutputDir = o.dir; v.strOutputPrefix = "out";
	v.timeOutputDeltaT = seconds(o.outdt);
	v.timeOutputRestartDeltaT = seconds(o.restartdt);
	v.nOutputsPerFile = o.perfile;
	v.nOutputResX = o.nx; v.nOutputResY = o.ny; v.nOutputResZ = o.nz;
	v.fNoOutput = !o.reference;
	v.fOutputVorticity = o.vort; v.fOutputDivergence = o.div; v.fOutputTemperature = o.temp;
	v.fOutputSurfacePressure = o.ps; v.fOutputRichardson = o.ri;
	v.strRestartFile = o.restart;
	if (o.tweak) o.tweak(v);
	if (c.kind == CS) _TempestSetupCubedSphereModel(s.model, v);
	else {
		double dim[6] = {0.0, c.lx, 0.0, c.ly, 0.0, c.ztop};
		int bc[4] = {c.bc[0], c.bc[1], c.bc[2], c.bc[3]};
		_TempestSetupCartesianModel(s.model, dim, c.reflat, bc, c.kind == CARTXZ, v);
	}
	s.grid = s.model.GetGrid();
	s.make_test();
}

// the methods of lines must be set once: Sim's constructor leaves them out for driver runs
struct Drive : Sim { Drive(const Cfg & c) : Sim(c, false) {} };

inline std::vector<std::string> files(const std::string & dir) {
	std::vector<std::string> v;
	if (DIR * d = opendir(dir.c_str())) {
		while (dirent * e = readdir(d)) if (e->d_name[0] != '.') v.push_back(e->d_name);
		closedir(d);
	}
	std::sort(v.begin(), v.end());
	return v;
}

struct FullOut : RunOut { std::string text; };
inline FullOut full(const Cfg & c, const Out & o, int ranks, const VmpiOpts & vo = VmpiOpts(), const std::function<void(Sim &, int)> & extra = nullptr) {
	FullOut r;
	Layout l = layout(c);
	r.state.assign(l.size(), NAN);
	r.owner.assign(l.cols(), 0);
	std::vector<Sim*> keep(ranks);
	r.text = vh::capture([&]() {
	vh::mpi(ranks, [&](int rank) {
		AnnounceOnlyOutputOnRankZero();
		Sim & s = *(keep[rank] = new Drive(c));
		drive(s, c, o);
		s.model.Go();
		if (extra) extra(s, rank);
		if (o.norms) s.model.ComputeErrorNorms();
		gather(*s.grid, l, 0, r.state, &r.owner);
		if (rank == 0) r.mask = live_mask(*s.grid, l);
		MPI_Barrier(MPI_COMM_WORLD);
		delete &s;                        // closes the files
	}, vo, r.mpi); });
	return r;
}

} // namespace mini
#endif
