// C13, C14, C23, C24: several processes
#include "sim.h"

#include <algorithm>

using namespace model;
using namespace world;
using namespace sim;

static void labels(const Program& p)
{
	for (auto& g : p.g) {
		static const char* n[] = { "no communicator", "windows", "communication thread", "communication off", "default communication" };
		eng::label(n[g.mpi]);
	}
	if (p.threads > 1) eng::label("several threads per process");
	if (p.domains(0) > 1) eng::label("several domains per process");
	if (p.g.size() > 1) eng::label("several grids");
	if (p.turns) eng::label("one operation at a time");
}

/** Fully loaded grids: every block was loaded by one place of every group of processes that share data */
static void checkHomes(const Program& p, const Result& r, bool balance)
{
	for (size_t g = 0; g < p.g.size(); g++) for (size_t l = 0; l < p.g[g].lv.size(); l++) {
		const GridPlan& gp = p.g[g];
		const LevelPlan& v = gp.lv[l];
		if (v.s.grid != "FULL") continue;
		size_t blocks = v.s.blocks(v.f);
		// groups
		std::map<int, std::vector<int> > groups;
		for (int k = 0; k < p.ranks; k++) groups[p.distributed(gp, k) ? (p.color.empty() ? 0 : p.color[k]) : 100 + k].push_back(k);
		for (auto& gr : groups) {
			std::map<std::pair<int, int>, size_t> held;
			size_t places = gr.second.size() * p.gridDomains(gp, gr.second[0]);
			for (size_t b = 0; b < blocks; b++) {
				int n = 0;
				auto it = r.openLoads[g][l].find(b);
				if (it != r.openLoads[g][l].end())
					for (auto& h : it->second)
						if (std::find(gr.second.begin(), gr.second.end(), h.first) != gr.second.end()) { n++; held[h]++; }
				if (n != 1) eng::fail(n ? "loaded-twice" : "not-loaded", "grid %zu level %zu: block %zu of %zu was loaded by %d places of the %zu process(es) starting with process %d", g, l, b, blocks, n, gr.second.size(), gr.second[0]);
			}
			if (balance)
				for (auto& h : held)
					if (h.second > (blocks + places - 1) / places)
						eng::fail("balance", "grid %zu level %zu: domain %d of process %d holds %zu of %zu blocks (%zu places)", g, l, h.first.second, h.first.first, h.second, blocks, places);
		}
	}
}

static void transfers(const Result& r)
{
	for (auto& g : r.counters) for (auto& l : g) for (auto& k : l) {
		if (k[1]) eng::label("NUMA transfers");
		if (k[2]) { eng::label("MPI transfers"); eng::nontrivial(); }
		eng::stat("mpi transfers", k[2]);
	}
}

// ---------------------------------------------------------------- C13
void runC13()
{
	Opts o;
	o.minRanks = 2; o.maxRanks = 4; o.maxThreads = 3; o.maxNodes = eng::chance(1, 4) ? 3 : 2; o.maxGrids = 2; o.maxLevels = 3; o.maxOps = 20;
	o.mpiOff = o.mpiNone = true; o.cache = false; o.subComm = true; o.maxCells = 100; o.ungated = true;
	o.badOpens = o.partial = eng::chance(1, 8);
	Program p = draw(o);
	eng::note("%s", p.describe().c_str());
	Result r;
	sim::run(p, r);
	checkHomes(p, r, false);
	checkCounters(p, r);
	labels(p); transfers(r);
}

// ---------------------------------------------------------------- C24
static void homes(bool both)
{
	Opts o;
	o.minRanks = 1; o.maxRanks = 5; o.maxThreads = 3; o.maxNodes = 3; o.maxGrids = 1; o.maxLevels = 2; o.maxOps = 12;
	o.mpiOff = o.mpiNone = true; o.cache = false; o.subComm = true; o.turns = true; o.exact = true; o.maxCells = 120;
	Program p = draw(o);
	eng::note("%s", p.describe().c_str());
	Result r;
	sim::run(p, r);
	checkHomes(p, r, true);
	checkCounters(p, r);
	labels(p);
	(void) both;
	bool many = false;
	for (auto& v : p.g[0].lv) {
		size_t places = p.commSize(0) * p.gridDomains(p.g[0], 0), b = v.s.blocks(v.f);
		if (p.distributed(p.g[0], 0) && places > 1 && b > 1) many = true;
		if (b % places) eng::label("places do not divide the blocks");
		if (b < places) eng::label("more places than blocks");
	}
	if (many) eng::nontrivial();
}
void runC24() { homes(true); }

// ---------------------------------------------------------------- C14
void runC14()
{
	Opts o;
	o.minRanks = 2; o.maxRanks = eng::chance(1, 4) ? 6 : 4; o.maxThreads = 3; o.maxNodes = eng::chance(1, 4) ? 3 : 2; o.maxGrids = 2; o.maxLevels = 2; o.maxOps = 20;
	o.mpiOff = true; o.full = false; o.subComm = true; o.maxCells = 60; o.ungated = true; o.turns = true;
	o.exact = eng::chance(1, 3);
	o.badOpens = o.partial = eng::chance(1, 8);
	Program p = draw(o);
	eng::note("%s", p.describe().c_str());
	Result r;
	sim::run(p, r);
	checkCounters(p, r);
	labels(p); transfers(r);
	if (p.turns && r.exact) eng::label("one operation at a time, exact sources");
}

// ---------------------------------------------------------------- C23
void runC23()
{
	Opts o;
	o.minRanks = 2; o.maxRanks = 4; o.maxThreads = 3; o.maxNodes = 2; o.maxGrids = 2; o.maxLevels = 2; o.maxOps = 15;
	o.mpiOff = o.mpiNone = true; o.subComm = true; o.maxCells = 60; o.strict = true;
	o.serialised = getenv("VERIF_SERIALISED") != nullptr;
	o.badOpens = o.partial = eng::chance(1, 8);
	Program p = draw(o);
	eng::note("%s", p.describe().c_str());
	Result r;
	sim::run(p, r);
	checkCounters(p, r);
	labels(p); transfers(r);
	eng::stat("messages", fmpi::stats.msgs);
	eng::stat("one-sided operations", fmpi::stats.rma);
	eng::stat("collectives", fmpi::stats.collectives);
	for (auto& g : p.g) eng::label(g.st().grid.c_str());
}

// ---------------------------------------------------------------- C22
void runC22()
{
	Opts o;
	bool many = eng::chance(1, 2);
	o.minRanks = many ? 2 : 1; o.maxRanks = many ? 3 : 1; o.minThreads = many ? 1 : 2; o.maxThreads = 3; o.maxNodes = 3; o.maxGrids = 2; o.maxLevels = 2; o.maxOps = 15;
	o.mpiOff = o.mpiNone = true; o.pass = true; o.maxCells = 60; o.ungated = true; o.badOpens = !many || eng::chance(1, 3); o.partial = eng::chance(1, 3);
	o.metaOps = o.counterOps = true; o.privateGrids = !many;
	Program p = draw(o);
	eng::note("%s", p.describe().c_str());
	Result r;
	sim::run(p, r);
	labels(p);
	for (auto& g : p.g) eng::label(g.st().grid.c_str());
	if (p.threads > 1 || p.commThread) eng::nontrivial();
	eng::stat("switches", r.switches);
}

// ---------------------------------------------------------------- C16, observed through cached grids
void runC16api()
{
	Opts o;
	o.minRanks = 2; o.maxRanks = 4; o.maxThreads = 3; o.maxNodes = 2; o.maxGrids = 2; o.maxLevels = 2; o.maxOps = 25;
	o.mpiThread = false; o.full = false; o.subComm = true; o.maxCells = eng::chance(1, 2) ? 8 : 40;
	Program p = draw(o);
	eng::note("%s", p.describe().c_str());
	Result r;
	sim::run(p, r);
	checkCounters(p, r);
	labels(p); transfers(r);
	if (r.switches > 20) eng::nontrivial();
	eng::stat("one-sided operations", fmpi::stats.rma);
}
