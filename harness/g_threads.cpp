// C08, C11, C12: one process, several threads; C20
#include "sim.h"

using namespace model;
using namespace world;
using namespace sim;

// ---------------------------------------------------------------- C08
/** More reads than fit into a small number */
static void manyReads()
{
	FileOpts fo = FileOpts::small(); fo.maxCells = 200; fo.maxDims = 2;
	Spec spec = drawSpec(fo);
	File f = drawFile(spec, fo);
	f.path = eng::scratch() + "/many.nc"; model::write(f);
	Storage s = drawStorage(f);
	for (int d = 0; d < model::maxDims; d++) if (s.block[d] > 7) s.block[d] = 2;
	const bool pass = s.grid == "PASS_THROUGH";
	if (s.grid == "CACHE") s.cacheSize = 1 + eng::pick(3);
	Walk w(f);
	std::vector<std::pair<Pos, int> > pool;
	for (int i = 0; i < 24; i++) { Pos q = w.next(); int r = drawRead(f, q); pool.push_back(std::make_pair(q, r)); }
	unsigned long n = 65500 + eng::pick(200), seed = eng::pick(1000);
	eng::note("%lu reads: %s\n%s\n", n, f.describe().c_str(), s.describe(f.dims()).c_str());
	unsigned long loads = 0, got[7];
	LoadCounter parts;
	single([&] {
		Grid* g = createGrid(lib::of(0), spec);
		applyGrid(g, s); applyLevel(g, s, f, 0);
		if (open(g, f.path, 0) != Grid::SUCCESS) eng::fail("open", "open fails");
		sched::nc.reads.clear();
		sched::patience = 100000000;
		for (unsigned long i = 0; i < n; i++) {
			seed = seed * 6364136223846793005ul + 1442695040888963407ul;
			auto& x = pool[(seed >> 33) % pool.size()];
			read(g, f, x.first, x.second, 0, "value");
			if (sched::nc.reads.size() > 1000 || i + 1 == n) {
				for (auto& x : sched::nc.reads) if (parts.starts(x, f, s)) loads++;
				sched::nc.reads.clear();
			}
		}
		for (int k = 0; k < 7; k++) got[k] = counter(g, COUNTERS[k], 0);
		close(g);
	});
	const unsigned long want[] = { n, 0, 0, loads, n - loads, n - loads, loads };
	for (int k = 0; k < 7; k++) if (got[k] != want[k]) eng::fail("counter-many", "after %lu reads with %lu loads of the file counter %s is %lu instead of %lu", n, loads, COUNTERS[k], got[k], want[k]);
	if (pass && loads != n) eng::fail("counter-many", "%lu reads of a pass-through grid load %lu values", n, loads);
	eng::label("more than 65000 reads");
	if (loads && loads < n) eng::nontrivial();
}

void runC08()
{
	if (eng::chance(1, 1500)) { manyReads(); return; }
	Opts o;
	o.maxRanks = 3; o.maxThreads = eng::chance(1, 4) ? 4 : 3; o.maxNodes = 3; o.maxGrids = 2; o.maxLevels = 2; o.maxOps = 40;
	o.mpiOff = o.mpiNone = true; o.pass = true; o.turns = true; o.exact = true; o.counterOps = true; o.maxCells = 120;
	o.badOpens = o.partial = eng::chance(1, 8);
	Program p = draw(o);
	eng::note("%s", p.describe().c_str());
	Result r;
	sim::run(p, r);
	checkCounters(p, r);
	unsigned long miss = 0, reads = 0;
	for (auto& g : r.counters) for (auto& l : g) for (auto& k : l) { miss += k[6]; reads += k[0]; if (k[1]) eng::label("NUMA transfers"); if (k[2]) eng::label("MPI transfers"); if (k[3]) eng::label("file loads"); }
	for (auto& g : p.g) eng::label(g.st().grid.c_str());
	if (p.turns && r.exact) eng::label("one operation at a time, exact counters");
	if (p.ranks > 1) eng::label("several processes");
	if (p.threads > 1) eng::label("several threads");
	if (miss && reads > miss) eng::nontrivial();
}

// ---------------------------------------------------------------- C11
void runC11()
{
	Opts o;
	o.minThreads = 2; o.maxThreads = 4; o.maxNodes = 3; o.maxGrids = 2; o.maxLevels = 3; o.maxOps = 25;
	o.pass = true; o.badOpens = true; o.partial = eng::chance(1, 4); o.metaOps = true; o.counterOps = true; o.privateGrids = true; o.maxCells = 80; o.ungated = true;
	// the threads of one of several processes
	if (eng::chance(1, 6)) { o.maxRanks = 2; o.maxThreads = 3; o.mpiOff = o.mpiNone = true; }
	Program p = draw(o);
	eng::note("%s", p.describe().c_str());
	Result r;
	sim::run(p, r);
	if (p.ranks > 1) eng::label("several processes");
	checkCounters(p, r);
	for (auto& g : p.g) { eng::label(g.st().grid.c_str()); if (g.lv.size() > 1) eng::label("several levels"); }
	if (p.domains(0) > 1) eng::label("several domains");
	if (p.g.size() > 1) eng::label("several grids");
	if (r.preempts) eng::label("preempted at memory accesses");
	eng::stat("switches", r.switches);
	if (r.switches > 10) eng::nontrivial();
}

// ---------------------------------------------------------------- C12
void runC12()
{
	Opts o;
	o.minThreads = 2; o.maxThreads = 4; o.maxNodes = 3; o.maxGrids = 1; o.maxLevels = 2; o.maxOps = 30;
	o.turns = true; o.exact = true; o.maxCells = 80;
	o.badOpens = o.partial = eng::chance(1, 8);
	if (eng::chance(1, 5)) {
		// the same within several processes that share the grid
		o.maxRanks = 3; o.maxThreads = 3; o.mpiOff = o.mpiNone = true;
	}
	Program p = draw(o);
	eng::note("%s", p.describe().c_str());
	Result r;
	sim::run(p, r);
	checkCounters(p, r);
	if (p.ranks > 1) {
		for (auto& lv : r.counters[0]) for (auto& c : lv) if (c[1]) { eng::label("NUMA transfers"); eng::nontrivial(); }
		eng::label("several processes");
		if (p.turns) eng::label("one operation at a time");
		return;
	}
	int d = p.gridDomains(p.g[0], 0);
	for (size_t l = 0; l < p.g[0].lv.size(); l++) {
		const LevelPlan& v = p.g[0].lv[l];
		size_t blocks = v.s.blocks(v.f);
		if (v.s.grid == "FULL") {
			// together the domains hold every block once
			std::map<int, size_t> per;
			for (auto& x : r.openLoads[0][l]) {
				if (x.second.size() != 1) eng::fail("loaded-twice", "level %zu: block %zu was read from the file %zu times", l, x.first, x.second.size());
				per[x.second[0].second]++;
			}
			if (r.openLoads[0][l].size() != blocks) eng::fail("not-loaded", "level %zu: %zu of %zu blocks were loaded", l, r.openLoads[0][l].size(), blocks);
			for (auto& x : per) if (x.second > (blocks + d - 1) / d) eng::fail("balance", "level %zu: domain %d holds %zu of %zu blocks (%d domains)", l, x.first, x.second, blocks, d);
		} else if (v.s.slots() >= blocks && !p.turns) {
			// concurrent requests may load twice, but never more than once per domain
			for (auto& x : r.loads[0][l][0]) if (x.second > d) eng::fail("loaded-twice", "level %zu: block %zu was read from the file %d times by %d domains", l, x.first, x.second, d);
		}
		if (r.counters[0][l][0][1]) { eng::label("NUMA transfers"); eng::nontrivial(); }
	}
	eng::label(p.g[0].st().grid.c_str());
	if (p.g[0].numa == "OFF") eng::label("NUMA off");
	if (p.g[0].numa == "CACHE") eng::label("NUMA cache");
	if (p.turns) eng::label("one operation at a time");
	if (p.domains(0) > 2) eng::label("three domains");
}

// ---------------------------------------------------------------- C10, C17, C18 observed through grids

/** No block is loaded more often than there are domains if all blocks fit */
static void loadedOnce(const Program& p, const Result& r)
{
	for (size_t g = 0; g < p.g.size(); g++) for (size_t l = 0; l < p.g[g].lv.size(); l++) {
		const LevelPlan& v = p.g[g].lv[l];
		if (v.s.grid != "CACHE" || v.s.slots() < v.s.blocks(v.f)) continue;
		int d = p.gridDomains(p.g[g], 0);
		for (auto& x : r.loads[g][l][0])
			if (x.second > d) eng::fail("loaded-twice", "grid %zu level %zu: block %zu was read from the file %d times by %d domain(s)", g, l, x.first, x.second, d);
		eng::label("room for all blocks");
	}
}

void runC10api()
{
	Opts o;
	o.minThreads = 2; o.maxThreads = 5; o.maxNodes = 3; o.maxGrids = 1; o.maxLevels = 2; o.maxOps = 40;
	o.full = false; o.counterOps = true; o.maxCells = eng::chance(1, 2) ? 12 : 60;
	// the threads of one of several processes
	if (eng::chance(1, 6)) { o.maxRanks = 2; o.maxThreads = 3; o.mpiOff = o.mpiNone = true; }
	Program p = draw(o);
	eng::note("%s", p.describe().c_str());
	Result r;
	sim::run(p, r);
	if (p.ranks > 1) eng::label("several processes");
	checkCounters(p, r);
	loadedOnce(p, r);
	if (p.domains(0) > 1) eng::label("several domains");
	if (r.preempts) eng::label("preempted at memory accesses");
	eng::stat("switches", r.switches);
	if (r.switches > 10) eng::nontrivial();
}

void runC17api()
{
	Opts o;
	o.minThreads = 2; o.maxThreads = 6; o.maxNodes = 3; o.maxGrids = 3; o.maxLevels = 4; o.maxOps = 4;
	o.badOpens = true; o.partial = eng::chance(1, 3); o.maxCells = 20; o.ungated = true;
	// the threads of one of several processes
	if (eng::chance(1, 6)) { o.maxRanks = 2; o.maxThreads = 3; o.mpiOff = o.mpiNone = true; }
	Program p = draw(o);
	eng::note("%s", p.describe().c_str());
	Result r;
	sim::run(p, r);
	if (p.ranks > 1) eng::label("several processes");
	checkCounters(p, r);
	if (p.phases.size() > 1) eng::label("several opens");
	if (p.domains(0) > 1) eng::label("several domains");
	eng::stat("switches", r.switches);
	if (r.switches > 10) eng::nontrivial();
}

void runC18api()
{
	Opts o;
	o.minThreads = 1; o.maxThreads = 6; o.maxNodes = 4; o.maxGrids = 2; o.maxLevels = 2; o.maxOps = 10;
	o.cache = false; o.turns = true; o.neverTurns = false; o.exact = true; o.maxCells = 60;
	Program p = draw(o);
	eng::note("%s", p.describe().c_str());
	Result r;
	sim::run(p, r);
	checkCounters(p, r);
	for (size_t g = 0; g < p.g.size(); g++) for (size_t l = 0; l < p.g[g].lv.size(); l++) {
		// the domains of a fully loaded grid can be told from the threads that load its blocks
		const LevelPlan& v = p.g[g].lv[l];
		size_t d = p.gridDomains(p.g[g], 0), blocks = v.s.blocks(v.f), n = 0;
		std::map<int, size_t> per;
		for (auto& x : r.openLoads[g][l]) for (auto& h : x.second) { per[h.second]++; n++; }
		if (n != blocks) eng::fail("domains", "grid %zu level %zu: %zu blocks were loaded, the level has %zu", g, l, n, blocks);
		if (per.size() > d || (blocks >= d && per.size() != d)) eng::fail("domains", "grid %zu level %zu: %zu domains loaded blocks, there are %zu", g, l, per.size(), d);
		for (auto& x : per) if (x.second > (blocks + d - 1) / d) eng::fail("domains", "grid %zu level %zu: domain %d holds %zu of %zu blocks (%zu domains)", g, l, x.first, x.second, blocks, d);
	}
	if (p.domains(0) > 1) { eng::label("several domains"); eng::nontrivial(); }
	for (auto& g : p.g) if (g.numa == "OFF") eng::label("NUMA off");
}

// ---------------------------------------------------------------- C06: failures of some threads or processes
void runC06partial()
{
	Opts o;
	o.maxRanks = 4; o.maxThreads = 3; o.maxNodes = 3; o.maxGrids = 2; o.maxLevels = 3; o.maxOps = 10;
	o.mpiOff = o.mpiNone = true; o.pass = true; o.subComm = true; o.badOpens = o.partial = true; o.maxCells = 60; o.large = false;
	Program p = draw(o);
	eng::note("%s", p.describe().c_str());
	Result r;
	sim::run(p, r);
	checkCounters(p, r);
	bool bad = false;
	for (auto& g : p.g) { eng::label(g.st().grid.c_str()); for (auto& l : g.lv) bad = bad || !l.bad.empty(); if (p.distributed(g, 0)) eng::label(g.mpi == M_THREAD ? "communication thread" : "windows"); }
	if (p.ranks > 1) eng::label("several processes");
	if (p.domains(0) > 1) eng::label("several domains");
	if (bad) eng::nontrivial();
}

// ---------------------------------------------------------------- C01-C05, C07 on every kind of grid
/** What holds for one thread holds for several processes and threads, too */
static void runMany(int property)
{
	Opts o;
	o.maxRanks = 3; o.maxThreads = 3; o.maxNodes = 3; o.maxGrids = 1; o.maxLevels = 1; o.maxOps = 20;
	o.mpiOff = o.mpiNone = true; o.pass = true; o.subComm = true; o.maxCells = 100;
	switch (property) {
	case 1: o.longAxes = true; break;
	case 2: o.maxOps = 30; o.turns = true; break;
	case 3: o.types = true; o.maxCells = 40; break;
	case 4: o.metaOps = true; o.maxLevels = 2; o.maxOps = 8; o.longAxes = true; break;
	case 5: o.maxGrids = 3; o.maxLevels = 4; o.metaOps = o.counterOps = o.ungated = true; o.manyLevels = true; o.maxCells = 40; break;
	case 7: o.turns = o.exact = true; o.neverTurns = false; o.vary = true; o.mpiParams = true; o.maxLevels = 2; break;
	}
	Program p = draw(o);
	eng::note("%s", p.describe().c_str());
	Result r;
	sim::run(p, r);
	checkCounters(p, r);
	bool several = p.ranks > 1 || p.threads > 1;
	for (auto& g : p.g) {
		eng::label(g.st().grid.c_str());
		if (g.lv.size() > 1) eng::label("several levels");
		if (p.distributed(g, 0)) eng::label(g.mpi == M_THREAD ? "communication thread" : "windows");
	}
	if (p.g.size() > 1) eng::label("several grids");
	if (p.ranks > 1) eng::label("several processes");
	if (p.domains(0) > 1) eng::label("several domains");
	if (several && (property != 5 || p.phases.size() > 1)) eng::nontrivial();
}
void runC01many() { runMany(1); }
void runC02many() { runMany(2); }
void runC03many() { runMany(3); }
void runC04many() { runMany(4); }
void runC05many() { runMany(5); }
void runC07many() { runMany(7); }
