// C19: the interfaces of the languages; C25: build options
#include "sim.h"

#include <cstdlib>
#include <cstring>

using namespace sim;

void runC01(); void runC02(); void runC03(); void runC04(); void runC05(); void runC06(); void runC07(); void runC15(); void runC21();

namespace {

typedef void (*Runner)();
const Runner single[] = { runC01, runC02, runC03, runC04, runC05, runC06, runC07 };
const char* const singleName[] = { "nearest cells", "storage configurations", "conversions", "metadata", "histories", "failing opens", "parameters" };

/** What the build supports */
struct Variant {
	const char* name;
	unsigned threads;	// per process
	bool mpi, window, commThread, windowCache;
	int numa;
	bool counters;		// with several threads
};
const Variant variants[] = {
	{ "full", 3, true, true, true, true, N_HARDWARE, true },
	{ "release", 3, true, true, true, true, N_HARDWARE, true },
	{ "linear", 3, true, true, true, true, N_HARDWARE, true },
	{ "serial", 3, true, true, false, true, N_HARDWARE, true },
	{ "nompi3", 3, true, true, true, false, N_HARDWARE, true },
	{ "nompi", 3, false, false, false, false, N_HARDWARE, true },
	{ "nonuma", 3, true, true, true, true, N_NEVER, true },
	{ "debugnuma", 3, true, true, true, true, N_THREAD, true },
	{ "nopthread", 1, true, true, true, true, N_NEVER, true },
	{ "nothreads", 1, true, true, false, true, N_HARDWARE, true },
	{ "plaincounter", 3, true, true, true, true, N_HARDWARE, false },
	{ "dims6", 3, true, true, true, true, N_HARDWARE, true },
	{ "minimal", 1, false, false, false, false, N_NEVER, true },
};
const Variant& variant()
{
	const char* v = getenv("VERIF_VARIANT");
	for (auto& x : variants) if (v && !strcmp(v, x.name)) return x;
	return variants[0];
}

void program(const Variant& v, bool several)
{
	Opts o;
	o.maxThreads = v.threads; o.maxNodes = 3; o.maxGrids = 2; o.maxLevels = 2; o.maxOps = 20;
	o.pass = true; o.metaOps = true; o.badOpens = true; o.partial = eng::chance(1, 4); o.privateGrids = true; o.maxCells = 100;
	o.turns = true;
	o.counterOps = v.counters;
	o.numa = v.numa; o.windowCache = v.windowCache; o.noCommThread = !v.commThread; o.mpiParams = true;
	o.mpiWindow = v.mpi;
	if (several) {
		o.minRanks = 2; o.maxRanks = 3; o.mpiNone = o.mpiOff = true; o.subComm = true;
		// (without a communication thread its replacement is used)
		o.mpiThread = v.commThread || !strcmp(v.name, "serial");
	}
	if (eng::chance(1, 3)) o.exact = true;
	if (!v.commThread && !v.windowCache) o.mpiThread = false;
	Program p = draw(o);
	eng::note("%s", p.describe().c_str());
	Result res;
	run(p, res);
	if (v.counters || p.threads == 1) checkCounters(p, res);
	unsigned long reads = 0;
	for (auto& g : res.reads) for (auto& l : g) for (auto n : l) reads += n;
	if (reads > 2) eng::nontrivial();
}

}

/** Hundreds of grids at the same time */
static void manyGrids()
{
	model::FileOpts fo = model::FileOpts::small(); fo.maxCells = 30; fo.maxDims = 2;
	struct One { Grid* g; size_t file; };
	std::vector<model::File> files;
	for (int i = 0; i < 5; i++) { files.push_back(model::drawFile(model::drawSpec(fo), fo)); }
	std::vector<One> open;
	int n = 260 + eng::pick(400), closed = 0;
	eng::note("%d grids\n", n);
	world::single([&] {
		sched::patience = 100000000;
		auto look = [&](One& o) {
			model::Pos q = model::posOf(files[o.file], eng::pick(files[o.file].cells()));
			model::read(o.g, files[o.file], q, model::drawRead(files[o.file], q), 0, "value");
		};
		for (int i = 0; i < n; i++) {
			One o; o.file = eng::pick(files.size());
			o.g = model::createGrid(lib::of(0), files[o.file].spec);
			world::setParam(o.g, "GRID", eng::chance(1, 2) ? "CACHE" : "PASS_THROUGH", 0);
			world::setParam(o.g, "VARIABLE", files[o.file].var, 0);
			if (world::open(o.g, files[o.file].path, 0) != Grid::SUCCESS) eng::fail("open", "open of grid %d fails", i);
			look(o);
			open.push_back(o);
			if (eng::chance(1, 5)) look(open[eng::pick(open.size())]);
			if (eng::chance(1, 20)) { size_t k = eng::pick(open.size()); world::close(open[k].g); open.erase(open.begin() + k); closed++; }
		}
		for (auto& o : open) look(o);
		while (!open.empty()) { size_t k = eng::pick(open.size()); world::close(open[k].g); open.erase(open.begin() + k); if (!open.empty()) look(open[eng::pick(open.size())]); }
	});
	eng::label("hundreds of grids");
	eng::nontrivial();
}

/** Programs in several languages */
void runC19()
{
	lib::Languages languages(eng::pick(1u << 30));
	lib::checkConstants(lib::of(0));
	if (eng::chance(1, 300)) { manyGrids(); return; }
	unsigned k = eng::pick(16);
	if (k < 7) { eng::label(singleName[k]); single[k](); }
	else if (k < 8) { eng::label("node local ranks"); runC21(); }
	else if (k < 10) { eng::label("communication thread"); runC15(); }
	else { bool several = k < 12; eng::label(several ? "several processes" : "one process"); program(variants[0], several); }
}

/** Programs with a build variant */
void runC25()
{
	const Variant& v = variant();
	lib::Languages languages(eng::pick(1u << 30));
	lib::checkConstants(lib::of(0));
	unsigned k = eng::pick(20);
	if (k < 10 || (!v.mpi && k >= 15)) { k %= 7; eng::label(singleName[k]); single[k](); }
	else if (k < 15) { eng::label("one process"); program(v, false); }
	else { eng::label("several processes"); program(v, true); }
}
