// C20: closing releases everything
#include "sim.h"

#include <cstring>
#ifndef VERIF_TSAN
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

using namespace model;
using namespace world;
using namespace sim;

void runC05(); void runC06(); void runC07(); void runC15(); void runC21();

namespace {

/** Heap blocks allocated inside of the library: open hash table (threads run one at a time) */
const size_t SIZE = 1 << 18;
struct Entry { const volatile void* p; uint32_t round; };
Entry table[SIZE];
size_t liveBlocks, lost;
uint32_t currentRound;	// of all cases in this process

size_t slotOf(const volatile void* p) { return (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9e3779b97f4a7c15ull >> (64 - 18); }
void onMalloc(const volatile void* p, size_t)
{
	if (!p || sched::inLib <= 0) return;
	if (liveBlocks > SIZE / 2) { lost++; return; }
	size_t i = slotOf(p);
	while (table[i].p) i = (i + 1) % SIZE;
	table[i].p = p; table[i].round = currentRound;
	liveBlocks++;
}
void onFree(const volatile void* p)
{
	if (!liveBlocks || !p) return;
	size_t i = slotOf(p);
	while (table[i].p && table[i].p != p) i = (i + 1) % SIZE;
	if (!table[i].p) return;
	liveBlocks--;
	// close the gap
	for (size_t j = (i + 1) % SIZE; table[j].p; j = (j + 1) % SIZE) {
		size_t h = slotOf(table[j].p);
		if ((i < j) ? (h <= i || h > j) : (h <= i && h > j)) { table[i] = table[j]; i = j; }
	}
	table[i].p = nullptr;
}

std::string describe(const volatile void* q)
{
	void* trace[16]; int tid;
	void* p = const_cast<void*>(q);
	size_t n = __asan_get_alloc_stack(p, trace, 16, &tid);
	char b[400]; std::string s;
	snprintf(b, sizeof b, "%zu bytes allocated at\n", __sanitizer_get_allocated_size(p)); s += b;
	for (size_t i = 1; i < n && i < 9; i++) { __sanitizer_symbolize_pc(static_cast<char*>(trace[i]) - 1, "    %f %S", b, sizeof b); s += b; s += "\n"; }
	return s;
}

/** Runs the same case several times and looks for what is left */
void repeat(const std::function<void()>& fn, int ranks)
{
	const int ROUNDS = 4;
	lost = 0;
	uint32_t first = currentRound + 1;
	uint32_t m = eng::mark(eng::DATA);
	size_t before = 0; long spin[64] = { 0 };
	long keys[64], files[64], threads[64];
	for (int r = 0; r < ranks; r++) { keys[r] = sched::live(sched::RES_KEY, r); files[r] = sched::live(sched::RES_NCFILE, r); threads[r] = sched::live(sched::RES_THREAD, r); }
	int grown = 0, spinGrown = 0;
	for (int i = 0; i < ROUNDS; i++) {
		currentRound++;
		eng::rewind(eng::DATA, m);
		fn();
		for (int r = 0; r < ranks; r++) {
			std::string l = fmpi::leaks(r);
			if (!l.empty()) eng::fail("mpi-leak", "process %d: %s left after closing all grids", r, l.c_str());
			if (sched::live(sched::RES_NCFILE, r) != files[r]) eng::fail("file-leak", "process %d: %ld netCDF files are open after closing all grids", r, sched::live(sched::RES_NCFILE, r) - files[r]);
			if (sched::live(sched::RES_KEY, r) != keys[r]) eng::fail("key-leak", "process %d: %ld thread keys are left after closing all grids", r, sched::live(sched::RES_KEY, r) - keys[r]);
			if (sched::live(sched::RES_THREAD, r) != threads[r]) eng::fail("thread-leak", "process %d: %ld threads are left", r, sched::live(sched::RES_THREAD, r) - threads[r]);
		}
		long s = 0, o = 0;
		for (int r = 0; r < ranks; r++) { long l = sched::live(sched::RES_SPIN, r) + sched::live(sched::RES_SYNC, r); s += l; o += spin[r]; spin[r] = l; }
		if (i > 0 && s > o) spinGrown++;
		if (i > 0 && liveBlocks > before) grown++;
		before = liveBlocks;
	}
	if (lost) { eng::label("too many blocks to follow"); return; }
	if (grown >= 2) {
		std::string s;
		int shown = 0;
		size_t n[ROUNDS] = { 0 };
		for (auto& e : table) if (e.p && e.round >= first) { n[e.round - first]++; if (e.round > first && shown < 3) { s += describe(e.p); shown++; } }
		std::string c;
		for (int i = 0; i < ROUNDS; i++) c += " " + std::to_string(n[i]);
		eng::fail("memory-leak", "memory of the library is left whenever the program runs (blocks left by each of %d runs:%s)\n%s", ROUNDS, c.c_str(), s.c_str());
	}
	if (spinGrown >= 2) eng::fail("lock-leak", "the number of locks and condition variables that were not destroyed grows whenever the program runs");
}

void runSim(bool many)
{
	Opts o;
	o.minRanks = many ? 2 : 1; o.maxRanks = many ? 3 : 1; o.minThreads = 1; o.maxThreads = 3; o.maxNodes = 2; o.maxGrids = 2; o.maxLevels = 3; o.maxOps = 8;
	o.mpiOff = o.mpiNone = true; o.pass = true; o.subComm = many; o.maxCells = 60; o.badOpens = !many || eng::chance(1, 3); o.partial = eng::chance(1, 2); o.metaOps = o.counterOps = true; o.privateGrids = !many;
	Program p = draw(o);
	eng::note("%s", p.describe().c_str());
	repeat([&p] { Result r; sim::run(p, r); }, p.ranks);
	for (auto& g : p.g) {
		eng::label(g.st().grid.c_str());
		if (g.spec.kind == Spec::ARRAY) eng::label("arrays");
		if (g.spec.kind == Spec::STRUCT) eng::label("structures");
		if (g.lv.size() > 1) eng::label("several levels");
		if (p.distributed(g, 0)) eng::label(g.mpi == M_THREAD ? "communication thread" : "windows");
		for (auto& l : g.lv) if (!l.bad.empty()) eng::label("failing open first");
	}
	if (p.threads > 1) eng::label("several threads");
}

}

void runC20()
{
	// the case is described once
	switch (eng::pick(8)) {
	case 0: case 1: case 2: runSim(true); break;
	case 3: runSim(false); break;
	case 4: eng::label("life cycle of the communication thread"); repeat(runC15, 6); break;
	case 5: eng::label("open/read/close histories"); repeat(runC05, 1); break;
	case 6: eng::label("damaged, unusual and missing files"); repeat(runC06, 1); break;
	default: if (eng::chance(1, 4)) { eng::label("node-local rank"); repeat(runC21, 6); } else { eng::label("parameters"); repeat(runC07, 1); }
	}
	eng::nontrivial();
}
/** The memory of the library is followed from the start */
void loadC20()
{
	__sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
	lib::load(12);
}
#else
void runC20() {}
void loadC20() {}
#endif
