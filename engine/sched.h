// Deterministic scheduler: application/library threads run one at a time, the tape decides who continues (see DESIGN.md)
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H

#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {

/** Configuration of the strategy of one case */
struct Config {
	int strategy;		// 0: run until blocked, 1: random at synchronisation points, 2: priorities, 3: memory accesses, 4: both
	int syncDenom;		// 1/denominator of a switch at a synchronisation point
	int memPreempts;	// preemptions at memory accesses
	int memLogGap;		// log2 of the largest gap between them
	int freezes;		// tasks that do not run for a long time
	bool spurious;		// spurious wake-ups of condition variables
};
/** Programs that make few memory accesses: preemptions are close together */
extern bool smallProgram;
extern uint64_t patience;	// synchronisation steps without progress that count as a livelock
Config drawConfig(bool allowSpurious = true);

/** Starts a scheduled section (single-threaded until then) */
void begin(const Config& cfg);
/** Adds a task; `rank` is the simulated process it belongs to */
int spawn(int rank, int cpu, std::function<void()> fn);
/** Runs until all tasks spawned by the harness are done. Tasks created by the library (pthread_create) may remain. */
void run();
/** Ends the scheduled section; fails if tasks are left */
void end();

bool active();
/** Rank and id of the calling task (0 outside of tasks) */
int rank();
int self();
void setRank(int r);	// outside of tasks
/** Process of a task, -1 if there is no such task */
int rankOf(int task);
/** Number of times the calling task had to wait */
uint64_t waits();
int cpu();
void setCpu(int c);

/** Scheduling point */
void point(const char* why);
/** Blocks until pred() holds; pred must be side-effect free */
void block(const std::function<bool()>& pred, const char* why);
/** Unsuccessful poll: somebody else has to run first */
void pollYield(const char* why);
/** Low-priority wait: continue when nothing else can run (used to let messages drain) */
void drain();
/** Draw for decisions of the environment (network, waiter selection, ...) */
uint32_t choose(uint32_t n);

/** The network: asynchronous events */
struct Net {
	virtual ~Net() {}
	virtual size_t pending() = 0;
	virtual void step() = 0;
	virtual void dump(char* buf, size_t n) { if (n) buf[0] = 0; }
};
void setNet(Net* net);

/** Statistics of the section */
struct Stats { uint64_t points, switches, preempts, freezes, netSteps, blocks; };
const Stats& stats();

/** Live library resources by kind: mutexes (spin), keys, ... counted per rank */
enum Resource { RES_SPIN, RES_KEY, RES_THREAD, RES_NCFILE, RES_SYNC, RES_COUNT };
long& live(Resource r, int rank);
const char* resName(Resource r);

/** Virtual topology */
struct Topology {
	std::vector<int> nodeOfCpu;	// -1: error
	bool cpuError;			// sched_getcpu fails
	int failCpuTask;		// only for this task (-1: all)
	int numCpus;			// hardware_concurrency
	/** result of the last pthread_setaffinity_np per task id: list of cpus */
	std::vector<std::pair<int, std::vector<int> > > pinned;
	int keyCreateFails;		// pthread_key_create fails from now on
	int threadCreateFails;
};
extern Topology topo;

/** netCDF accounting */
struct NcRead { int rank, task; int ncid, varid; std::string path, var; std::vector<size_t> start, count; };
struct NcLog { bool record; std::vector<NcRead> reads; uint64_t opens, closes, gets; };
extern NcLog nc;
void resetNc();

/** Fails the case if tasks/locks are in a bad state, used by the wrappers */
void reportDeadlock();

/** called by fake MPI */
bool inTask();

/** Happens-before edges of the harness (only relevant for the data race detector) */
void hbRelease(void* p);
void hbAcquire(void* p);

/** Depth of library code on this thread: > 0 inside the library, not inside of the wrappers (memory accounting) */
extern thread_local int inLib;
#ifdef VERIF_TSAN
/** The data race detector only sees the library: everything else is ignored. Returns the old state */
bool ignore(bool on);
struct LibScope { int old; bool ig; LibScope() : old(inLib), ig(ignore(!inTask())) { inLib = 1; } ~LibScope() { inLib = old; ignore(ig); } };
struct HostScope { int old; bool ig; HostScope() : old(inLib), ig(ignore(true)) { inLib = 0; } ~HostScope() { inLib = old; ignore(ig); } };
#else
inline bool ignore(bool) { return false; }
struct LibScope { int old; LibScope() : old(inLib) { inLib = 1; } ~LibScope() { inLib = old; } };
struct HostScope { int old; HostScope() : old(inLib) { inLib = 0; } ~HostScope() { inLib = old; } };
#endif

}

#endif
