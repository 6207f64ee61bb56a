// Programs of several processes and threads that use grids as documented (see DESIGN.md)
#ifndef VERIF_SIM_H
#define VERIF_SIM_H

#include "world.h"

#include <map>
#include <set>

namespace sim {

enum Mpi { M_NONE, M_WINDOW, M_THREAD, M_OFF, M_DEFAULT };	// M_NONE: setComm is not called
enum { N_HARDWARE, N_NEVER, N_THREAD };			// domains: of the hardware, one, one for each thread
enum OpKind { O_READ, O_COUNTER, O_META, O_PRIVATE };
enum Outcome { HIT, NUMA, MPI, FILE_LOAD };

struct Op { OpKind kind; int g, l; model::Pos p; size_t cell; int r; };
/** An open that fails: kind of file used by (rank, thread), nullptr: the correct one */
struct BadOpen { std::vector<std::vector<const struct BadKind*> > who; };
struct BadKind { const char* name; const char* path; int error; };
struct LevelPlan {
	model::File f;
	world::Storage s;
	std::vector<BadOpen> bad;	// opens before, all must fail
};
struct GridPlan {
	model::Spec spec;
	Mpi mpi;
	std::string numa;	// "": unset
	std::vector<LevelPlan> lv;
	bool vary;
	int closeAfter;		// phase after which it is closed
	std::string mpiParam;	// MPI_COMMUNICATION without communicator (no effect)
	bool late;		// parameters of further levels are set directly before they are opened
	const world::Storage& st() const { return lv[0].s; }
};
struct Program {
	int ranks, threads;
	std::vector<int> node;			// of each cpu
	std::vector<std::vector<int> > cpu;	// [rank][thread]
	std::vector<int> color, key;		// communicator of the grids: split of the world ({}: the world itself)
	std::vector<GridPlan> g;
	std::vector<std::pair<int, int> > phases;	// (grid, level) opened at the start of the phase
	std::vector<bool> gated;		// threads wait for each other before the phase
	std::vector<std::vector<std::vector<std::vector<Op> > > > ops;	// [rank][thread][phase]
	std::vector<int> closer;		// thread of each process that closes the grids, `threads`: another one
	bool turns;				// one operation at a time
	std::vector<std::vector<std::pair<int, int> > > order;	// [phase] sequence of (rank, thread)
	bool commThread;
	bool stopComm;
	bool strict, serialised;		// validity of the use of MPI
	int numa;				// how the build detects domains
	std::string describe() const;
	int domains(int rank) const;		// number of hardware domains of a process
	int nodeOf(int rank, int thread) const { return node[cpu[rank][thread]]; }
	bool threadComm() const;
	/** Communicator of the grid: size and rank */
	int commSize(int rank) const;
	int commRank(int rank) const;
	bool distributed(const GridPlan& g, int rank) const { return commSize(rank) > 1 && g.mpi != M_NONE && g.mpi != M_OFF; }
	/** Number of domains the grid uses on a rank */
	int gridDomains(const GridPlan& g, int rank) const { return g.numa == "OFF" || numa == N_NEVER ? 1 : numa == N_THREAD ? threads : domains(rank); }
	int domainOf(const GridPlan& g, int rank, int thread) const { return g.numa == "OFF" || numa == N_NEVER ? 0 : numa == N_THREAD ? thread : nodeOf(rank, thread); }
};

struct Opts {
	int minRanks, maxRanks, minThreads, maxThreads, maxNodes, maxGrids, maxLevels, maxOps;
	bool mpiThread, mpiWindow, mpiOff, mpiNone;
	bool numaOff, numaCache;
	bool full, cache, pass;
	bool turns, neverTurns;
	bool exact;		// cache sizes for which the content of the caches is known
	bool subComm, badOpens, metaOps, counterOps, privateGrids;
	size_t maxCells;
	bool ungated;		// further levels may be opened while other threads read
	bool strict, serialised;
	bool windowCache;	// MPI windows for cached grids
	bool mpiParams;		// set MPI_COMMUNICATION without communicator
	bool large;		// sometimes tens of thousands of cells
	bool noCommThread;	// the build replaces it
	int numa;
	bool wide;		// sometimes many processes, threads and domains
	bool partial;		// many failing opens, often of some domains or processes only
	bool longAxes;		// as in FileOpts
	bool types;		// values of any type in the file
	bool manyLevels;	// mostly several grids and levels
	bool vary;		// mostly other spellings of parameters
	Opts() : longAxes(false), types(false), manyLevels(false), vary(false), minRanks(1), maxRanks(1), minThreads(1), maxThreads(1), maxNodes(1), maxGrids(1), maxLevels(1), maxOps(30),
		mpiThread(true), mpiWindow(true), mpiOff(false), mpiNone(false), numaOff(true), numaCache(true), full(true), cache(true), pass(false),
		turns(false), neverTurns(true), exact(false), subComm(false), badOpens(false), metaOps(false), counterOps(false), privateGrids(false), maxCells(200), ungated(false), strict(false), serialised(false),
		windowCache(true), mpiParams(false), large(true), noCommThread(false), numa(N_HARDWARE), wide(true), partial(false) {}
};
Program draw(const Opts& o);

static const char* const COUNTERS[] = { "accesses", "numa_transfers", "mpi_transfers", "file_loads", "local_hits", "node_hits", "local_misses" };

/** What was seen */
struct Result {
	/** [grid][level][rank] -> counters before closing */
	std::vector<std::vector<std::vector<std::vector<unsigned long> > > > counters;
	/** [grid][level]: block -> (rank, domain) that loaded it during open; number of loads during open */
	std::vector<std::vector<std::map<size_t, std::vector<std::pair<int, int> > > > > openLoads;
	/** [grid][level][rank]: blocks/values read from the file after open, by block */
	std::vector<std::vector<std::vector<std::map<size_t, int> > > > loads;
	/** [grid][level][rank] -> reads; per domain the distinct blocks */
	std::vector<std::vector<std::vector<unsigned long> > > reads;
	std::vector<std::vector<std::map<std::pair<int, int>, std::set<size_t> > > > blocks;
	/** turn mode: outcome of each operation by the library */
	std::vector<std::vector<std::vector<unsigned long> > > outcome[4];
	/** expected numbers by the model (turn mode with exact caches) */
	std::vector<std::vector<std::vector<unsigned long> > > expect[4];
	bool exact;
	uint64_t switches, preempts;
};
/** Runs the program; checks values, errors, file accesses of turn programs */
void run(const Program& p, Result& res, const std::function<void(int rank)>& afterClose = nullptr);

/** Does the sequence of file accesses fit the accesses of grid/level (any mode)? */
void checkCounters(const Program& p, const Result& r);

}

#endif
