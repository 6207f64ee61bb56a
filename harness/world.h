// Running programs on simulated processes and threads
#ifndef VERIF_WORLD_H
#define VERIF_WORLD_H

#include "model.h"

namespace world {

/** Starts a case with the given number of processes; draws the network unless `plain` */
void begin(int ranks, bool plain = false, bool schedule = true);
/** Ends the scheduled section */
void end();
/** Runs fn as the only thread of process 0 */
void single(const std::function<void()>& fn);

/** Barrier/flag for harness threads (with happens-before edges) */
class Gate {
	int m_count;
public:
	Gate() : m_count(0) {}
	void arrive();
	void wait(int n);
	/** arrive and wait for n */
	void meet(int n) { arrive(); wait(n); }
	int count() const { return m_count; }
};

/** Random spelling of a parameter name/value */
std::string spell(const std::string& s);

/** How one level is stored */
struct Storage {
	std::string grid;	// FULL, CACHE, PASS_THROUGH
	int block[model::MAXD];		// user order, 0: unset
	int timeDim;		// -1: unset
	int cacheSize;		// 0: unset
	int spread;		// -1: unset
	bool vertex;
	Storage() : block(), timeDim(-1), cacheSize(0), spread(-1), vertex(false) {}
	std::string describe(unsigned dims) const;
	/** effective block size in user dimension d */
	size_t blockSize(const model::File& f, unsigned d) const;
	size_t blocks(const model::File& f) const;
	/** block of a cell */
	size_t blockOf(const model::File& f, size_t cell) const;
	size_t slots() const { return cacheSize ? cacheSize : 128; }
};
/** block start/size in file order of the block that contains a cell */
void blockBox(const model::File& f, const Storage& s, size_t cell, std::vector<size_t>& start, std::vector<size_t>& count);
/**
 * Counts loads: the library may get one block with several netCDF calls, i.e. calls of one thread that get
 * different parts of the same block belong to one load, until the block is complete
 */
struct LoadCounter {
	struct Open { std::string path, var; size_t block, missing; std::vector<sched::NcRead> parts; };
	std::map<int, Open> open;	// by task
	/** @return if this access starts a new load */
	bool starts(const sched::NcRead& x, const model::File& f, const Storage& s);
};
/** accesses to the variable (others are left out), the parts of one load put together */
std::vector<sched::NcRead> wholeLoads(const std::vector<sched::NcRead>& v, const model::File& f, const Storage& s);
struct StorageOpts { bool full, cache, passThrough; int minCache; StorageOpts() : full(true), cache(true), passThrough(true), minCache(1) {} };
Storage drawStorage(const model::File& f, const StorageOpts& o = StorageOpts());
void setParam(Grid* g, const std::string& name, const std::string& value, unsigned level, bool vary = false);
/** Parameters that apply to the whole grid (level 0) */
void applyGrid(Grid* g, const Storage& s, bool vary = false);
/** Parameters of one level, and the variable */
void applyLevel(Grid* g, const Storage& s, const model::File& f, unsigned level, bool vary = false);

GError open(Grid* g, const std::string& file, unsigned level);
unsigned long counter(Grid* g, const char* name, unsigned level);
void close(Grid* g);

/** A sequence of positions with locality */
struct Walk {
	const model::File* f;
	bool sequential; size_t at; std::vector<model::Pos> recent; bool plainOnly;
	Walk(const model::File& file);
	model::Pos next();
};

}

#endif
