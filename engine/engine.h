// Choice-tape property testing engine (see DESIGN.md)
#ifndef VERIF_ENGINE_H
#define VERIF_ENGINE_H

#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace eng {

/** The two streams of the tape: DATA (files, configuration, operations), SCHED (schedule, network) */
enum Stream { DATA = 0, SCHED = 1 };

/** Draws a number in [0,n); 0 is the simplest choice */
uint32_t draw(Stream s, uint32_t n);
/** Position of a stream, and going back to it: the same numbers are drawn again */
uint32_t mark(Stream s);
void rewind(Stream s, uint32_t mark);

/** Helpers on the DATA stream */
inline uint32_t pick(uint32_t n) { return draw(DATA, n); }
inline int range(int lo, int hi) { return lo + static_cast<int>(draw(DATA, static_cast<uint32_t>(hi - lo + 1))); }
/** true with probability num/den; false is the simple choice */
inline bool chance(uint32_t num, uint32_t den) { return draw(DATA, den) >= den - num; }
uint64_t bits64();
template<typename T> const T& oneof(const std::vector<T>& v) { return v[pick(v.size())]; }

/** Ends the case as failed. `key` names the kind of failure (used to keep shrinking on one kind). */
[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define CHECK_MSG(cond, key, ...) do { if (!(cond)) eng::fail(key, __VA_ARGS__); } while (0)

/** Marks the current case as non-trivial by the rule of the check */
void nontrivial();
/** Counts a class of cases (per case at most once) */
void label(const char* name);
/** Adds a number to a named statistic */
void stat(const char* name, uint64_t add = 1);
/** Appends to the human-readable description of the case */
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

/** A private scratch directory of this process (removed at the end of the run) */
const std::string& scratch();

struct CheckDef {
	const char* id;
	void (*run)();
	/** number of cases in quick / thorough tier */
	uint64_t quick, thorough;
	const char* rule;
	const char* assumptions;
	/** optional: called once before workers are forked */
	void (*setup)();
	/** optional: cases that take longer than usual, factor for the limits */
	double slow;
};

extern uint64_t caseIndex;
extern bool thorough;
extern bool replaying;

int main(int argc, char** argv, const CheckDef* defs, size_t n);

}

#endif
