#ifndef VERIF_FAKEMPI_H
#define VERIF_FAKEMPI_H
#include "mpi.h"
#include <cstdint>
#include <string>
#include <vector>

namespace fmpi {

struct Config {
	int ranks;
	int eager;		// 0: sends are buffered, 1: sends wait for the receiver, 2: tape
	bool lazyLock;		// MPI_Win_lock may return before the lock is granted
	bool strict;		// formal validity of MPI usage (C23)
	bool serialised;	// only one thread of a process may be inside MPI
	std::vector<std::string> hosts;
};
extern Config config;
/** Starts a case; all state of the previous one is dropped */
void begin(const Config& c);
/** Draws the network parameters */
Config drawConfig(int ranks);
/** Live handles of a rank by kind, "" if none */
std::string leaks(int rank);
/** Switches the check for serialised MPI on and off for one rank */
void setSerialised(int rank, bool on);
struct Stats { uint64_t msgs, rma, collectives, lockWaits; };
extern Stats stats;
/** Test communicators made by the harness (not accounted to the library) */
struct HarnessScope { HarnessScope(); ~HarnessScope(); };
MPI_Fint fintOf(MPI_Comm c);
}
#endif
