#include "lib.h"

#define D(x) void runC##x();
D(01) D(02) D(03) D(04) D(05) D(06) D(07) D(08) D(11) D(12) D(13) D(14) D(15) D(19) D(20) D(21) D(22) D(23) D(24) D(25) D(09api) D(10api) D(16api) D(17api) D(18api) D(15history) D(06partial) D(01many) D(02many) D(03many) D(04many) D(05many) D(07many)

void loadC20();

static void load1() { lib::load(1); }
static void load12() { lib::load(12); }
static void load20() { lib::load(20); }

#define V25(v, n) { "C25-" v, runC25, n, n * 14, "a case is a program for the build " v " (single-process checks, several threads, several processes) with the model as oracle; non-trivial: as in the check the program is drawn from", "only features the build supports", load12 },

static const eng::CheckDef defs[] = {
	{ "C01", runC01, 24000, 1200000, "a case is one file (1-4 dimensions, random axes) read at random coordinates through one grid; non-trivial: at least one coordinate outside of the grid, more than one cell", "uniformly spaced axes; either neighbour is accepted at midpoints", load1 },
	{ "C02", runC02, 12000, 600000, "a case is one file opened with 2-4 storage configurations and read with the same sequence; non-trivial: different grid types and a cache that had to evict", "one process, one thread", load1 },
	{ "C03", runC03, 24000, 1200000, "a case is a file with a random value type (10 primitive types, arrays, compounds) read with all functions; non-trivial: a conversion took place or the value is an array or structure", "values are representable in the types they are converted to; padding bytes of structures are not compared", load1 },
	{ "C04", runC04, 24000, 1200000, "a case is a file with random axes; non-trivial: more than one dimension or a descending axis", "uniformly spaced axes, offset of at most 10000 steps", load1 },
	{ "C05", runC05, 5000, 250000, "a case is a sequence of create/open/read/close operations on up to 3 grids with up to 4 levels; non-trivial: a level was opened after reads of another one, or a grid closed before reads of others", "each level is opened once", load1 },
	{ "C06", runC06, 4000, 200000, "a case is an open of a missing, foreign, unusual or damaged file or an unknown variable, followed by a retry with a correct file; non-trivial: the open failed", "files on which libnetcdf itself crashes are left out", load1 },
	{ "C07", runC07, 16000, 800000, "a case is a set of parameters in random spelling and order, observed by the blocks loaded from the file; non-trivial: more than one block and more than two parameters", "numeric parameters have numeric values, cache size > 0", load1 },
	{ "C08", runC08, 12000, 150000, "a case is a program of 1-3 processes with 1-3 threads that read and then ask for all counters; non-trivial: hits and misses occurred", "counters compiled thread-safe", load12 },
	{ "C06-partial", runC06partial, 5000, 200000, "a case is a program of 1-4 processes with 1-3 threads in which opens fail before they succeed, in all or only some NUMA domains or processes; non-trivial: at least one failing open", "all threads of a domain use the same file", load12 },
	{ "C01-many", runC01many, 4000, 160000, "the same on 1-3 processes with 1-3 threads, on every kind of grid, under one schedule; non-trivial: several processes or threads", "same number of threads and domains on all processes", load12 },
	{ "C02-many", runC02many, 4000, 160000, "the same on 1-3 processes with 1-3 threads, on every kind of grid, under one schedule; non-trivial: several processes or threads", "same number of threads and domains on all processes", load12 },
	{ "C03-many", runC03many, 4000, 160000, "the same on 1-3 processes with 1-3 threads, on every kind of grid, under one schedule; non-trivial: several processes or threads", "same number of threads and domains on all processes", load12 },
	{ "C04-many", runC04many, 4000, 160000, "the same on 1-3 processes with 1-3 threads, on every kind of grid, under one schedule; non-trivial: several processes or threads", "same number of threads and domains on all processes", load12 },
	{ "C05-many", runC05many, 2000, 80000, "the same on 1-3 processes with 1-3 threads, on every kind of grid, several grids and levels, under one schedule; non-trivial: several processes or threads", "same number of threads and domains on all processes", load12 },
	{ "C07-many", runC07many, 4000, 160000, "the same on 1-3 processes with 1-3 threads, on every kind of grid, parameters in random spelling, under one schedule; non-trivial: several processes or threads", "same number of threads and domains on all processes", load12 },
	{ "C11", runC11, 12000, 150000, "a case is a program of 2-4 threads (sometimes of two processes) that open, read and close grids under one schedule; non-trivial: at least ten thread switches", "every thread opens every level", load12 },
	{ "C13", runC13, 10000, 400000, "a case is a program of 2-4 processes with 1-3 threads that open, read and close fully loaded grids under one schedule of threads and messages; non-trivial: blocks moved between processes", "same number of threads and domains on all processes", load12 },
	{ "C14", runC14, 10000, 400000, "a case is a program of 2-6 processes with 1-3 threads that open, read and close cached grids under one schedule of threads and messages; non-trivial: blocks moved between processes", "same number of threads and domains on all processes; sources are exact when one operation runs at a time", load12 },
	{ "C15", runC15, 6000, 300000, "a case is a sequence of start/open/read/close/stop rounds on 1-4 processes with 1-2 threads; non-trivial: several processes read through the communication thread", "collective calls in the same order on all processes; grids are closed before the thread is stopped", load12 },
	{ "C15-history", runC15history, 4, 60, "a case is one life of the communication thread in which 2-3 processes open, read and close thousands of grids; non-trivial: more registrations of receivers than MPI tags", "as C15; one schedule", load12, 6 },
	{ "C19", runC19, 9000, 300000, "a case is a program whose calls are made through the C++, C and Fortran interfaces in random mixture; non-trivial: as in the check of the property the program is drawn from", "a grid that is created by Fortran is used by Fortran only; counters of such grids are read through the table of numbers", load12 },
	{ "C20", runC20, 2400, 100000, "a case is a program (processes, threads, levels, failing opens, parameters, communication thread) that runs four times; every case counts as non-trivial", "memory that a library keeps for later use (does not grow with further runs) is no leak; each level is opened successfully once", loadC20 },
	{ "C21", runC21, 12000, 600000, "a case is an assignment of 1-20 processes to hosts and 1-3 communicators; non-trivial: several hosts and several processes on one", "host names shorter than MPI_MAX_PROCESSOR_NAME", load20 },
	{ "C22", runC22, 4000, 150000, "a case is a program of 1-3 processes with 1-3 threads in a build with the data race detector; non-trivial: several threads per process or a communication thread", "the deterministic scheduler adds no happens-before edges of its own; races are reported for the synchronisation that took place", load12 },
	{ "C23", runC23, 5000, 200000, "a case is a program of 2-4 processes on a simulated MPI that checks every call; non-trivial: blocks moved between processes", "the simulated MPI implements the rules of the MPI standard for the calls in use", load12 },
	{ "C23-serial", runC23, 5000, 200000, "as C23 in a build for MPI libraries that are not thread-safe", "closing is left out", load12 },
	{ "C24", runC24, 10000, 400000, "a case is a program of 1-5 processes with 1-3 domains that load a grid; non-trivial: several places and blocks", "same number of domains on all processes", load12 },
	{ "C24-linear", runC24, 10000, 400000, "as C24, without round-robin distribution", "same number of domains on all processes", load12 },
	{ "C09-api", runC09api, 10000, 400000, "a case is a sequence of reads of a cached grid whose loads are observed; non-trivial: hits, and blocks loaded again or all blocks fit", "one thread", load1 },
	{ "C10-api", runC10api, 6000, 300000, "a case is a program of 2-5 threads (sometimes of two processes) that read cached grids under one schedule; non-trivial: more than ten thread switches", "every thread opens every level", load12 },
	{ "C16-api", runC16api, 4000, 200000, "a case is a program of 2-4 processes with 1-3 threads that read cached grids through windows; non-trivial: blocks moved between processes or more than 20 thread switches", "same number of threads and domains on all processes", load12 },
	{ "C17-api", runC17api, 6000, 300000, "a case is a program of 2-6 threads (sometimes of two processes) that open, read and close grids with several levels under one schedule; non-trivial: more than ten thread switches", "every thread opens every level", load12 },
	{ "C18-api", runC18api, 6000, 300000, "a case is a program of 1-6 threads on 1-4 memory domains that open and read fully loaded grids; non-trivial: several domains", "virtual topology", load1 },
	V25("release", 3600) V25("linear", 2100) V25("serial", 2700) V25("nompi3", 2700) V25("nompi", 3600) V25("nonuma", 3600) V25("debugnuma", 2700)
	V25("nopthread", 3600) V25("nothreads", 3600) V25("plaincounter", 2700) V25("dims6", 2700) V25("minimal", 3600)
	{ "C12", runC12, 12000, 150000, "a case is a program of 2-4 threads on 1-3 memory domains of 1-3 processes; non-trivial: blocks moved between domains", "exact counts for caches with one slot or a slot for every block", load12 },
};

int main(int argc, char** argv) { return eng::main(argc, argv, defs, sizeof defs / sizeof defs[0]); }
