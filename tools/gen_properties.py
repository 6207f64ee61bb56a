#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that wording and anchors stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

GET = ["asagi::Grid::getByte/getInt/getLong/getFloat/getDouble/getBuf"]
prop("C01", "A coordinate returns the value of the nearest grid cell, clamped at the border",
 "Reading a grid at any coordinate returns the value the file stores for the grid point nearest to that coordinate in every dimension (coordinate 0 belongs to the fastest-varying, last declared dimension of the variable; axes may be ascending or descending, with arbitrary offset and spacing, or plain indices if the file has no coordinate variable). A coordinate outside the grid, including an infinite one, returns the value of the nearest border cell, and in a dimension with only one grid point (range reported as -inf..inf) every coordinate selects that point. No coordinate that is a number makes the library read outside the grid.",
 ["inputs"], "all files with 1..4 dimensions, all axis descriptions and all non-NaN coordinate vectors (the halfway point between two cells may select either)",
 "The unit tests never open a file: no test reaches the coordinate arithmetic, let alone descending axes, singleton dimensions, borders or infinities.",
 ["grid/level/level.h", "io/netcdfreader.h", "grid/level/blocked.h"],
 [("pos2index: offset/scaling, rounding and clamping", "grid/level/level.h"), ("coordinate variables to offset and scaling", "io/netcdfreader.h getOffset/getScaling")],
 [("m_offset, m_scaling, m_scalingInv", "affine map from coordinates to indices, per dimension in Fortran order", "grid/level/level.h")], GET)
prop("C02", "Storage mode and tuning parameters never change the values read",
 "For one file, every combination of grid type (fully loaded, cached, pass-through), block sizes, time dimension, cache size and cache hand spread yields exactly the same value for every position, after any history of earlier reads. Only speed and memory may differ.",
 ["inputs", "configurations", "histories"], "all files, all parameter combinations (also blocks that do not divide the grid, blocks larger than the grid, caches of one block) and all read sequences",
 "Grid code is not reached by any unit test; a test samples one configuration and one short read sequence, while errors show only for particular block/edge/eviction combinations.",
 ["grid/grid.cpp", "grid/level/blocked.h", "grid/level/cache.h", "grid/level/cachedist.h", "grid/level/full.h", "grid/level/passthrough.h", "cache/cachemanager.h", "cache/lru.h"],
 [("block numbering and offsets in a block", "grid/level/blocked.h"), ("clipped block load at the border", "io/netcdfreader.h getBlock"), ("fill on miss, reuse on hit", "grid/level/cache.h, grid/level/cachedist.h")],
 [("cached blocks", "which block each slot of the cache holds", "cache/cachelist.h")], GET)
prop("C03", "Typed reads convert exactly like C, raw reads return the stored bytes",
 "A typed read returns the file's value converted to the grid's element type and then, as a C++ conversion, to the requested type; for arrays and structures it returns the first element. A raw read writes exactly the reported number of bytes per value: all elements of the array, or the structure as laid out in the file, and nothing beyond. This holds for every element type, array length and structure layout.",
 ["inputs", "programs"], "all element types x all file types x all values representable after conversion x all array lengths and structure layouts x all read functions",
 "types/ has no behavioural unit test; 15 element types, 6 read functions and arbitrary structure layouts cannot be enumerated by samples.",
 ["types/basictype.h", "types/arraytype.h", "types/structtype.h", "types/structtype.cpp", "io/netcdfreader.h", "grid/grid.h"],
 [("conversion", "types/*.h convert"), ("typed netCDF load", "types/*.h load, io/netcdfreader.h getBlock")], (), GET+["asagi::Grid::getVarSize"])
prop("C04", "Reported dimensions, range, spacing and value size describe the file",
 "After a successful open, the number of dimensions, the range [min,max] and spacing in each dimension, and the size of one value are those of the file, with dimension 0 being the fastest-varying (last declared) dimension of the variable. Spacing is never negative; for cell-centred grids the range extends half a cell beyond the outermost grid points, for vertex-centred grids it ends at them, and one-point dimensions report an infinite range. Every coordinate inside the reported range is accepted as it is, without being moved to the border (up to the rounding of coordinates that are more than 10000 grid spacings away from zero).",
 ["inputs", "configurations"], "all files, axes and value positions",
 "No unit test opens a file; the relation between metadata and lookup must hold for all axes.",
 ["grid/level/level.h", "grid/simplecontainer.h", "grid/grid.h", "io/netcdfreader.h"],
 [("min/max/scaling computation", "grid/level/level.h open"), ("reversal of the dimension order", "grid/level/level.h min/max/delta")], (),
 ["asagi::Grid::getDimensions/getMin/getMax/getDelta/getVarSize"])
prop("C05", "Levels and grids are independent of each other",
 "Each level of a grid always serves the data, spacing and counters of the file opened for that level, whatever other levels (in whatever order, before or after reads) or other grids are opened, read or closed in between. Opening, reading or closing one grid or level never changes what any other one returns.",
 ["histories", "configurations"], "all interleaved histories of create/open/read/close over several grids and levels, in every grid type",
 "Only histories with several levels and several live grids show interference; no test opens even one grid.",
 ["grid/simplecontainer.h", "grid/grid.cpp", "grid/level/level.h", "numa/numacomm.h", "allocator/default.h"],
 [("one level object per level", "grid/simplecontainer.h"), ("per-level parameters", "grid/grid.cpp param")],
 [("m_levels", "the opened levels of a grid", "grid/simplecontainer.h")], GET+["asagi::Grid::open", "asagi::Grid::getCounter", "asagi::Grid::getDelta"])
prop("C06", "Opening never crashes: bad files and requests yield the matching error",
 "Opening any file name, file content and variable name either succeeds or returns an error, never crashes, hangs or corrupts memory. A file that is missing or not netCDF, an unknown variable, an unsupported number of dimensions (none, more than the library was built for), a value size that is no multiple of the array element, and a value size differing from the grid's other levels each return their documented error code. All threads of a process get the same result, and if the file cannot be opened by only some NUMA domains, or only some processes of a grid distributed with MPI, the open fails for all of them. After a failed open the grid can still be closed, and a further open may succeed and then works normally.",
 ["inputs", "histories", "fault_sequences"], "all file contents (valid, corrupted, arbitrary bytes), variable names, grid types and sequences of failing and succeeding opens of 1..4 processes with 1..3 threads",
 "Arbitrary file contents and failure histories are unbounded; existing tests open no file.",
 ["io/netcdfreader.cpp", "io/netcdfreader.h", "grid/level/level.h", "grid/level/blocked.h", "types/arraytype.h", "types/structtype.h", "grid/grid.cpp"],
 [("error checks while opening", "io/netcdfreader.cpp, io/netcdfreader.h open"), ("type checks", "types/*.h check"), ("error returned to all threads", "grid/grid.cpp open")], (),
 ["asagi::Grid::open return value", "process exit status / sanitizers"])
prop("C07", "Parameters are honoured as documented, independent of spelling",
 "Parameter names and enumerated values are recognised independent of upper/lower case and of '-' versus '_'; the variable name is taken literally. Parameters apply to the level they are set for (last value wins), unset ones take the documented defaults, unknown names and unknown values fall back to the default with no other effect, and numbers, including negative ones, keep their value. Block sizes: positive as given (at most the grid size), negative means the whole dimension, unset/0 means 64, except 1 in the time dimension.",
 ["configurations", "inputs"], "all parameter names, spellings, values, levels and orders of setting",
 "No test sets a parameter on a grid that is opened; spelling variants and combinations are too many to sample by hand.",
 ["grid/grid.cpp", "grid/level/blocked.h", "include/asagi.h", "documentation/user/02_usage.h"],
 [("normalisation of names and values", "grid/grid.cpp setParam"), ("defaults", "grid/grid.cpp param/open/initContainers"), ("block size rules", "grid/level/blocked.h open")],
 [("m_params", "per-level parameter map", "grid/grid.h")], ["asagi::Grid::setParam", "asagi::Grid::getCounter (block loads reveal block shape)", "values and metadata after open"])
prop("C08", "Access counters account for every access and transfer",
 "For each level, the access counter equals the number of values read from that level, and every block that had to be fetched is counted exactly once at the source that delivered it: file, other NUMA domain or other process. Hence fully loaded local data causes no transfers, pass-through causes one file load per access, and a cached grid causes one transfer per miss and none per hit. Unknown counter names read as 0, and reading counters never changes them.",
 ["histories", "configurations"], "all read histories on all levels, grid types and thread/process layouts (with exact counting enabled when threads run concurrently)",
 "perf/ is only compiled, never compared against a model of accesses; multi-level and multi-domain sums are never exercised.",
 ["perf/counter.h", "perf/counter.cpp", "grid/grid.cpp", "grid/level/cache.h", "grid/level/cachedist.h", "grid/level/full.h", "grid/level/fulldist.h", "grid/level/passthrough.h"],
 [("incCounter at each event", "grid/level/*.h"), ("aggregation over NUMA domains", "grid/grid.cpp getCounter"), ("counter names", "perf/counter.cpp")], (),
 ["asagi::Grid::getCounter"])
prop("C09", "The block cache serves the right block and keeps what it has room for",
 "For any request sequence, the cache hands out a slot that either already holds the requested block or is to be refilled with it, and reports truthfully which block the slot held before; two different blocks never share a slot and one block never occupies two. As long as no more distinct blocks than slots have been requested, nothing is evicted, and a block is never evicted by requests that hit. This holds for every number of slots and every eviction setting.",
 ["histories", "configurations"], "all sequences of get/unlock/try-get/invalid requests for all cache sizes >= 1 and all hand spreads (any integer, including larger than the cache)",
 "cachelist/cachemanager tests run a handful of fixed calls on a cache of fixed small size.",
 ["cache/cachemanager.h", "cache/cachelist.h", "cache/lru.h"],
 [("index of cached blocks", "cache/cachemanager.h"), ("victim selection", "cache/lru.h"), ("insertion/removal", "cache/cachelist.h")],
 [("slots", "block id and lock per slot", "cache/cachelist.h, cache/cachemanager.h")], ["cache::CacheManager get/tryGet/unlock/getEntry", "file-load counters of a cached grid"])
prop("C10", "Concurrent cache users never share a slot being filled and never deadlock",
 "While one thread holds a cache slot, no other thread can obtain it, whether by requesting the same block, by evicting it, or by peeking at it from another domain; a block requested concurrently by several threads ends up in one slot and is loaded by one of them. Peeking never waits and reports either the block (then protected until released) or its absence. Whatever the schedule, every request is eventually served as long as holders release their slots and there are at least as many slots as simultaneous holders.",
 ["schedules", "histories"], "all interleavings of get/try-get/unlock by up to 4 threads for caches of 1.. slots (number of holders <= slots)",
 "The existing tests are single-threaded; the property quantifies over interleavings.",
 ["cache/cachemanager.h", "cache/lru.h", "cache/cachelist.h", "threads/mutex.h", "threads/pthreadmutex.h"],
 [("list lock and one lock per slot", "cache/cachemanager.h"), ("retry if the slot changed while waiting", "cache/cachemanager.h get")],
 [("slot locks", "held from get until unlock", "cache/cachemanager.h")], ["cache::CacheManager API", "values read by threads of one grid"])
prop("C11", "Any number of threads may open and read one grid concurrently",
 "When the announced number of threads all call open and then read, each in its own order, every call returns what it would return single-threaded: the same result code in every thread and the correct value at every position, for every schedule. No schedule deadlocks or loses an open call, including repeated opens of further levels and failing opens.",
 ["schedules", "histories", "configurations"], "all interleavings of 1..4 threads over open/read histories in all grid types",
 "No existing test opens a grid with several threads; schedules are not controlled by any test.",
 ["grid/grid.cpp", "numa/numa.cpp", "threads/sync.h", "threads/once.h", "grid/level/cache.h", "io/netcdfreader.h", "grid/level/passthrough.h"],
 [("collective open with barrier/broadcast", "grid/grid.cpp open"), ("serialised netCDF access", "io/netcdfreader.h"), ("per-slot locking", "cache/cachemanager.h")], (), GET+["asagi::Grid::open"])
prop("C12", "NUMA domains share one copy of the data instead of re-reading the file",
 "With NUMA communication enabled, threads of any domain read correct values although each domain stores only its share; a block of a fully loaded grid is kept by exactly one domain, and a cached grid takes a block that another domain currently caches from there instead of from the file. With NUMA communication disabled, all threads form one domain and no NUMA transfer occurs. The mapping of threads to CPUs and CPUs to domains never affects values.",
 ["schedules", "configurations", "histories"], "all thread-to-domain mappings with 1..4 domains, all schedules and read histories, fully loaded and cached grids, NUMA setting ON/OFF/CACHE",
 "The machine running the tests decides the topology; the unit tests never transfer data between domains.",
 ["grid/grid.cpp", "transfer/numafull.h", "transfer/numafullcache.h", "transfer/numacache.h", "transfer/numano.h", "grid/level/fulldist.h", "grid/level/cachedist.h", "numa/numa.cpp"],
 [("selection of the NUMA variant", "grid/grid.cpp initContainers"), ("copy from the other domain's block/cache", "transfer/numa*.h")], (), GET+["asagi::Grid::getCounter file_loads/numa_transfers"])
prop("C13", "A fully loaded grid distributed over processes reads like a local one",
 "When several processes open a fully loaded grid on a common communicator, every process reads the correct value at every position, whichever communication method (one-sided windows or communication thread) is chosen, for every timing of the processes and message progress. Processes may read different positions in different order and different amounts, and close in any timing, without deadlock. With communication turned off each process simply holds all data.",
 ["schedules", "configurations", "histories"], "1..4 processes x 1..2 threads x block layouts x schedules x message timings x levels",
 "The MPI tests are not runnable as stable tests and sample one timing; the transfer code is not compiled by the tests.",
 ["grid/level/fulldist.h", "transfer/mpiwinfull.h", "transfer/mpithreadfull.h", "mpi/commthread.h", "grid/level/blocked.h", "allocator/mpialloc.h"],
 [("one-sided get under shared lock", "transfer/mpiwinfull.h"), ("request/reply via the communication thread", "transfer/mpithreadfull.h")], (), GET+["asagi::Grid::open", "asagi::Grid::close"])
prop("C14", "Processes sharing cached blocks always see correct values",
 "When several processes open a cached grid on a common communicator, every read on every process returns the correct value although blocks are fetched from other processes' caches while these are being refilled and evicted. Every request terminates for every timing of processes, threads and messages, and a block that the shared directory (up to four most recent holders per block) records as cached elsewhere is taken from there instead of from the file.",
 ["schedules", "configurations", "histories"], "1..4 processes x 1..2 threads x cache sizes from one block x both communication methods x schedules x message timings",
 "The directory protocol fails only for particular interleavings of eviction, lookup and transfer; the tests never run it under a controlled schedule.",
 ["grid/level/cachedist.h", "transfer/mpiwincache.h", "transfer/mpithreadcache.h", "transfer/mpicache.h", "mpi/mutex.h", "mpi/commthread.h"],
 [("distributed directory of cached blocks", "transfer/mpicache.h"), ("window protocol", "transfer/mpiwincache.h"), ("message protocol", "transfer/mpithreadcache.h")],
 [("dictionary", "who caches which block", "transfer/mpicache.h")], GET+["asagi::Grid::getCounter"])
prop("C15", "The communication thread can be started, used and stopped reliably",
 "The communication thread starts at most once (a second start returns the already-initialised error), serves requests of all grids opened meanwhile from all processes, and stops without losing requests that were issued before; it can then be started again. Opening a grid that needs it without starting it returns an error instead of hanging. A non-negative CPU number pins it to that CPU, a negative one counts from the last CPU (-1 is the last), and an invalid one leaves it unpinned.",
 ["schedules", "histories", "configurations"], "all start/open/read/close/stop histories, all CPU numbers, all timings on 1..4 processes",
 "Start/stop timing against requests in flight is a schedule property; no stable test starts the thread.",
 ["mpi/commthread.h", "mpi/commthread.cpp", "asagi.cpp", "transfer/mpithreadfull.h", "transfer/mpithreadcache.h"],
 [("polling loop and stop handshake", "mpi/commthread.h"), ("CPU pinning", "mpi/commthread.h init")],
 [("receivers", "callback per tag", "mpi/commthread.h")], ["asagi::Grid::startCommThread/stopCommThread", "CPU affinity request", "values"])
prop("C16", "The cross-process lock excludes everybody else and is always passed on",
 "The lock used to protect a process' cache directory is held by at most one process or thread at a time, and everything written under the lock is visible to the next holder. Every acquire eventually succeeds if holders release, for every number of contenders and every timing; distinct locks do not influence each other.",
 ["schedules", "configurations"], "all interleavings of acquire/release by 1..4 processes on several locks, all admissible completion times of one-sided operations",
 "The lock is not compiled by any stable test; mutual exclusion quantifies over schedules.",
 ["mpi/mutex.h", "transfer/mpiwincache.h"],
 [("queue of waiters in a window, hand-over message", "mpi/mutex.h")],
 [("window entries", "next waiter / last waiter", "mpi/mutex.h")], ["mpi::Mutex acquire/release"])
prop("C17", "Barriers, broadcasts and run-once sections hold for every schedule",
 "No thread leaves a barrier or broadcast before all participating threads have entered it, every thread gets the value the root passed in exactly that round, and rounds may follow each other immediately and without bound. A run-once action runs exactly once and is complete before any caller returns. None of these depends on wake-up order or is confused by spurious wake-ups, and none deadlocks.",
 ["schedules", "histories"], "all interleavings (including spurious wake-ups) of 1..4 threads over any number of consecutive rounds, any root and any value size",
 "sync.t.h and once.t.h run a few rounds under the operating system's scheduler.",
 ["threads/sync.h", "threads/once.h", "numa/numa.h", "numa/numacomm.h"],
 [("condition variable with waiting/finishing counts", "threads/sync.h"), ("flag with lock", "threads/once.h")],
 [("waiting threads, finishing flag", "phase of the barrier", "threads/sync.h")], ["threads::Sync barrier/broadcast", "threads::Once saveExec", "numa::NumaComm broadcast/allocate"])
prop("C18", "Threads and NUMA domains are numbered consistently and stably",
 "After the announced number of threads has registered, the threads carry distinct numbers 0..n-1, domains are numbered contiguously from 0 and their total is correct, threads of the same hardware domain share a domain number, threads of different hardware domains do not, and each domain has exactly one master, the same in every later call. If detection is disabled everything is one domain. An error of the topology query is reported as an error.",
 ["schedules", "configurations", "fault_sequences"], "all thread counts up to 6, all CPU/domain topologies including failures, all schedules, repeated registration, several instances",
 "The unit test sees only the machine's own topology and one schedule.",
 ["numa/numa.cpp", "numa/numa.h", "numa/nonuma.h", "threads/sync.h"],
 [("registration under barrier", "numa/numa.cpp registerThread"), ("ids in thread-local storage", "numa/numa.cpp")],
 [("m_domains, m_masterThreads", "domain numbering and masters", "numa/numa.h")], ["numa::Numa registerThread/threadId/domainId/totalDomains"])
prop("C19", "C and Fortran interfaces do exactly what the C++ interface does",
 "Every C function and every Fortran procedure has the same effect and returns the same result as the C++ method it mirrors, including error codes, counters and level arguments; error and type constants have the same numeric value in all three languages. Fortran handles identify exactly the grid they were created for until it is closed; handles of closed grids are reused only after closing, and creating and closing grids in several threads at once is safe.",
 ["histories", "programs", "schedules"], "all sequences of interface calls mixed over the three languages and several grids, including handle reuse",
 "Only fortran/pointerarray-like helpers are compiled by the tests; the mirrored behaviour of the three interfaces is never compared.",
 ["asagi.cpp", "asagi_f90.cpp", "include/asagi.h", "include/asagi.f90", "fortran/pointerarray.h", "grid/grid.h"],
 [("delegation", "asagi.cpp, asagi_f90.cpp"), ("id table", "fortran/pointerarray.h")],
 [("m_pointers", "Fortran id to grid", "fortran/pointerarray.h")], ["asagi_grid_* C functions", "module asagi procedures"])
prop("C20", "Closing releases everything the grid acquired",
 "After a grid is closed, every resource the library acquired for it has been released exactly once: memory, open files, MPI communicators, groups, windows, datatypes and window memory, thread keys, mutexes and condition variables. This holds after successful opens, failed opens, several levels, several threads and several processes, and after stopping the communication thread.",
 ["histories", "fault_sequences", "configurations"], "all create/open/fail/read/close histories in all grid types and layouts",
 "Leaks and double frees need resource accounting over histories; tests neither open grids nor count handles.",
 ["grid/grid.cpp", "grid/level/level.h", "grid/level/full.h", "grid/level/cache.h", "grid/level/fulldist.h", "io/netcdfreader.h", "mpi/mpicomm.h", "mpi/commthread.h", "transfer/mpiwinfull.h", "transfer/mpiwincache.h", "transfer/mpicache.h", "types/arraytype.h", "allocator/mpialloc.h"],
 [("destructors", "all")], (), ["live MPI handles", "open file descriptors", "heap balance", "pthread objects"])
prop("C21", "Node-local ranks are 0..k-1 on every node, in rank order",
 "For every assignment of processes to hosts, whatever the host names, the node-local rank of a process is the number of lower-ranked processes of the communicator on the same host. The call succeeds for every communicator and leaves no resources behind.",
 ["inputs", "configurations"], "all host names up to the MPI limit (including names with equal checksums and long names), all assignments of 1..12 processes, all communicators",
 "Running the test on one host exercises exactly one host name.",
 ["asagi.cpp"], [("checksum split plus comparison of names", "asagi.cpp nodeLocalRank")], (), ["asagi::Grid::nodeLocalRank"])
prop("C22", "Concurrent use has no data races",
 "When threads use the library as documented (each thread opens collectively, then reads; different grids from different threads; communication thread running), no two conflicting accesses to the library's memory are unordered: all sharing is protected by locks, barriers or atomic operations. Hence results do not depend on compiler or hardware reordering.",
 ["schedules"], "all schedules of create/open/read/close by several threads on one or several grids, in every grid type and layout (with thread-safe counters compiled in)",
 "Races rarely change results under test; detecting them needs happens-before analysis of the accesses of each schedule.",
 ["fortran/pointerarray.h", "threads/once.h", "threads/sync.h", "numa/numa.cpp", "cache/cachemanager.h", "perf/counter.h", "grid/level/cache.h", "grid/level/passthrough.h", "transfer/numacache.h", "mpi/commthread.h"],
 [("locks and barriers", "threads/*.h"), ("atomic counters", "perf/counter.h")], (), ["memory accesses of the instrumented library"])
prop("C23", "MPI is used correctly and, in serialised builds, by one thread at a time",
 "Every MPI call the library makes is valid by the MPI standard: arguments in range, handles live, receives match sends in size, one-sided operations only inside an access epoch and inside the target window, buffers untouched until completion, and collective calls in the same order on all processes. When built for MPI libraries that are not thread-safe, no two threads of a process are ever inside MPI at the same time while the grid is being used.",
 ["schedules", "configurations", "histories"], "all use histories on 1..4 processes, all schedules and all admissible completion times",
 "A real MPI library tolerates most misuse silently and shows one timing.",
 ["mpi/mpicomm.h", "mpi/lockassert.h", "mpi/commthread.h", "mpi/mutex.h", "transfer/mpiwinfull.h", "transfer/mpiwincache.h", "transfer/mpicache.h", "transfer/mpithreadfull.h", "transfer/mpithreadcache.h", "grid/grid.cpp", "asagi.cpp"],
 [("global MPI lock", "mpi/mpicomm.h mpiLock"), ("lock/unlock of windows", "transfer/mpiwin*.h")], (), ["calls observed by a checking MPI stand-in"])
prop("C24", "Every block has exactly one home, and homes are balanced",
 "A fully loaded grid distributed over P processes with D domains each places every block in exactly one place, so together the places hold the whole grid once; no place holds more than ceil(blocks/(P*D)) blocks. Loading reads each block from the file exactly once in total, and a read of a block stored elsewhere is transferred from its home only. This holds for both distribution schemes the library can be built with.",
 ["configurations", "inputs"], "all grid and block sizes (including fewer blocks than places), P in 1..5, D in 1..3, round-robin and contiguous builds",
 "preprocess/test checks a Python copy of the index formulas, not the code; block counts, processes and domains combine without bound.",
 ["grid/level/blocked.h", "grid/level/full.h", "grid/level/fulldist.h"],
 [("block to process/domain/offset", "grid/level/blocked.h blockRank/blockDomain/blockOffset/local2global")], (), ["netCDF reads per process", "values", "counters", "allocation sizes"])
prop("C25", "Build options do not change results",
 "Built with or without MPI, MPI-3, NUMA support, thread support, serialised MPI, thread-safe counters or round-robin distribution, the library gives identical results (values, metadata, error codes, and counters where defined) for every program that the build supports. A feature that is compiled out is replaced by a documented fallback and never by wrong values, a crash or a hang.",
 ["configurations", "histories"], "all build option combinations x all single-process and multi-process programs they support",
 "The baseline builds five configurations but runs only component tests in them.",
 ["CMakeLists.txt", "mpi/nompicomm.h", "numa/nonuma.h", "threads/noopmutex.h", "threads/mutex.h", "transfer/mpino.h", "transfer/numano.h", "grid/grid.cpp", "allocator/mpialloc.h"],
 [("stand-in classes for missing features", "mpi/nompicomm.h, numa/nonuma.h, threads/noopmutex.h, transfer/*no.h")], (), GET)
prop("C26", "The preprocessing scripts write the grids they describe",
 "create_noise_grid writes, for every width, height and roughness, evenly spaced coordinates x and y of the cell centres and for every cell the noise bathymetry of its coordinates, with x as the fastest dimension, into the netCDF and/or VTK file that was asked for. The noise functions are the improved Perlin noise in one to three dimensions: zero at lattice points, bounded, continuous, with period 256, and octaves weighted by the roughness. interpol_time copies dimensions, coordinate variables and attributes of any file and prepends a time dimension along which every variable grows linearly from zero to its original values.",
 ["inputs", "configurations"], "all sizes, roughnesses, positions and input files",
 "There are no tests of the scripts; sizes, positions and layouts of files are unbounded.",
 ["preprocess/gen_noise/pnoise.py", "preprocess/gen_noise/create_noise_grid.py", "preprocess/interpol_time/interpol_time.py"],
 [("noise", "preprocess/gen_noise/pnoise.py"), ("loop over time steps", "preprocess/interpol_time/interpol_time.py")], (), ["output files", "values of the noise functions"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
