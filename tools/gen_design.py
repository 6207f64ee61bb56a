D = r'''# Verification of TUM-I5/ASAGI by property-based testing and fuzzing

All 26 properties of `properties.jsonl` are decided by generated-input search against an explicit oracle; none is
listed as not applicable. `check.py <ID>` builds everything it needs from /repo's working tree and runs the check.

    python3 check.py C05                     quick (what MANIFEST.json registers)
    python3 check.py C05 --thorough          about 40 times as many cases (at most 50 minutes)
    python3 check.py C05 --replay replay/... one failing case again
    VERIF_REPO=/some/copy python3 check.py C05     another tree (used for planted bugs and mutants)

Contents: 1 machinery, 2 properties one by one, 3 tolerance against refactorings, 4 genuine defects found,
5 false alarms that were corrected, 6 planted bugs, 7 limits.

## 1 Machinery

The unit tests of the repository never open a grid (submodules/utils is absent, so the existing tests cover the
parsers, the small classes and single-threaded pieces). Hence everything here drives the real library as a user does:
`stubs/utils` provides the two headers that the library needs from the missing submodule.

**Choice tape (`engine/`).** Every decision of a case - file contents, configuration, operation histories, *and* the
thread/process schedule, message and one-sided-completion timings, spurious wake-ups, CPU topology, injected faults - is
drawn from one tape of integers, seeded by `VERIF_SEED` and the number of the case. A case is a pure function of the code
and its tape. Failing cases are shrunk on the tape (delete, zero, halve, lower), written to `replay/` and replayed three
times in fresh processes before they are reported as `VIOLATION property=<id> replay=<path>`. Cases run in worker
processes (all cores; a crash, sanitizer report or time-out is a failure of the case it happened in). A failure has a
*key* (e.g. `value`, `deadlock`, `mpi-window-epoch`); `known-findings` could suppress single keys with a text pattern.
The evidence file counts cases, non-trivial cases by the rule of the check (also in the evidence), classes of cases, and
contains samples.

**Deterministic scheduler (`engine/sched.*`).** The library is compiled with ASan+UBSan and load/store instrumentation
(`-fsanitize-coverage=func,trace-loads,trace-stores`); after compilation the objects' references to pthread, `std::mutex`
helpers, NUMA, scheduler, malloc, libnetcdf, sleep and yield functions are redirected to `vwrap_*` by objcopy. Threads of
the application and of the library are tasks of which exactly one runs; the tape decides who continues at
every synchronisation call (strategies: random, PCT priorities) and at randomly placed memory accesses of the library
(preemption between any two loads/stores). Some schedules freeze a thread at such a place until nobody else can go on, which
reaches windows of a few instructions that random choices rarely hit. Deadlocks (nobody can run), livelocks (no progress within a number of scheduling
points in which everybody had a turn) and misuse (unlock by a foreign thread, destruction of a locked mutex, concurrent use
of libnetcdf) are detected without wall clock. Waiting for conditions may be interrupted by spurious wake-ups.

**MPI stand-in (`fakempi/`).** `mpi.h` and an in-process, strictly checking MPI. Each rank is a private copy of the library
(own statics, own objects: the library is built as a shared object that is loaded several times), its threads are tasks.
Point-to-point messages, synchronous sends, one-sided operations and completion are delayed as far as the standard allows
(eager/late, lazy locks, transfers at unlock), as chosen by the tape. Every call is checked: arguments, live
handles, matching sizes and types, epochs, window bounds, conflicting one-sided accesses, collective order, buffers of
pending operations (checksummed), use by several threads in serialised mode, objects left behind.

**Data races.** A variant without ASan but with ThreadSanitizer instrumentation in the library. The scheduler hides its own
synchronisation from the detector and adds exactly the happens-before edges of the intercepted primitives, so that a race is
reported although tasks never run simultaneously.

**Files and model (`harness/model.*`).** Files are written by libnetcdf from a model (dimensions, axes, types, values), which
then is the oracle: the value of each cell (by an injective hash of index and salt, so that every wrong cell, block, level or file
is seen), the set of acceptable cells of a coordinate, conversions in C, metadata, partition in blocks.
All file accesses of the library are recorded (file, start, count, thread).

**Programs (`harness/sim.*`, `harness/world.*`).** A generated program consists of processes x threads x grids x levels,
with parameters in random spellings, phases in which levels are opened (also failing opens), interleaved reads, counter and
metadata queries, private grids and closing in random timing. It runs in free mode (any schedule; invariants) or in
turn mode (one operation at a time in a drawn order; then the reference model of caches, domains and the distributed
directory predicts the source of every single block: hit, other domain, other process, file).

**Scripts (`preproc/`).** The Python scripts in `preprocess/` run in-process under hypothesis against a stand-in of the `netCDF4` module
(the module itself is not installed) that keeps files in memory and is as strict as the module about dimensions and shapes.

**Variants (`build.py`).** 16 builds of the same sources (with/without MPI, MPI-3, NUMA, threads, serialised MPI, ... ) built on
demand, cached by a hash of sources and flags in `build/` (git-ignored).

## 2 Properties

Quick numbers of cases in brackets; thorough runs do 40-50 times as many. All quick checks take 5-45 s (C25 about 80 s) plus the build
(15-45 s, shared). "Why not tests": the properties quantify over files, histories and schedules.

| id | what is generated | oracle | bounds / assumptions |
|---|---|---|---|
| C01 [24000+4000] | files of 1-4 dimensions (5 and 6 in C25), axes with up to 10^5 points, ascending/descending/no/one-point axes, offsets and spacings from 1e-100 to 1e100, sparse files with more than 2^31 / 2^32 cells; coordinates inside, outside, at midpoints, +-inf, +-huge; 3 grid types | cell(s) nearest to the coordinate computed from the stored axis; either neighbour at midpoints within rounding; ASan for accesses outside | uniformly spaced axes; NaN coordinates only in one-point dimensions |
| C02 [12000+4000] | one file, 2-4 storage configurations (type, block sizes, time dimension, cache size, hand spread), the same history of reads | differential between configurations, and the file | one thread (C11-C14 are concurrent) |
| C03 [24000+4000] | all element types, arrays, structures with gaps/different layouts in file and grid, all read functions | conversions file -> element -> requested type in the harness; guard bytes around buffers | values representable in the types they are converted to; also 64-bit integers and values near the limits |
| C04 [24000+4000] | as C01 plus vertex/cell centring, structure sizes | formulas of the statement; coordinates of the range's ends and interior must not be moved | see statement for the rounding of far-away axes |
| C05 [5000+2000] | histories of create/open/read/close over 3 grids x 4 levels (each up to ~10^5 cells) in any order | each level against its own file, metadata and counters after every step | each level opened once successfully |
| C06 [4000+5000] | missing, foreign, truncated, bit-flipped and unusual files (no dimensions, length 0, 5+ dimensions, character coordinates, other shapes), unknown variables, wrong sizes in first or later levels (all kinds and directions), then a retry; programs of 1-4 processes with 1-3 threads in which opens fail (in all, or only in some domains or processes) before they succeed | documented error code where the model knows it, otherwise "error or values of the file"; ASan; close and retry must work; one result in all threads of a process, no process succeeds alone, no deadlock | files on which libnetcdf itself crashes are left out |
| C07 [16000+4000] | parameters in random spelling, order, repetitions, unknown names and values, several levels (with and without own parameters) | block shapes seen in file accesses, behaviour of caches, metadata | numeric parameters have numeric values; cache size > 0 |
| C08 [12000] | programs of 1-3 processes x 1-3 threads, all grid types, communication modes, 7 counters and unknown names | exact sources in turn mode; sums and file accesses in free mode | thread-safe counters |
| C09 [60000+10000] | request/peek sequences at the block cache (1-70 slots, any spread, sequences to 400 requests); the same through reads of cached grids | reference model of the slots (truthfulness, uniqueness, no needless eviction, hit keeps); replay of loads | which block is evicted is not prescribed |
| C10 [16000+6000] | 2-5 threads with 1-3 caches (get/release/tryGet from other domains) under schedules incl. preemption at memory accesses; the same through reads (sometimes of two processes) | ownership ledger, contents of slots, loads per block, deadlock detection | one slot held at a time |
| C11 [12000] | 2-4 threads open/read/close several grids/levels, failing opens | every return value and value as single-threaded, deadlock/livelock/lock misuse | every thread opens every level |
| C12 [12000] | threads on 1-3 domains (also in 2-3 processes), NUMA communication on/off/cache, all grid types | values; one load per block of full grids; cached blocks must be taken from the domain that holds them (model in turn mode) | virtual topology |
| C13 [10000+4000] | 2-4 processes x 1-3 threads, full grids, windows/communication thread/off | values, termination, MPI validity, data of a block comes from its home; component stage: the types, communicators and MPI types of `types/`, `mpi/` against the standard's extents and the calls' results | same number of threads and domains on all processes |
| C14 [10000] | 2-6 processes x 1-3 threads, cached grids, small caches | values, termination; in turn mode the model of the directory (4 holders, eviction, recency) predicts the source of every block | |
| C15 [6000+4] | start/open/read/close/stop rounds on 1-4 processes, double starts, opens without start, failing thread creation, CPU numbers, several, also overlapping communicators; histories of up to 30000 grids in one life of the thread | return codes, values, every request served, affinity calls, live threads | collective calls in the same order |
| C16 [10000+4000] | 2-4 processes x 1-3 threads, several locks; the same through cached grids over windows | mutual exclusion, a protected plain counter in the window, termination | a thread holds one lock at a time |
| C17 [20000+6000] | 1-7 threads, rounds of barriers/broadcasts/run-once sections with spurious wake-ups; the same through grids | entry/exit ledger, values of the round, execution counts, termination | same threads in all rounds |
| C18 [20000+6000] | 1-6 threads, CPU->domain maps, faults (topology query, key creation), several objects; the same through grids | distinctness, contiguity, masters, repetition, error codes | virtual topology |
| C19 [9000] | the programs of C03-C08, C11, C15, C21 with every call made through C++, C or Fortran at random; Fortran handles over create/close histories in several threads | the models of those checks; constants compared | a grid created by Fortran is used by Fortran only |
| C20 [2400] | programs run four times in one process (single, threads, processes, failing opens, comm thread) | growth of memory (malloc interception), MPI objects, files, threads, mutexes, condition variables, keys between runs = 0 | the table of Fortran handles keeps one entry per grid |
| C21 [12000] | 1-8 processes, host names (similar, prefixes, hash-equal), 1-3 communicators | number of lower ranks on the same host; MPI objects left | |
| C22 [4000] | programs as in C11-C15 | ThreadSanitizer | races in the stand-in and libnetcdf not looked for |
| C23 [5000x3+4000] | programs as in C13-C15 in strict mode; two serialised builds in which two threads inside MPI fail | rules of the standard in `fakempi` | serialised: start of the communication thread and closing left out |
| C24 [10000x2] | 1-5 processes x 1-3 domains, full grids, both distribution schemes | loads during open = partition; balance; transfers = non-local reads | same number of domains everywhere |
| C25 [~35000 in 12 builds] | programs of C01-C15, grids of 5 and 6 dimensions in a build with MAX_DIMENSIONS=6, restricted to what a build supports | the models of those checks | reduced type list |
| C26 [1500+260+160] | positions, octaves, roughnesses; sizes and options of create_noise_grid; input files (dimensions, variables, attributes) of interpol_time | independent implementation of improved noise (Perlin 2002), evenly spaced coordinates, cell by cell contents of netCDF and VTK output; linear growth in time, verbatim copies | stand-in of the netCDF4 module; `tools/pinning_test` is a test program and left out |

**Extremes.** One in fifty programs of processes and threads is wide (up to 12 processes, 12 threads or 10 domains); the component checks go to
40 threads, 24 CPUs, 14 domains, 12 processes and 300 locks, caches to 65540 slots, C08 to more than 65500 reads, C05 to 24 levels, C21 to 20
processes, structures to 18 members. Narrowed integers show up there.

Stages named `-api` observe components (cache, lock, barrier, registration) through grids only; the other stage drives the component
itself through a shim (`harness/shim_*.cpp`). Stages named `-many` (C01-C05, C07) repeat what holds for one thread on 1-3 processes with 1-3
threads and every kind of grid (local, NUMA, windows, communication thread; full, cached, pass-through).

**Effort against coincidences.** Hash values make two different cells collide only with probability 2^-8 (BYTE) to 2^-64; reads
are repeated over many cells. Sizes are small but chosen across the thresholds in the code: 1-70 cache slots, default 128; default block 64;
four holders per block; more blocks than places and fewer; more than 2^31 cells.

## 3 Behaviour-preserving changes

Tried with about forty refactorings (renamed members, extracted helpers, other loops and containers, reordered statements, other but equivalent
locking and MPI calls): all checks stay quiet.

Everything is judged by what the public interface returns, which file accesses, MPI calls, thread operations and allocations
happen, and nothing about the text of the sources. Where the order or number of operations is not promised, no check asserts it: block loads may be
got with several netCDF calls (calls of one thread for different parts of a block count as one load), windows may be locked per access or once, etc.
Shims use the internal interfaces of the components (class names, methods). If one of them no longer compiles although the library
does, that stage is left out (with a message) and the `-api` stage decides alone. The MPI stand-in supports more calls than the
library uses at present.

## 4 Genuine defects found (all repaired by `fix:` commits; list with commits in `known-findings`)

47 defects, among them: further levels destroyed the windows, locks and files of open ones by copying; counters of level 0 were
returned for every level; typed reads of arrays and structures returned garbage; a hand spread larger than the cache led to accesses outside of
the cache; variables without dimensions and other unusual files crashed open; spurious wake-ups let threads leave barriers early;
messages of one level or grid reached another one (tags); the tags of the communication thread ran out after 8000 grids; a file that only one process or domain cannot open made the others wait for ever; other processes could read blocks and directories before they were
initialised; two processes could refuse each other's requests for ever; deleting a block that was not listed removed another holder from the directory;
`nodeLocalRank` failed for about half of all host names; CPU numbers -2, -3, ... pinned to the wrong CPU; a failed start of the communication
thread could not be repeated; several data races; the C interface had other error numbers than C++; the build without pthreads did not compile; the preprocessing scripts exchanged x and y, did not run with Python 3 and wrapped integers.
No known finding is left unrepaired.

## 5 False alarms that were corrected in the machinery

* Stand-in: a blocking send that completed on arrival was checked as pending; conflicts between exclusive epochs that are queued
  lazily are none; a receive happens before the completion of the matching synchronous send (missing edge for the race detector).
* C15 compared warnings on stderr; these are not part of the behaviour (dropped).
* C16: a wrong comparison in the shim. C18: the harness freed memory that other domains still read. C20: growth of the Fortran
  handle table is by design and tolerated (8 bytes per grid).
* C23: starting the communication thread and closing are not part of "while the grid is being used" (statement and check adjusted).
* C04: coordinates with offsets of 1e8 spacings are moved by rounding; the statement now bounds the offset.
* C19 must run in the build with all element types. C07 used uninitialised memory for levels without parameters (harness).

## 6 Planted bugs

`seeded/<id>/` (patch, demonstration, what it needs). Each was written from a property's text and the code, confirmed (builds, 36/36
tests pass, demonstration fails only with it), then given to the check of its property:

SEEDTABLE

Besides, (a) each `fix:` commit was reverted and the check of its property run against the tree (all repaired defects are found
again), and (b) random mutants of the sources (operators, constants, deleted statements, exchanged calls) were run
against the checks; survivors that were not equivalent led to stronger generators.

## 7 Limits

* Generated-input search: no proof. Schedules are sampled. The scheduler explores sequentially consistent interleavings; C22 is
  the only check that covers the memory model.
* One address space: real networks, real MPI progress and real NUMA placement are not exercised (the demonstrations of the planted bugs
  use the installed Open MPI).
* Excluded since the documentation does not define it: cache size 0 (aborts by an error message), NaN coordinates in dimensions with
  several points, reopening a level that is open, stopping the communication thread while grids are open or without starting it,
  closing several grids of one process concurrently, different numbers of domains per process, axes that are not uniform.
* Suspected weaknesses that are not part of a property: errors of the master of a domain other than the first are overwritten by the
  broadcast in `Grid::open`; `NumaComm::allocate` returns without broadcast if an allocation fails; `NoopMutex::try_lock` returns false (only in builds
  without threads); `MPIComm::barrier` is not locked in serialised builds (closing only); reopening a level leaks its container.
'''
import json,os,glob
t='| id | property | needs | |\n|---|---|---|---|\n'
extra={'tiny-spacing':'missed at first, axes with extreme spacing added','smaller-struct-level':'missed at first, clashes of all value types added','parameters-inherited':'missed at first, levels with default parameters added'}
if os.path.exists(os.path.dirname(os.path.abspath(__file__))+'/seed_notes.json'): extra.update(json.load(open(os.path.dirname(os.path.abspath(__file__))+'/seed_notes.json')))
for d in sorted(glob.glob(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/seeded/*')):
    m=json.load(open(d+'/meta.json')); i=os.path.basename(d)
    t+='| %s | %s | %s | caught%s |\n'%(i,m['property'],m['needs'].replace('|','/'),' by '+m['property']+('; '+extra[i] if i in extra and extra[i] else '') if not extra.get(i,'').startswith('by ') else ' '+extra[i])
open(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/DESIGN.md','w').write(D.replace('SEEDTABLE',t))
