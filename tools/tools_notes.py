NOTE = {
 'C08': ('property-based testing: random programs (processes x threads x caches) on a deterministic scheduler; counters against observed file accesses and a cache/directory model', 'exact sources in programs that run one operation at a time, otherwise invariants; simulated MPI'),
 'C11': ('stateful property-based testing of multi-threaded programs under randomised schedules (random, PCT, preemption at memory accesses)', 'schedules are sampled; sequentially consistent interleavings only (C22 covers the memory model)'),
 'C12': ('property-based testing of multi-domain programs under randomised schedules, cache model and file accesses as oracle', 'virtual topology (numa_node_of_cpu, sched_getcpu intercepted)'),
 'C13': ('stateful property-based testing of multi-process programs on a simulated MPI under randomised schedules and message timings', 'simulated MPI in one address space; every process has its own copy of the library'),
 'C14': ('stateful property-based testing of multi-process programs on a simulated MPI under randomised schedules; directory model as oracle', 'simulated MPI; exact sources in programs that run one operation at a time'),
 'C23': ('property-based testing on a simulated MPI that checks the validity of every call (strict mode), in three builds', 'rules of the MPI standard as implemented by the simulated MPI; serialised builds: opening and reading only'),
 'C24': ('property-based testing: file accesses during open against the partition rules, for both distribution schemes', 'same number of domains on all processes'),
 'C15': ('stateful property-based testing: sequences of start/open/read/close/stop of the communication thread with injected thread-creation failures under randomised schedules', 'simulated MPI; pinning observed at pthread_setaffinity_np; failures of thread creation on all processes at once'),
 'C21': ('property-based testing: random assignments of processes to hosts with the rank count as oracle, resources tracked by the simulated MPI', 'simulated MPI'),
 'C22': ('property-based testing of concurrent programs under randomised schedules with ThreadSanitizer as happens-before oracle', 'the scheduler is invisible to the race detector; races inside the simulated MPI and libnetcdf are not looked for'),
 'C09': ('model-based property-based testing: request sequences at the block cache against a reference model of the two-handed clock', 'the internal interface of the block cache is called through a shim compiled with the sources'),
 'C10': ('stateful property-based testing of concurrent cache users under randomised schedules (incl. preemption at memory accesses), ownership and content invariants', 'internal interface of the block cache; sequentially consistent interleavings (C22 covers the memory model)'),
 'C16': ('stateful property-based testing of the lock over RMA on a simulated MPI under randomised schedules and completion times', 'simulated MPI; a thread holds one lock at a time'),
 'C17': ('stateful property-based testing of barriers, broadcasts and run-once sections under randomised schedules with spurious wake-ups', 'internal interfaces through a shim; sequentially consistent interleavings (C22 covers the memory model)'),
 'C18': ('stateful property-based testing of registration on random topologies with injected faults under randomised schedules', 'virtual topology; internal interfaces through a shim'),
 'C20': ('stateful property-based testing: the same generated program is run four times in one process; growth of library memory, MPI objects, files, threads, locks and keys between the runs is the oracle', 'simulated MPI; memory followed at malloc; one table entry per Fortran handle is accepted'),
 'C19': ('property-based testing: generated programs (values, conversions, errors, parameters, communication thread, node ranks) run through the C and Fortran interfaces, judged by the same models as the C++ interface', 'adapters in C and Fortran compiled with the library; constants compared at run time'),
 'C25': ('property-based testing: generated programs run in twelve further builds of the library, judged by the same models', 'programs restricted to what a build supports; reduced list of element types; simulated MPI'),
 'C26': ('property-based testing (hypothesis): generated options, positions and files for the preprocessing scripts, against a reference implementation of the noise and the expected files', 'the netCDF4 module is replaced by an in-memory stand-in; Python 3'),
}
