#include "lib.h"

void runC09(); void runC10(); void runC16(); void runC17(); void runC18(); void runParts();
void loadCache(); void loadThreads(); void loadMutex(); void loadParts();

static const eng::CheckDef defs[] = {
	{ "C09", runC09, 60000, 3000000, "a case is a sequence of requests and peeks at a cache with 1-70 slots; non-trivial: hits, and evictions or all blocks fit", "one request at a time (C10 is concurrent)", loadCache },
	{ "C10", runC10, 16000, 800000, "a case is 2-5 threads with 1-3 caches under one schedule; non-trivial: more than ten thread switches and a load", "a thread holds one slot of its own cache at a time", loadCache },
	{ "C16", runC16, 10000, 400000, "a case is 2-4 processes with 1-3 threads that acquire and release locks on a simulated MPI; non-trivial: at least two acquisitions had to wait", "a thread holds one lock at a time; epochs of the window as documented", loadMutex },
	{ "C17", runC17, 20000, 1000000, "a case is a sequence of barriers, broadcasts, sections and run-once calls of 1-7 threads under one schedule; non-trivial: several threads, rounds and more than five thread switches", "the same threads take part in all rounds", loadThreads },
	{ "C18", runC18, 20000, 1000000, "a case is the registration of 1-6 threads on a random topology with up to three objects and faults; non-trivial: several domains or a fault", "virtual topology", loadThreads },
	{ "C13-types", runParts, 4000, 200000, "a case is 2-6 threads of a process that check, use and release shared value types under one schedule; non-trivial: values are transferred with more than five thread switches", "a type is deleted after its last use", loadParts },
	{ "C23-parts", runParts, 4000, 200000, "a case is 2-6 threads of a process that check, use and release shared value types, communicators and memory under one schedule; non-trivial: values are transferred with more than five thread switches", "a type is deleted after its last use", loadParts },
};

int main(int argc, char** argv) { return eng::main(argc, argv, defs, sizeof defs / sizeof defs[0]); }
