// Entry points of the thread and NUMA primitives (compiled with the library's sources)
#include "numa/numa.h"
#include "numa/numacomm.h"
#include "threads/once.h"
#include "threads/sync.h"
#include "fortran/pointerarray.h"
#include "allocator/default.h"

#include "harness/shim.h"

namespace {
struct OnceCall {
	void (*fn)(void*); void* arg;
	void exec() { fn(arg); }
};
template<typename T> bool bcast(void* s, T* v, unsigned n, unsigned self, unsigned root)
{
	return static_cast<threads::Sync*>(s)->broadcast(*v, n, self, root);
}
numa::Numa* N(void* p) { return static_cast<numa::Numa*>(p); }
numa::NumaComm* C(void* p) { return static_cast<numa::NumaComm*>(p); }
}

extern "C" {

void* st_syncNew() { return new threads::Sync(); }
void st_syncDelete(void* s) { delete static_cast<threads::Sync*>(s); }
bool st_barrier(void* s, unsigned n) { return static_cast<threads::Sync*>(s)->barrier(n); }
bool st_broadcastChar(void* s, char* v, unsigned n, unsigned self, unsigned root) { return bcast(s, v, n, self, root); }
bool st_broadcastLong(void* s, long* v, unsigned n, unsigned self, unsigned root) { return bcast(s, v, n, self, root); }
bool st_broadcastBig(void* s, Big* v, unsigned n, unsigned self, unsigned root) { return bcast(s, v, n, self, root); }
/** fn is the section that is executed by one thread at a time */
bool st_section(void* s, unsigned n, bool last, void (*fn)(void*, unsigned), void* arg)
{
	threads::Sync* y = static_cast<threads::Sync*>(s);
	if (!y->startBarrier()) return false;
	fn(arg, y->waiting());
	if (!y->waitBarrier(n, last)) return false;
	return y->endBarrier();
}

void* st_onceNew() { return new threads::Once(); }
void st_onceDelete(void* o) { delete static_cast<threads::Once*>(o); }
void st_once(void* o, void (*fn)(void*), void* arg)
{
	OnceCall c = { fn, arg };
	static_cast<threads::Once*>(o)->saveExec(c, &OnceCall::exec);
}

void* st_numaNew(unsigned threads)
{
	numa::Numa* n = new numa::Numa();
	n->setThreads(threads);
	return n;
}
void st_numaDelete(void* n) { delete N(n); }
int st_register(void* n, bool* master, bool detect) { return N(n)->registerThread(*master, detect); }
unsigned st_totalThreads(void* n) { return N(n)->totalThreads(); }
unsigned st_totalDomains(void* n) { return N(n)->totalDomains(); }
unsigned st_threadId(void* n) { return N(n)->threadId(); }
unsigned st_domainId(void* n) { return N(n)->domainId(); }
int st_numaBarrier(void* n) { return N(n)->barrier(); }
int st_numaBroadcast(void* n, long* v, unsigned root) { return N(n)->broadcast(*v, root); }

void* st_createComm(void* n) { return N(n)->createComm(); }
void st_commDelete(void* c) { delete C(c); }
unsigned st_commIds(void* c, int what)
{
	switch (what) {
	case 0: return C(c)->totalThreads();
	case 1: return C(c)->totalDomains();
	case 2: return C(c)->threadId();
	default: return C(c)->domainId();
	}
}
int st_commBroadcast(void* c, long* v, unsigned root) { return C(c)->broadcast(*v, root); }
int st_commBarrier(void* c) { return C(c)->barrier(); }
int st_commAllocate(void* c, unsigned long size, unsigned char** data) { return C(c)->allocate<allocator::Default>(size, *data); }
void st_commFree(void* c, unsigned char* data) { C(c)->free<allocator::Default>(data); }

void* st_handlesNew() { return new fortran::PointerArray<int>(); }
void st_handlesDelete(void* h) { delete static_cast<fortran::PointerArray<int>*>(h); }
int st_handlesAdd(void* h, int* p) { return static_cast<fortran::PointerArray<int>*>(h)->add(p); }
int* st_handlesGet(void* h, int i) { return static_cast<fortran::PointerArray<int>*>(h)->get(i); }
void st_handlesRemove(void* h, int i) { static_cast<fortran::PointerArray<int>*>(h)->remove(i); }

}
