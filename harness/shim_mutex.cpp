// Entry points of the cross-process lock (compiled with the library's sources)
#include "mpi/mpicomm.h"
#include "numa/numa.h"
#include "numa/numacomm.h"
#include "mpi/mutex.h"

#include <mutex>

namespace {
/** What the processes share: communicator, domain communicator, one window of locks per mutex */
struct Proc {
	mpi::MPIComm comm;
	numa::Numa numa;
	numa::NumaComm* numaComm;
};
struct Lock {
	mpi::Mutex mutex;
	MPI_Win win;
	long* mem;
	threads::Mutex winMutex;
	unsigned stride;
};
}

extern "C" {

void* sm_new(unsigned threads)
{
	Proc* p = new Proc();
	p->numa.setThreads(threads);
	p->numaComm = 0L;
	return p;
}
int sm_comm(void* p, MPI_Comm comm) { return static_cast<Proc*>(p)->comm.init(comm); }
int sm_register(void* p, bool* master) { return static_cast<Proc*>(p)->numa.registerThread(*master); }
unsigned sm_domain(void* p) { return static_cast<Proc*>(p)->numa.domainId(); }
int sm_domains(void* p)
{
	Proc* q = static_cast<Proc*>(p);
	numa::NumaComm* c = q->numa.createComm();
	if (q->numa.domainId() == 0) q->numaComm = c;
	return c ? 0 : 1;
}
int sm_rank(void* p) { return static_cast<Proc*>(p)->comm.rank(); }
void sm_barrier(void* p) { static_cast<Proc*>(p)->comm.barrier(); }
void sm_delete(void* p) { delete static_cast<Proc*>(p)->numaComm; delete static_cast<Proc*>(p); }

/** `locks` locks of one window entry each, followed by `data` entries that they protect */
void* sm_lockNew(void* p, unsigned locks, unsigned data)
{
	Proc* q = static_cast<Proc*>(p);
	Lock* l = new Lock();
	l->stride = 1 + data;
	unsigned n = locks * l->stride;
	MPI_Alloc_mem(sizeof(long) * (n ? n : 1), MPI_INFO_NULL, &l->mem);
	for (unsigned i = 0; i < n; i++) l->mem[i] = 0;
	for (unsigned i = 0; i < locks; i++) l->mutex.initMutexMem(l->mem[i * l->stride + data]);
	MPI_Win_create(l->mem, sizeof(long) * n, sizeof(long), MPI_INFO_NULL, q->comm.comm(), &l->win);
	l->mutex.init(q->comm, l->win, *q->numaComm);
	return l;
}
void sm_lockDelete(void* p)
{
	Lock* l = static_cast<Lock*>(p);
	MPI_Win_free(&l->win);
	MPI_Free_mem(l->mem);
	delete l;
}
static void enter(Lock* l, int rank) { l->winMutex.lock(); MPI_Win_lock(MPI_LOCK_EXCLUSIVE, rank, 0, l->win); }
static void leave(Lock* l, int rank) { MPI_Win_unlock(rank, l->win); l->winMutex.unlock(); }
/** true if the lock had to be waited for */
bool sm_acquire(void* p, int rank, unsigned lock)
{
	Lock* l = static_cast<Lock*>(p);
	enter(l, rank);
	long old = l->mutex.acquire(rank, lock * l->stride + l->stride - 1);
	leave(l, rank);
	// as documented: a value < 0 needs no waiting
	if (old >= 0) l->mutex.wait(old);
	return old >= 0;
}
void sm_release(void* p, int rank, unsigned lock)
{
	Lock* l = static_cast<Lock*>(p);
	enter(l, rank);
	l->mutex.release(rank, lock * l->stride + l->stride - 1);
	leave(l, rank);
}
/** Adds one to all entries protected by the lock, returns the old first one, -1 if they differ */
long sm_update(void* p, int rank, unsigned lock)
{
	Lock* l = static_cast<Lock*>(p);
	unsigned data = l->stride - 1;
	if (data == 0) return 0;
	long* v = new long[data];
	enter(l, rank);
	MPI_Get(v, data, MPI_LONG, rank, lock * l->stride, data, MPI_LONG, l->win);
	leave(l, rank);
	long res = v[0];
	for (unsigned i = 0; i < data; i++) { if (v[i] != res && res >= 0) res = -1; }
	for (unsigned i = 0; i < data; i++) v[i]++;
	enter(l, rank);
	MPI_Put(v, data, MPI_LONG, rank, lock * l->stride, data, MPI_LONG, l->win);
	leave(l, rank);
	delete [] v;
	return res;
}

}
