// Not instrumented. See sched.h
#include "sched.h"
#include "engine.h"

#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <linux/futex.h>
#include <map>
#include <memory>
#include <netcdf.h>
#include <pthread.h>
#include <set>
#include <string>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

#ifdef VERIF_TSAN
extern "C" {
void __tsan_acquire(void*);
void __tsan_release(void*);
void AnnotateIgnoreReadsBegin(const char*, int);
void AnnotateIgnoreReadsEnd(const char*, int);
void AnnotateIgnoreWritesBegin(const char*, int);
void AnnotateIgnoreWritesEnd(const char*, int);
void AnnotateIgnoreSyncBegin(const char*, int);
void AnnotateIgnoreSyncEnd(const char*, int);
}
static void hbEdge(bool acquire, const volatile void* p)
{
	bool o = sched::ignore(false);
	if (acquire) __tsan_acquire(const_cast<void*>(p)); else __tsan_release(const_cast<void*>(p));
	sched::ignore(o);
}
#define HB_ACQUIRE(p) hbEdge(true, p)
#define HB_RELEASE(p) hbEdge(false, p)
#else
#define HB_ACQUIRE(p) ((void) 0)
#define HB_RELEASE(p) ((void) 0)
#endif
// malloc/free, libc and libnetcdf are intercepted by the data race detector: they must neither be seen nor order anything
typedef sched::HostScope TsanIgnore;

namespace sched {

uint64_t patience = 400000;


Topology topo;
NcLog nc;
thread_local int inLib = 0;
#ifdef VERIF_TSAN
static thread_local bool ignored = false;
bool ignore(bool on)
{
	bool old = ignored;
	if (on && !old) { AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreWritesBegin("", 0); AnnotateIgnoreSyncBegin("", 0); }
	if (!on && old) { AnnotateIgnoreSyncEnd("", 0); AnnotateIgnoreWritesEnd("", 0); AnnotateIgnoreReadsEnd("", 0); }
	ignored = on;
	return old;
}
#endif

namespace {

enum State { RUNNABLE, BLOCKED, DONE };

struct Task {
	int id, rank, cpu;
	pthread_t th;
	volatile int go;
	State state;
	std::function<bool()> pred;
	const char* why;
	const char* lastWhy;
	bool polled;
	bool draining;
	bool library;
	int prio;
	uint64_t frozenUntil;
	char *stackLo, *stackHi;
	std::function<void()> fn;
	void* (*cfn)(void*);
	void* carg;
	void* result;
	bool joined, detached;
	uint64_t steps; uint64_t waits;
};

std::deque<std::unique_ptr<Task> > tasks;
Task* current = 0;
bool isActive = false;
Config config;
Stats st;
Net* net = 0;
int outerRank = 0, outerCpu = 0;
volatile int mainGo = 0;
uint64_t idlePolls = 0, sinceProgress = 0;

int64_t memCountdown = INT64_MAX;
int memLeft = 0;
thread_local Task* me = 0;
int lowPrio = 0;
int prioChanges = 0;
int pollsSinceNet = 0;
int freezesLeft = 0;
uint64_t nextFreeze = UINT64_MAX;

void futexWait(volatile int* p)
{
	while (!__atomic_load_n(p, __ATOMIC_ACQUIRE))
		syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
	__atomic_store_n(p, 0, __ATOMIC_RELAXED);
}
void futexWake(volatile int* p)
{
	__atomic_store_n(p, 1, __ATOMIC_RELEASE);
	syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

bool harnessDone()
{
	for (auto& t : tasks) if (!t->library && t->state != DONE) return false;
	return true;
}

void armMem()
{
	if (memLeft <= 0) { memCountdown = INT64_MAX; return; }
	memLeft--;
	uint32_t lg = eng::draw(eng::SCHED, config.memLogGap);
	memCountdown = 1 + eng::draw(eng::SCHED, 1u << (config.memLogGap - lg));
}

uint64_t logUniform(uint32_t maxLog)
{
	uint32_t lg = eng::draw(eng::SCHED, maxLog);
	return 1 + eng::draw(eng::SCHED, 1u << (maxLog - lg));
}

void armFreeze()
{
	if (freezesLeft <= 0) { nextFreeze = UINT64_MAX; return; }
	freezesLeft--;
	nextFreeze = st.points + logUniform(12);
}

/** The running task may be stopped here until the others made (a lot of) progress */
void maybeFreeze()
{
	if (st.points < nextFreeze || !me) return;
	uint64_t n = logUniform(13);
	armFreeze();
	me->frozenUntil = st.points + n;
	st.freezes++;
}

/** Tasks that can run now */
void candidates(std::vector<Task*>& v, bool& pollOnly)
{
	v.clear();
	std::vector<Task*> polled;
	bool ice = false;
	for (auto& t : tasks) {
		if (t->state == DONE || t->draining) continue;
		if (t->state == BLOCKED && !t->pred()) continue;
		if (t->frozenUntil > st.points) { ice = true; continue; }
		if (t->polled) polled.push_back(t.get()); else v.push_back(t.get());
	}
	if (ice && v.empty() && (polled.empty() || !(net && net->pending()))) {
		// the others depend on a frozen task
		for (auto& t : tasks) t->frozenUntil = 0;
		candidates(v, pollOnly);
		return;
	}
	pollOnly = v.empty() && !polled.empty();
	if (v.empty()) v = polled;
}

void transfer(Task* to);

/** Chooses who runs next. `mayStay`: the current task is runnable and preferred. 0: nobody (harness continues) */
Task* selectNext(bool forced)
{
	std::vector<Task*> v;
	while (true) {
		bool pollOnly;
		candidates(v, pollOnly);
		size_t pend = net ? net->pending() : 0;
		if (v.empty() || pollOnly) {
			if (pend) { st.netSteps++; net->step(); idlePolls = 0; continue; }
			if (v.empty()) {
				for (auto& t : tasks)
					if (t->draining && t->state != DONE) { t->draining = false; t->state = RUNNABLE; return t.get(); }
				if (harnessDone()) return 0;
				reportDeadlock();
			}
			if (++idlePolls > 3000) {
				std::string s;
				for (auto& t : tasks) if (t->state != DONE) { char b[200]; snprintf(b, sizeof b, "  task %d (rank %d): %s%s\n", t->id, t->rank, t->polled ? "polling " : "waiting for ", t->why ? t->why : t->lastWhy); s += b; }
				eng::fail("livelock", "endless polling without progress:\n%s", s.c_str());
			}
			for (auto t : v) t->polled = false;
		} else if (pend && (pollsSinceNet > 20 || (config.strategy != 0 && eng::draw(eng::SCHED, 3) == 2))) {
			// a network event happens now
			pollsSinceNet = 0;
			st.netSteps++; net->step(); continue;
		}
		break;
	}
	if (v.size() == 1) return v[0];
	if (config.strategy == 2) {
		Task* best = v[0];
		for (auto t : v) if (t->prio > best->prio) best = t;
		return best;
	}
	if (!forced) {
		// keep the current one if possible
		for (auto t : v) if (t == current) return t;
	}
	// order: next ids first, so that choice 0 is round robin
	size_t first = 0;
	if (current) while (first < v.size() && v[first]->id <= current->id) first++;
	uint32_t c = eng::draw(eng::SCHED, v.size());
	return v[(first + c) % v.size()];
}

void transfer(Task* to)
{
	Task* from = me;
	if (to == from) { current = to; to->state = RUNNABLE; to->polled = false; return; }
	st.switches++;
	current = to;
	if (to) { to->state = RUNNABLE; to->polled = false; }
	if (to) futexWake(&to->go); else futexWake(&mainGo);
	if (from && from->state != DONE) futexWait(&from->go);
}

void* threadMain(void* p)
{
	Task* t = static_cast<Task*>(p);
	me = t;
	ignore(true);
	{
		TsanIgnore ig;
		pthread_attr_t a; void* lo; size_t sz;
		pthread_getattr_np(pthread_self(), &a);
		pthread_attr_getstack(&a, &lo, &sz);
		pthread_attr_destroy(&a);
		t->stackLo = static_cast<char*>(lo); t->stackHi = t->stackLo + sz;
		futexWait(&t->go);
	}
	if (t->cfn) {
		{ TsanIgnore ig; HB_ACQUIRE(t); }
		{ LibScope in; t->result = t->cfn(t->carg); }
		{ TsanIgnore ig; HB_RELEASE(t); }
	} else t->fn();
	{
		TsanIgnore ig;
		t->state = DONE;
		sinceProgress = 0; idlePolls = 0;
		for (auto& x : tasks) x->polled = false;
		Task* n = selectNext(true);
		me = 0;
		st.switches++;
		current = n;
		if (n) { n->state = RUNNABLE; n->polled = false; futexWake(&n->go); }
		else futexWake(&mainGo);
	}
	ignore(false);
	return 0;
}

Task* newTask(int rank, int cpu)
{
	tasks.emplace_back(new Task());
	Task* t = tasks.back().get();
	t->id = tasks.size();	// ids start at 1
	t->rank = rank; t->cpu = cpu;
	t->go = 0; t->state = RUNNABLE; t->why = 0; t->lastWhy = "start"; t->polled = t->draining = t->library = false;
	t->cfn = 0; t->carg = 0; t->result = 0; t->joined = t->detached = false; t->steps = 0; t->waits = 0;
	t->stackLo = t->stackHi = 0; t->frozenUntil = 0;
	t->prio = config.strategy == 2 ? 1000 + static_cast<int>(eng::draw(eng::SCHED, 1000)) : 0;
	return t;
}

void startThread(Task* t)
{
	pthread_attr_t a;
	pthread_attr_init(&a);
	pthread_attr_setstacksize(&a, 1 << 20);
	if (pthread_create(&t->th, &a, threadMain, t) != 0) { fprintf(stderr, "cannot create thread\n"); _exit(2); }
	pthread_attr_destroy(&a);
}

void step(const char* why)
{
	st.points++;
	me->lastWhy = why;
	if (++sinceProgress > sched::patience) {
		std::string s;
		for (auto& t : tasks)
			if (t->state != DONE) { char b[200]; snprintf(b, sizeof b, "  task %d (rank %d) %s\n", t->id, t->rank, t->why ? t->why : t->lastWhy); s += b; }
		eng::fail("livelock", "too many synchronisation steps:\n%s", s.c_str());
	}
}

} // namespace

bool active() { return isActive; }
bool inTask() { return me != 0; }
int rank() { return me ? me->rank : outerRank; }
int self() { return me ? me->id : 0; }
void setRank(int r) { outerRank = r; }
uint64_t waits() { return me ? me->waits : 0; }
int rankOf(int task) { for (auto& t : tasks) if (t->id == task) return t->rank; return -1; }
int cpu() { return me ? me->cpu : outerCpu; }
void setCpu(int c) { if (me) me->cpu = c; else outerCpu = c; }
const Stats& stats() { return st; }
void setNet(Net* n) { net = n; }
uint32_t choose(uint32_t n) { return eng::draw(eng::SCHED, n); }

bool smallProgram = false;

Config drawConfig(bool allowSpurious)
{
	Config c;
	c.strategy = eng::draw(eng::SCHED, 5);
	static const int den[] = { 8, 2, 3, 16, 40 };
	c.syncDenom = den[eng::draw(eng::SCHED, 5)];
	c.memPreempts = c.strategy >= 3 ? 1 + eng::draw(eng::SCHED, 1 << (1 + eng::draw(eng::SCHED, 6))) : 0;
	c.memLogGap = smallProgram ? 1 + eng::draw(eng::SCHED, 8) : 6 + eng::draw(eng::SCHED, 10);
	c.freezes = c.strategy && eng::draw(eng::SCHED, 2) ? 1 + eng::draw(eng::SCHED, 4) : 0;
	c.spurious = allowSpurious && eng::draw(eng::SCHED, 3) == 2;
	return c;
}

void begin(const Config& c)
{
	config = c;
	tasks.clear();
	current = 0; isActive = true; idlePolls = 0; sinceProgress = 0;
	sched::patience = 400000;
	memset(&st, 0, sizeof st);
	memLeft = c.memPreempts; memCountdown = INT64_MAX;
	lowPrio = 0; pollsSinceNet = 0; prioChanges = c.strategy == 2 ? 1 + c.syncDenom / 2 : 0;
	if (c.strategy >= 3) armMem();
	freezesLeft = c.freezes; armFreeze();
}

int spawn(int rank, int cpu, std::function<void()> fn)
{
	Task* t = newTask(rank, cpu);
	t->fn = fn;
	startThread(t);
	return t->id;
}

void run()
{
	mainGo = 0;
	Task* n = selectNext(true);
	if (n) { current = n; n->state = RUNNABLE; futexWake(&n->go); futexWait(&mainGo); }
	for (auto& t : tasks)
		if (!t->library && t->state == DONE && !t->joined) { t->joined = true; pthread_join(t->th, 0); }
}

void end()
{
	for (auto& t : tasks)
		if (t->state != DONE)
			eng::fail("thread-left", "a thread created by the library is still running (rank %d, %s)", t->rank, t->why ? t->why : t->lastWhy);
	for (auto& t : tasks) {
		if (t->joined) continue;
		t->joined = true;
		pthread_join(t->th, 0);
	}
	isActive = false; current = 0; tasks.clear();
	memCountdown = INT64_MAX;
}

void point(const char* why)
{
	if (!me) return;
	step(why);
	idlePolls = 0;
	for (auto& t : tasks) if (t.get() != me) t->polled = false;
	if (config.strategy == 0) return;
	if (st.points >= nextFreeze) { maybeFreeze(); transfer(selectNext(true)); return; }
	if (config.strategy == 2) {
		// occasionally lower the priority of the running task
		if (prioChanges > 0 && eng::draw(eng::SCHED, 24) == 23) { prioChanges--; me->prio = --lowPrio; }
		Task* n = selectNext(false);
		transfer(n);
		return;
	}
	if (config.strategy == 3 && config.syncDenom > 3) return;
	if (eng::draw(eng::SCHED, config.syncDenom) != static_cast<uint32_t>(config.syncDenom) - 1) return;
	transfer(selectNext(true));
}

void block(const std::function<bool()>& pred, const char* why)
{
	if (!me) {
		// outside of tasks nobody else can help, except the network
		while (!pred()) {
			if (net && net->pending()) { net->step(); continue; }
			eng::fail("deadlock", "single thread waits for %s", why);
		}
		return;
	}
	point(why);
	if (pred()) return;
	st.blocks++;
	me->waits++;
	while (true) {
		me->state = BLOCKED; me->pred = pred; me->why = why;
		Task* n = selectNext(true);
		transfer(n);
		me->why = 0;
		me->pred = nullptr;
		if (pred()) return;
	}
}

void pollYield(const char* why)
{
	if (!me) {
		static uint64_t n = 0;
		if (net && net->pending()) { net->step(); n = 0; }
		else if (++n > 100000) eng::fail("livelock", "single thread polls for ever: %s", why);
		return;
	}
	step(why);
	me->polled = true;
	pollsSinceNet++;
	// pollers must not starve others
	if (config.strategy == 2) me->prio = --lowPrio;
	// `polled` excludes us until somebody else ran
	transfer(selectNext(true));
}

void drain()
{
	if (!me) { while (net && net->pending()) net->step(); return; }
	me->draining = true; me->state = BLOCKED; me->why = "drain"; me->pred = [] { return false; };
	transfer(selectNext(true));
	me->draining = false; me->why = 0; me->pred = nullptr;
}

void hbRelease(void* p) { TsanIgnore ig; (void) p; HB_RELEASE(p); }
void hbAcquire(void* p) { TsanIgnore ig; (void) p; HB_ACQUIRE(p); }

void reportDeadlock()
{
	std::string s;
	for (auto& t : tasks)
		if (t->state != DONE) {
			char b[300];
			snprintf(b, sizeof b, "  task %d (rank %d%s) waits for %s\n", t->id, t->rank, t->library ? ", library thread" : "", t->why ? t->why : t->lastWhy);
			s += b;
		}
	char nb[2000] = ""; if (net) net->dump(nb, sizeof nb);
	eng::fail("deadlock", "no thread can continue:\n%s%s", s.c_str(), nb);
}

long& live(Resource r, int rank)
{
	static long cnt[RES_COUNT][64];
	return cnt[r][rank & 63];
}
const char* resName(Resource r)
{
	static const char* n[] = { "spin locks", "thread keys", "threads", "netCDF files" };
	return n[r];
}

void resetNc() { nc.reads.clear(); nc.opens = nc.closes = nc.gets = 0; nc.record = true; }

namespace {

/** Model of one lock */
struct Lock { int owner; int waiters; bool isSpin; int ownerRank; };
std::unordered_map<const volatile void*, Lock> locks;
struct Cond { int waiters; std::vector<std::pair<int, bool*> > queue; };
std::unordered_map<const volatile void*, Cond> conds;
struct RW { int writer; int readers; };
std::unordered_map<const volatile void*, RW> rws;
struct Bar { unsigned count, waiting, round; };
std::unordered_map<const volatile void*, Bar> bars;
std::set<const volatile void*> onces;

Lock& lockAt(const volatile void* p)
{
	auto it = locks.find(p);
	if (it == locks.end()) { Lock l = { 0, 0, false, rank() }; it = locks.insert(std::make_pair(p, l)).first; l.owner = 0; }
	return it->second;
}
const int MAIN_OWNER = -1;
int whoami() { return me ? me->id : MAIN_OWNER; }

void lockIt(const volatile void* p, const char* why)
{
	Lock& l = lockAt(p);
	l.waiters++;
	block([p] { return locks[p].owner == 0; }, why);
	Lock& l2 = lockAt(p);
	l2.waiters--;
	l2.owner = whoami();
	HB_ACQUIRE(p);
}
int tryIt(const volatile void* p)
{
	point("try lock");
	Lock& l = lockAt(p);
	if (l.owner) return EBUSY;
	l.owner = whoami();
	HB_ACQUIRE(p);
	return 0;
}
void unlockIt(const volatile void* p)
{
	Lock& l = lockAt(p);
	if (!l.owner) eng::fail("unlock-unlocked", "unlock of a lock that is not held");
	HB_RELEASE(p);
	l.owner = 0;
	point("unlock");
}
void destroyIt(const volatile void* p, const char* what)
{
	auto it = locks.find(p);
	if (it != locks.end()) {
		if (it->second.owner || it->second.waiters) eng::fail("destroy-locked", "%s destroyed while in use", what);
		locks.erase(it);
	}
}

} // namespace
} // namespace sched

using namespace sched;

// mutexes, condition variables and barriers that were initialised with a call: process of each
static std::map<const volatile void*, int>& made() { static std::map<const volatile void*, int> m; return m; }
static void syncMade(const volatile void* p) { live(RES_SYNC, sched::rank())++; made()[p] = sched::rank(); }
static void syncGone(const volatile void* p)
{
	auto it = made().find(p);
	if (it == made().end()) return;
	live(RES_SYNC, it->second)--;
	made().erase(it);
}

// ---------------------------------------------------------------- wrappers
extern "C" {

int vwrap_pthread_spin_init(pthread_spinlock_t* l, int)
{
	TsanIgnore ig;
	auto it = locks.find(l);
	if (it != locks.end() && (it->second.owner || it->second.waiters)) eng::fail("init-locked", "spin lock initialised while in use");
	Lock n = { 0, 0, true, sched::rank() };
	locks[l] = n;
	live(RES_SPIN, sched::rank())++;
	return 0;
}
int vwrap_pthread_spin_destroy(pthread_spinlock_t* l)
{
	TsanIgnore ig;
	auto it = locks.find(l);
	if (it == locks.end()) eng::fail("destroy-invalid", "destroy of a spin lock that does not exist");
	live(RES_SPIN, it->second.ownerRank)--;
	destroyIt(l, "spin lock");
	return 0;
}
int vwrap_pthread_spin_lock(pthread_spinlock_t* l)
{
	TsanIgnore ig;
	if (!locks.count(l)) eng::fail("lock-invalid", "use of a spin lock that does not exist");
	lockIt(l, "spin lock"); return 0;
}
int vwrap_pthread_spin_trylock(pthread_spinlock_t* l)
{
	TsanIgnore ig;
	if (!locks.count(l)) eng::fail("lock-invalid", "use of a spin lock that does not exist");
	return tryIt(l);
}
int vwrap_pthread_spin_unlock(pthread_spinlock_t* l)
{
	TsanIgnore ig;
	if (!locks.count(l)) eng::fail("lock-invalid", "use of a spin lock that does not exist");
	unlockIt(l); return 0;
}

int vwrap_pthread_mutex_init(pthread_mutex_t* l, const pthread_mutexattr_t*) { TsanIgnore ig; Lock n = { 0, 0, false, sched::rank() }; locks[l] = n; syncMade(l); return 0; }
int vwrap_pthread_mutex_destroy(pthread_mutex_t* l) { TsanIgnore ig; destroyIt(l, "mutex"); syncGone(l); return 0; }
int vwrap_pthread_mutex_lock(pthread_mutex_t* l) { TsanIgnore ig; lockIt(l, "mutex"); return 0; }
int vwrap_pthread_mutex_trylock(pthread_mutex_t* l) { TsanIgnore ig; return tryIt(l); }
int vwrap_pthread_mutex_unlock(pthread_mutex_t* l)
{
	TsanIgnore ig;
	auto it = locks.find(l);
	if (it == locks.end() || it->second.owner != whoami()) eng::fail("unlock-foreign", "mutex unlocked by a thread that does not hold it");
	unlockIt(l); return 0;
}

int vwrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { TsanIgnore ig; conds[c] = Cond(); conds[c].waiters = 0; syncMade(c); return 0; }
int vwrap_pthread_cond_destroy(pthread_cond_t* c)
{
	TsanIgnore ig;
	auto it = conds.find(c);
	if (it != conds.end()) {
		if (it->second.waiters) eng::fail("destroy-cond", "condition variable destroyed while threads wait");
		conds.erase(it);
	}
	syncGone(c);
	return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
	Lock& l = lockAt(m);
	if (l.owner != whoami()) eng::fail("cond-unlocked", "pthread_cond_wait without holding the mutex");
	bool woken = false;
	bool spurious = timed || (me && config.spurious && eng::draw(eng::SCHED, 6) == 5);
	HB_RELEASE(m);
	l.owner = 0;
	Cond& cd = conds[c];
	cd.waiters++;
	cd.queue.push_back(std::make_pair(whoami(), &woken));
	if (spurious) {
		eng::stat("spurious wake-ups");
		point("spurious wake-up");
	} else
		block([&woken] { return woken; }, "condition variable");
	Cond& cd2 = conds[c];
	cd2.waiters--;
	for (size_t i = 0; i < cd2.queue.size(); i++) if (cd2.queue[i].second == &woken) { cd2.queue.erase(cd2.queue.begin() + i); break; }
	lockIt(m, "mutex (after condition variable)");
	return timed && !woken ? ETIMEDOUT : 0;
}
int vwrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { TsanIgnore ig; return condWait(c, m, false); }
int vwrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { TsanIgnore ig; return condWait(c, m, true); }
static void condWake(pthread_cond_t* c, bool all)
{
	auto it = conds.find(c);
	if (it != conds.end()) {
		std::vector<bool*> w;
		for (auto& q : it->second.queue) if (!*q.second) w.push_back(q.second);
		if (all) for (auto b : w) *b = true;
		else if (!w.empty()) *w[eng::draw(eng::SCHED, w.size())] = true;
	}
	point("condition signal");
}
int vwrap_pthread_cond_signal(pthread_cond_t* c) { TsanIgnore ig; condWake(c, false); return 0; }
int vwrap_pthread_cond_broadcast(pthread_cond_t* c) { TsanIgnore ig; condWake(c, true); return 0; }

// std::condition_variable (out of line in libstdc++); the native handle is at offset 0, a unique_lock starts with the mutex pointer
void vwrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* cv, void* lk) { TsanIgnore ig; condWait(static_cast<pthread_cond_t*>(cv), *static_cast<pthread_mutex_t**>(lk), false); }
void vwrap__ZNSt18condition_variable10notify_oneEv(void* cv) { TsanIgnore ig; condWake(static_cast<pthread_cond_t*>(cv), false); }
void vwrap__ZNSt18condition_variable10notify_allEv(void* cv) { TsanIgnore ig; condWake(static_cast<pthread_cond_t*>(cv), true); }
void vwrap__ZNSt18condition_variableC1Ev(void* cv) { TsanIgnore ig; memset(cv, 0, sizeof(pthread_cond_t)); conds[static_cast<pthread_cond_t*>(cv)].waiters = 0; }
void vwrap__ZNSt18condition_variableD1Ev(void* cv) { vwrap_pthread_cond_destroy(static_cast<pthread_cond_t*>(cv)); }

int vwrap_pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { TsanIgnore ig; RW r = { 0, 0 }; rws[l] = r; return 0; }
int vwrap_pthread_rwlock_destroy(pthread_rwlock_t* l) { TsanIgnore ig; rws.erase(l); return 0; }
int vwrap_pthread_rwlock_rdlock(pthread_rwlock_t* l) { TsanIgnore ig; rws[l]; block([l] { return !rws[l].writer; }, "rwlock"); rws[l].readers++; HB_ACQUIRE(l); return 0; }
int vwrap_pthread_rwlock_wrlock(pthread_rwlock_t* l) { TsanIgnore ig; rws[l]; block([l] { return !rws[l].writer && !rws[l].readers; }, "rwlock"); rws[l].writer = 1; HB_ACQUIRE(l); return 0; }
int vwrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { TsanIgnore ig; if (rws[l].writer) return EBUSY; rws[l].readers++; HB_ACQUIRE(l); return 0; }
int vwrap_pthread_rwlock_trywrlock(pthread_rwlock_t* l) { TsanIgnore ig; if (rws[l].writer || rws[l].readers) return EBUSY; rws[l].writer = 1; HB_ACQUIRE(l); return 0; }
int vwrap_pthread_rwlock_unlock(pthread_rwlock_t* l) { TsanIgnore ig; HB_RELEASE(l); RW& r = rws[l]; if (r.writer) r.writer = 0; else r.readers--; point("rwlock unlock"); return 0; }

int vwrap_pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t*, unsigned n) { TsanIgnore ig; Bar x = { n, 0, 0 }; bars[b] = x; syncMade(b); return 0; }
int vwrap_pthread_barrier_destroy(pthread_barrier_t* b) { TsanIgnore ig; bars.erase(b); syncGone(b); return 0; }
int vwrap_pthread_barrier_wait(pthread_barrier_t* b)
{
	TsanIgnore ig;
	HB_RELEASE(b);
	Bar& x = bars[b];
	unsigned round = x.round;
	bool last = ++x.waiting == x.count;
	if (last) { x.waiting = 0; x.round++; point("barrier"); }
	else block([b, round] { return bars[b].round != round; }, "pthread barrier");
	HB_ACQUIRE(b);
	return last ? PTHREAD_BARRIER_SERIAL_THREAD : 0;
}

int vwrap_pthread_once(pthread_once_t* o, void (*f)())
{
	bool doIt = false;
	{
		TsanIgnore ig;
		lockIt(o, "pthread_once");
		doIt = onces.insert(o).second;
	}
	if (doIt) f();
	TsanIgnore ig;
	unlockIt(o);
	return 0;
}

int vwrap_pthread_key_create(pthread_key_t* k, void (*d)(void*))
{
	TsanIgnore ig;
	if (topo.keyCreateFails) return EAGAIN;
	int r = pthread_key_create(k, d);
	if (r == 0) live(RES_KEY, sched::rank())++;
	return r;
}
int vwrap_pthread_key_delete(pthread_key_t k)
{
	TsanIgnore ig;
	int r = pthread_key_delete(k);
	if (r == 0) live(RES_KEY, sched::rank())--;
	return r;
}

int vwrap_pthread_create(pthread_t* th, const pthread_attr_t*, void* (*f)(void*), void* arg)
{
	TsanIgnore ig;
	if (!isActive) eng::fail("thread-outside", "the library creates a thread outside of a scheduled section");
	if (topo.threadCreateFails) return EAGAIN;
	Task* t = newTask(sched::rank(), 0);
	t->library = true; t->cfn = f; t->carg = arg;
	HB_RELEASE(t);
	live(RES_THREAD, t->rank)++;
	startThread(t);
	*th = t->th;
	point("pthread_create");
	return 0;
}
static Task* findThread(pthread_t th)
{
	for (auto& t : tasks) if (t->library && !t->joined && pthread_equal(t->th, th)) return t.get();
	return 0;
}
int vwrap_pthread_join(pthread_t th, void** res)
{
	TsanIgnore ig;
	Task* t = findThread(th);
	if (!t || t->detached) eng::fail("join-invalid", "pthread_join of a thread that does not exist");
	block([t] { return t->state == DONE; }, "pthread_join");
	HB_ACQUIRE(t);
	if (res) *res = t->result;
	t->joined = true;
	live(RES_THREAD, t->rank)--;
	pthread_join(t->th, 0);
	return 0;
}
int vwrap_pthread_detach(pthread_t th)
{
	TsanIgnore ig;
	Task* t = findThread(th);
	if (!t) eng::fail("join-invalid", "pthread_detach of a thread that does not exist");
	t->detached = true;
	live(RES_THREAD, t->rank)--;
	return 0;
}
int vwrap_pthread_setaffinity_np(pthread_t th, size_t size, const cpu_set_t* set)
{
	TsanIgnore ig;
	Task* t = findThread(th);
	int id = t ? t->id : (me && pthread_equal(th, me->th) ? me->id : 0);
	std::vector<int> c;
	for (int i = 0; i < static_cast<int>(size * 8); i++) if (CPU_ISSET_S(i, size, set)) c.push_back(i);
	topo.pinned.push_back(std::make_pair(id, c));
	for (int i : c) if (i >= topo.numCpus) return EINVAL;
	return c.empty() ? EINVAL : 0;
}
int vwrap_sched_getcpu(void)
{
	TsanIgnore ig;
	if (topo.cpuError && (topo.failCpuTask < 0 || topo.failCpuTask == self())) return -1;
	return sched::cpu();
}
int vwrap_numa_node_of_cpu(int cpu)
{
	TsanIgnore ig;
	if (topo.nodeOfCpu.empty()) return 0;
	if (cpu < 0 || cpu >= static_cast<int>(topo.nodeOfCpu.size())) return -1;
	return topo.nodeOfCpu[cpu];
}
int vwrap_numa_available(void) { return 0; }
int vwrap_numa_max_node(void) { int m = 0; for (int n : topo.nodeOfCpu) if (n > m) m = n; return m; }
int vwrap_numa_num_configured_nodes(void) { return vwrap_numa_max_node() + 1; }
unsigned vwrap__ZNSt6thread20hardware_concurrencyEv(void) { return topo.numCpus; }
long vwrap_sysconf(int name) { if (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) return topo.numCpus; return sysconf(name); }
int vwrap_get_nprocs(void) { return topo.numCpus; }
int vwrap_get_nprocs_conf(void) { return topo.numCpus; }
int vwrap_sched_yield(void) { TsanIgnore ig; pollYield("sched_yield"); return 0; }
int vwrap_usleep(unsigned) { TsanIgnore ig; pollYield("usleep"); return 0; }
int vwrap_nanosleep(const struct timespec*, struct timespec*) { TsanIgnore ig; pollYield("nanosleep"); return 0; }
int vwrap_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { TsanIgnore ig; pollYield("nanosleep"); return 0; }
int vwrap_rand(void) { TsanIgnore ig; return static_cast<int>(eng::draw(eng::SCHED, 1 << 20)); }

// ---------------------------------------------------------------- netCDF
namespace {
struct NcInside { int rank; };
int ncInside[64];
struct NcGuard {
	TsanIgnore ig;
	int r;
	NcGuard()
	{
		r = sched::rank() & 63;
		if (ncInside[r]) eng::fail("netcdf-concurrent", "two threads of a process are inside the netCDF library");
		ncInside[r]++;
		sched::point("netCDF call");
	}
	~NcGuard() { sched::point("netCDF return"); ncInside[r]--; }
};
std::map<int, int> ncOwner;
std::map<int, std::string> ncPath;
void checkOpen(int id)
{
	if (!ncOwner.count(id)) eng::fail("netcdf-closed", "netCDF call on a file that is not open");
}
void record(int id, int var, const size_t* start, const size_t* count)
{
	checkOpen(id);
	nc.gets++;
	if (!nc.record || !start) return;
	NcRead r;
	r.rank = sched::rank(); r.task = sched::self(); r.ncid = id; r.varid = var; r.path = ncPath[id];
	char name[NC_MAX_NAME + 1] = "";
	if (nc_inq_varname(id, var, name) == NC_NOERR) r.var = name;
	int n = 0;
	if (nc_inq_varndims(id, var, &n) == NC_NOERR)
		for (int i = 0; i < n; i++) { r.start.push_back(start[i]); r.count.push_back(count ? count[i] : 1); }
	nc.reads.push_back(r);
}
}

int vwrap_nc_open(const char* path, int mode, int* id)
{
	NcGuard g;
	int e = nc_open(path, mode, id);
	nc.opens++;
	if (e == NC_NOERR) { ncOwner[*id] = sched::rank(); ncPath[*id] = path; live(RES_NCFILE, sched::rank())++; }
	return e;
}
int vwrap_nc_close(int id)
{
	NcGuard g;
	checkOpen(id);
	nc.closes++;
	live(RES_NCFILE, ncOwner[id])--;
	ncOwner.erase(id);
	return nc_close(id);
}
#define NC_INQ(name, params, args) int vwrap_##name params { NcGuard g; return name args; }
NC_INQ(nc_inq_varid, (int id, const char* n, int* v), (id, n, v))
NC_INQ(nc_inq_varndims, (int id, int v, int* n), (id, v, n))
NC_INQ(nc_inq_vardimid, (int id, int v, int* d), (id, v, d))
NC_INQ(nc_inq_dim, (int id, int d, char* n, size_t* s), (id, d, n, s))
NC_INQ(nc_inq_dimlen, (int id, int d, size_t* s), (id, d, s))
NC_INQ(nc_inq_dimname, (int id, int d, char* n), (id, d, n))
NC_INQ(nc_inq_vartype, (int id, int v, nc_type* t), (id, v, t))
NC_INQ(nc_inq_type, (int id, nc_type t, char* n, size_t* s), (id, t, n, s))
NC_INQ(nc_inq_var, (int id, int v, char* n, nc_type* t, int* nd, int* d, int* na), (id, v, n, t, nd, d, na))

#define NC_GET(suffix, T) \
int vwrap_nc_get_var1##suffix(int id, int v, const size_t* i, T* p) { NcGuard g; record(id, v, i, 0); return nc_get_var1##suffix(id, v, i, p); } \
int vwrap_nc_get_var##suffix(int id, int v, T* p) { NcGuard g; record(id, v, 0, 0); return nc_get_var##suffix(id, v, p); } \
int vwrap_nc_get_vara##suffix(int id, int v, const size_t* s, const size_t* c, T* p) { NcGuard g; record(id, v, s, c); return nc_get_vara##suffix(id, v, s, c, p); } \
int vwrap_nc_get_vars##suffix(int id, int v, const size_t* s, const size_t* c, const ptrdiff_t* st, T* p) { NcGuard g; record(id, v, s, c); return nc_get_vars##suffix(id, v, s, c, st, p); } \
int vwrap_nc_get_varm##suffix(int id, int v, const size_t* s, const size_t* c, const ptrdiff_t* st, const ptrdiff_t* m, T* p) { NcGuard g; record(id, v, s, c); return nc_get_varm##suffix(id, v, s, c, st, m, p); }
NC_GET(_uchar, unsigned char)
NC_GET(_schar, signed char)
NC_GET(_short, short)
NC_GET(_int, int)
NC_GET(_long, long)
NC_GET(_longlong, long long)
NC_GET(_float, float)
NC_GET(_double, double)
NC_GET(, void)

// ---------------------------------------------------------------- memory accesses
#define COV(name, T) void __sanitizer_cov_##name(T* p) { \
	if (!me || memCountdown == INT64_MAX) return; \
	char* c = reinterpret_cast<char*>(p); \
	if (c >= me->stackLo && c < me->stackHi) return; \
	if (--memCountdown > 0) return; \
	TsanIgnore ig; \
	armMem(); st.preempts++; maybeFreeze(); me->lastWhy = "preempted"; \
	Task* n = selectNext(true); transfer(n); }
COV(load1, uint8_t) COV(load2, uint16_t) COV(load4, uint32_t) COV(load8, uint64_t) COV(load16, __int128)
COV(store1, uint8_t) COV(store2, uint16_t) COV(store4, uint32_t) COV(store8, uint64_t) COV(store16, __int128)

}
