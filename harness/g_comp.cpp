// C09, C10, C16, C17, C18: the building blocks, driven through the component shims
#include "lib.h"
#include "shim.h"
#include "world.h"
#include "fakempi/fakempi.h"

#include <algorithm>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <memory>
#include <set>

using world::Gate;

namespace {

void* shim;
template<typename F> void get(F*& f, const char* name)
{
	f = reinterpret_cast<F*>(dlsym(shim, name));
	if (!f) { fprintf(stderr, "symbol %s is missing\n", name); exit(2); }
}
void open(const char* env)
{
	sched::smallProgram = true;
	const char* file = getenv(env);
	if (!file) { fprintf(stderr, "%s is not set\n", env); exit(2); }
	shim = dlopen(file, RTLD_NOW | RTLD_LOCAL);
	if (!shim) { fprintf(stderr, "%s\n", dlerror()); exit(2); }
}

// cache
void* (*sc_new)();
void (*sc_init)(void*, unsigned char*, unsigned long, unsigned long, long);
long (*sc_get)(void*, unsigned long, unsigned long*, unsigned char**);
bool (*sc_tryGet)(void*, unsigned long, unsigned long*, const unsigned char**);
void (*sc_unlock)(void*, unsigned long);
void (*sc_delete)(void*);
// threads
void* (*st_syncNew)(); void (*st_syncDelete)(void*);
bool (*st_barrier)(void*, unsigned);
bool (*st_broadcastChar)(void*, char*, unsigned, unsigned, unsigned);
bool (*st_broadcastLong)(void*, long*, unsigned, unsigned, unsigned);
bool (*st_broadcastBig)(void*, Big*, unsigned, unsigned, unsigned);
bool (*st_section)(void*, unsigned, bool, void (*)(void*, unsigned), void*);
void* (*st_onceNew)(); void (*st_onceDelete)(void*); void (*st_once)(void*, void (*)(void*), void*);
void* (*st_numaNew)(unsigned); void (*st_numaDelete)(void*);
int (*st_register)(void*, bool*, bool);
unsigned (*st_totalThreads)(void*), (*st_totalDomains)(void*), (*st_threadId)(void*), (*st_domainId)(void*);
int (*st_numaBarrier)(void*); int (*st_numaBroadcast)(void*, long*, unsigned);
void* (*st_createComm)(void*); void (*st_commDelete)(void*);
unsigned (*st_commIds)(void*, int);
int (*st_commBroadcast)(void*, long*, unsigned); int (*st_commBarrier)(void*);
int (*st_commAllocate)(void*, unsigned long, unsigned char**); void (*st_commFree)(void*, unsigned char*);
void* (*st_handlesNew)(); void (*st_handlesDelete)(void*); int (*st_handlesAdd)(void*, int*); int* (*st_handlesGet)(void*, int); void (*st_handlesRemove)(void*, int);
// lock
void* (*sm_new)(unsigned); int (*sm_comm)(void*, MPI_Comm); int (*sm_register)(void*, bool*); unsigned (*sm_domain)(void*); int (*sm_domains)(void*);
int (*sm_rank)(void*); void (*sm_barrier)(void*); void (*sm_delete)(void*);
void* (*sm_lockNew)(void*, unsigned, unsigned); void (*sm_lockDelete)(void*);
bool (*sm_acquire)(void*, int, unsigned); void (*sm_release)(void*, int, unsigned); long (*sm_update)(void*, int, unsigned);
// types, communicators, memory
void* (*sp_file)(const char*); int (*sp_fileOpen)(void*, const char*); void (*sp_fileDelete)(void*);
void* (*sp_array)(); void* (*sp_struct)(unsigned, unsigned*, unsigned long*, GType*); void (*sp_delete)(void*);
int (*sp_check)(void*, void*); unsigned (*sp_size)(void*); int (*sp_pack)(void*, void*, void*, int, MPI_Comm);
void* (*sp_comm)(); int (*sp_commInit)(void*, MPI_Comm); int (*sp_commSize)(void*); void (*sp_commDelete)(void*);
int (*sp_alloc)(unsigned long, unsigned char**); void (*sp_free)(unsigned char*); void (*sp_other)(MPI_Comm);

#define GET(f) get(f, #f)

}

void loadCache()
{
	open("VERIF_SHIM");
	GET(sc_new); GET(sc_init); GET(sc_get); GET(sc_tryGet); GET(sc_unlock); GET(sc_delete);
}
void loadThreads()
{
	open("VERIF_SHIM");
	GET(st_syncNew); GET(st_syncDelete); GET(st_barrier); GET(st_broadcastChar); GET(st_broadcastLong); GET(st_broadcastBig); GET(st_section);
	GET(st_onceNew); GET(st_onceDelete); GET(st_once);
	GET(st_numaNew); GET(st_numaDelete); GET(st_register); GET(st_totalThreads); GET(st_totalDomains); GET(st_threadId); GET(st_domainId);
	GET(st_numaBarrier); GET(st_numaBroadcast); GET(st_createComm); GET(st_commDelete); GET(st_commIds); GET(st_commBroadcast); GET(st_commBarrier);
	GET(st_commAllocate); GET(st_commFree);
	GET(st_handlesNew); GET(st_handlesDelete); GET(st_handlesAdd); GET(st_handlesGet); GET(st_handlesRemove);
}
void loadParts()
{
	open("VERIF_SHIM");
	GET(sp_file); GET(sp_fileOpen); GET(sp_fileDelete); GET(sp_array); GET(sp_struct); GET(sp_delete); GET(sp_check); GET(sp_size); GET(sp_pack);
	GET(sp_comm); GET(sp_commInit); GET(sp_commSize); GET(sp_commDelete); GET(sp_alloc); GET(sp_free); GET(sp_other);
}
void loadMutex()
{
	open("VERIF_SHIM");
	GET(sm_new); GET(sm_comm); GET(sm_register); GET(sm_domain); GET(sm_domains); GET(sm_rank); GET(sm_barrier); GET(sm_delete);
	GET(sm_lockNew); GET(sm_lockDelete); GET(sm_acquire); GET(sm_release); GET(sm_update);
}

// ---------------------------------------------------------------- C09
namespace {

/** Block numbers of a case */
std::vector<unsigned long> drawBlocks(unsigned n)
{
	std::vector<unsigned long> ids;
	int style = eng::pick(4);
	unsigned long base = style == 1 ? eng::pick(1000) : style == 2 ? (1ul << 31) - 3 + eng::pick(5) : style == 3 ? (1ul << 40) + eng::pick(100) : 0;
	unsigned long step = eng::pick(3) == 0 ? 1 + eng::pick(70) : 1;
	for (unsigned i = 0; i < n; i++) ids.push_back(base + i * step);
	return ids;
}

/** A sequence of requests with locality */
struct Stream {
	unsigned n; unsigned at; int mode, left;
	std::vector<unsigned> recent;
	Stream(unsigned n) : n(n), at(0), mode(0), left(0) {}
	unsigned next()
	{
		if (left-- <= 0) { mode = eng::pick(4); left = eng::pick(12); at = eng::pick(n); }
		switch (mode) {
		case 0: at = eng::pick(n); break;
		case 1: at = (at + 1) % n; break;
		case 2: if (!recent.empty()) at = recent[recent.size() - 1 - eng::pick(std::min<size_t>(recent.size(), 4))]; break;
		default: at = eng::pick(std::min(n, 3u)); break;
		}
		recent.push_back(at);
		return at;
	}
};

long drawSpread(unsigned slots)
{
	switch (eng::pick(5)) {
	case 0: return -1;
	case 1: return eng::pick(slots + 1);
	case 2: return slots - 1;
	case 3: return eng::pick(4 * slots + 3);
	default: return -static_cast<long>(eng::pick(200)) - 1;
	}
}

unsigned char patternOf(unsigned long block, unsigned i) { return static_cast<unsigned char>(block * 37 + i * 11 + 1 + (block >> 8)); }
void fill(unsigned char* d, unsigned long block, unsigned bs) { for (unsigned i = 0; i < bs; i++) d[i] = patternOf(block, i); }
bool isFilled(const unsigned char* d, unsigned long block, unsigned bs) { for (unsigned i = 0; i < bs; i++) if (d[i] != patternOf(block, i)) return false; return true; }

}

void runC09()
{
	unsigned slots = eng::pick(8) ? 1 + eng::pick(8) : eng::pick(12) ? 1 + eng::pick(70) : 1 + eng::pick(400);
	// rarely more slots than fit into a small number; such a cache is filled by a sweep over all blocks
	bool sweep = eng::chance(1, 400);
	if (sweep) { slots = eng::chance(1, 4) ? 65530 + eng::pick(20) : 250 + eng::pick(900); eng::label(slots > 65535 ? "more than 65535 slots" : "sweeps"); }
	unsigned bs = 1 + eng::pick(9);
	long spread = drawSpread(slots);
	bool fits = eng::chance(1, 3);
	std::vector<unsigned long> ids = drawBlocks(fits ? 1 + eng::pick(slots) : slots + 1 + eng::pick(2 * slots + 1));
	int ops = eng::pick(4) ? eng::pick(60) : eng::pick(400);
	eng::note("%u slots of %u bytes, spread %ld, %zu blocks from %lu, %d requests:", slots, bs, spread, ids.size(), ids[0], ops);
	std::vector<std::pair<int, unsigned> > seq;
	Stream st(ids.size());
	if (sweep) for (unsigned i = 0; i < ids.size(); i++) seq.push_back(std::make_pair(0, i));
	for (int i = 0; i < ops; i++) { int peek = eng::pick(6) == 5; unsigned b = st.next(); seq.push_back(std::make_pair(peek, b)); if (i < 150) eng::note(" %s%lu", peek ? "?" : "", ids[b]); }
	if (sweep && eng::chance(1, 2)) { int peek = eng::pick(2); for (unsigned i = 0; i < ids.size(); i++) seq.push_back(std::make_pair(peek, i)); }
	eng::note("%s\n", sweep ? ", between sweeps over the blocks" : "");
	unsigned long hits = 0, evictions = 0;
	world::single([&] {
		if (sweep) sched::patience = 8000000;
		std::unique_ptr<unsigned char[]> mem(new unsigned char[slots * bs]);
		void* c; { IN_LIB; c = sc_new(); sc_init(c, mem.get(), slots, bs, spread); }
		std::map<unsigned long, unsigned long> where;	// block -> slot
		std::vector<long> holds(slots, -1);
		int n = 0;
		for (auto& s : seq) {
			unsigned long b = ids[s.second], slot = ~0ul;
			n++;
			auto it = where.find(b);
			if (s.first) {
				const unsigned char* d = nullptr; bool ok;
				{ IN_LIB; ok = sc_tryGet(c, b, &slot, &d); }
				if (ok != (it != where.end())) eng::fail("peek", "request %d: peeking at block %lu reports %s but it is %s", n, b, ok ? "the block" : "its absence", ok ? "not cached" : "cached");
				if (!ok) continue;
				if (slot != it->second || d != mem.get() + slot * bs) eng::fail("peek-slot", "request %d: peeking at block %lu hands out slot %lu, it is in %lu", n, b, slot, it->second);
				if (!isFilled(d, b, bs)) eng::fail("content", "request %d: slot %lu lost the data of block %lu", n, slot, b);
				IN_LIB; sc_unlock(c, slot);
				continue;
			}
			unsigned char* d = nullptr; long old;
			{ IN_LIB; old = sc_get(c, b, &slot, &d); }
			if (slot >= slots) eng::fail("slot", "request %d: block %lu gets slot %lu of %u", n, b, slot, slots);
			if (d != mem.get() + slot * bs) eng::fail("pointer", "request %d: the pointer does not belong to slot %lu", n, slot);
			if (it != where.end()) {
				hits++;
				if (slot != it->second) eng::fail("two-slots", "request %d: block %lu is in slot %lu but gets slot %lu", n, b, it->second, slot);
				if (old != static_cast<long>(b)) eng::fail("refill", "request %d: block %lu is cached but reported as %ld", n, b, old);
				if (!isFilled(d, b, bs)) eng::fail("content", "request %d: slot %lu lost the data of block %lu", n, slot, b);
			} else {
				if (old != holds[slot]) eng::fail("old-block", "request %d: block %lu gets slot %lu, reported to hold %ld, it holds %ld", n, b, slot, old, holds[slot]);
				if (old >= 0) {
					evictions++;
					if (where.size() < slots) eng::fail("evicted", "request %d: block %lu evicts block %ld although %zu of %u slots are in use", n, b, old, where.size(), slots);
					if (!isFilled(d, old, bs)) eng::fail("content", "request %d: slot %lu lost the data of block %ld", n, slot, old);
					where.erase(old);
				}
				holds[slot] = b; where[b] = slot;
				fill(d, b, bs);
			}
			IN_LIB; sc_unlock(c, slot);
		}
		{ IN_LIB; sc_delete(c); }
	});
	if (fits) eng::label("all blocks fit");
	if (slots == 1) eng::label("one slot");
	if (spread < 0) eng::label("default spread");
	else if (spread >= slots) eng::label("spread beyond the slots");
	eng::stat("hits", hits); eng::stat("evictions", evictions);
	if (hits && (evictions || fits)) eng::nontrivial();
}

// ---------------------------------------------------------------- C10
void runC10()
{
	int threads = eng::range(2, 5);
	int caches = 1 + eng::pick(3);
	if (eng::chance(1, 40)) { threads = eng::range(6, 14); caches = 1 + eng::pick(9); eng::label("more than five threads"); }
	struct Cache { unsigned slots; long spread; void* c; std::unique_ptr<unsigned char[]> mem; std::vector<int> owner; std::vector<long> holds; int inside; };
	std::vector<Cache> cs(caches);
	unsigned bs = 1 + eng::pick(4);
	unsigned most = 0;
	std::vector<int> mine(threads);
	for (int t = 0; t < threads; t++) mine[t] = eng::pick(caches);
	for (int i = 0; i < caches; i++) {
		Cache& c = cs[i];
		// at least as many slots as threads that hold one
		unsigned users = std::count(mine.begin(), mine.end(), i);
		c.slots = std::max(1u, users + eng::pick(4));
		if (eng::chance(1, 4)) c.slots = 1 + eng::pick(3);	// one slot is held per thread: fewer slots only make them wait
		c.spread = drawSpread(c.slots);
		c.inside = 0;
		most = std::max(most, c.slots);
	}
	std::vector<unsigned long> ids = drawBlocks(1 + eng::pick(2 * most + 2));
	// operation: 0 read, 1 read and on a miss look in the other caches, 2 peek only
	struct Op { int kind; unsigned b; int other; int hold; };
	std::vector<std::vector<Op> > ops(threads);
	size_t total = 0;
	for (int t = 0; t < threads; t++) {
		int n = eng::pick(16);
		Stream st(ids.size());
		for (int i = 0; i < n; i++) { Op o = { static_cast<int>(eng::pick(4)), st.next(), static_cast<int>(eng::pick(caches)), static_cast<int>(eng::pick(3)) }; if (o.kind == 3) o.kind = 0; ops[t].push_back(o); }
		total += n;
	}
	eng::note("%d threads, %d caches, %zu blocks from %lu, blocks of %u bytes\n", threads, caches, ids.size(), ids[0], bs);
	for (int i = 0; i < caches; i++) eng::note("cache %d: %u slots, spread %ld\n", i, cs[i].slots, cs[i].spread);
	for (int t = 0; t < threads; t++) {
		eng::note("thread %d (cache %d):", t, mine[t]);
		for (auto& o : ops[t]) { if (o.kind == 2) eng::note(" peek(%d,%lu)", o.other, ids[o.b]); else eng::note(" %s%lu", o.kind ? "get+search " : "get ", ids[o.b]); }
		eng::note("\n");
	}
	world::begin(1);
	for (auto& c : cs) {
		c.mem.reset(new unsigned char[c.slots * bs]);
		c.owner.assign(c.slots, -1); c.holds.assign(c.slots, -1);
		IN_LIB; c.c = sc_new(); sc_init(c.c, c.mem.get(), c.slots, bs, c.spread);
	}
	uint64_t peeks = 0, found = 0, loads = 0, hits = 0;
	auto hold = [&](int t, int i, unsigned long slot, const unsigned char* d, const char* how) {
		Cache& c = cs[i];
		if (slot >= c.slots || d != c.mem.get() + slot * bs) eng::fail("slot", "thread %d: %s hands out slot %lu of cache %d", t, how, slot, i);
		if (c.owner[slot] >= 0) eng::fail("shared-slot", "thread %d gets slot %lu of cache %d by %s while thread %d holds it", t, slot, i, how, c.owner[slot]);
		c.owner[slot] = t;
	};
	auto release = [&](int, int i, unsigned long slot) {
		cs[i].owner[slot] = -1;
		IN_LIB; sc_unlock(cs[i].c, slot);
	};
	auto peek = [&](int t, int i, unsigned long b, unsigned char* out) {
		Cache& c = cs[i];
		unsigned long slot = ~0ul; const unsigned char* d = nullptr; bool ok;
		peeks++;
		uint64_t waits = sched::waits();
		{ IN_LIB; ok = sc_tryGet(c.c, b, &slot, &d); }
		if (sched::waits() != waits) eng::fail("peek-waits", "thread %d: peeking at block %lu of cache %d waits", t, b, i);
		if (!ok) return false;
		found++;
		hold(t, i, slot, d, "peeking");
		if (c.holds[slot] != static_cast<long>(b)) eng::fail("peek-wrong", "thread %d: peeking at block %lu hands out slot %lu of cache %d with block %ld", t, b, slot, i, c.holds[slot]);
		for (int k = 0; k < 2; k++) {
			if (!isFilled(d, b, bs)) eng::fail("content", "thread %d: slot %lu of cache %d does not hold the data of block %lu while it is protected", t, slot, i, b);
			sched::point("holding a slot");
		}
		if (out) memcpy(out, d, bs);
		release(t, i, slot);
		return true;
	};
	for (int t = 0; t < threads; t++) sched::spawn(0, t, [&, t] {
		for (auto& o : ops[t]) {
			unsigned long b = ids[o.b];
			if (o.kind == 2) { peek(t, o.other, b, nullptr); continue; }
			int i = mine[t];
			Cache& c = cs[i];
			unsigned long slot = ~0ul; unsigned char* d = nullptr; long old;
			c.inside++;
			{ IN_LIB; old = sc_get(c.c, b, &slot, &d); }
			c.inside--;
			hold(t, i, slot, d, "a request");
			if (old == static_cast<long>(b)) {
				hits++;
				if (c.holds[slot] != old) eng::fail("wrong-block", "thread %d: block %lu is reported to be in slot %lu of cache %d, which holds %ld", t, b, slot, i, c.holds[slot]);
			} else {
				loads++;
				if (old != c.holds[slot]) eng::fail("old-block", "thread %d: slot %lu of cache %d holds %ld, reported is %ld", t, slot, i, c.holds[slot], old);
				c.holds[slot] = b;
				if (c.inside == 0)
					for (unsigned s = 0; s < c.slots; s++)
						if (s != slot && c.holds[s] == static_cast<long>(b)) eng::fail("two-slots", "thread %d: block %lu is loaded into slot %lu of cache %d but is in slot %u as well", t, b, slot, i, s);
				bool copied = false;
				if (o.kind == 1)
					for (int k = 0; k < caches && !copied; k++)
						if (k != i) copied = peek(t, k, b, d);
				if (!copied) { sched::point("loading a block"); fill(d, b, bs); }
			}
			for (int k = 0; k <= o.hold; k++) {
				if (!isFilled(d, b, bs)) eng::fail("content", "thread %d: slot %lu of cache %d does not hold the data of block %lu while it is held", t, slot, i, b);
				if (k < o.hold) sched::point("holding a slot");
			}
			release(t, i, slot);
		}
	});
	sched::run();
	// at the end: one slot per block, and what is in them
	for (int i = 0; i < caches; i++) {
		std::set<long> seen;
		for (long h : cs[i].holds) if (h >= 0 && !seen.insert(h).second) eng::fail("two-slots", "block %ld is in two slots of cache %d", h, i);
	}
	sched::spawn(0, 0, [&] {
		for (int i = 0; i < caches; i++)
			for (unsigned s = 0; s < cs[i].slots; s++)
				if (cs[i].holds[s] >= 0 && !peek(0, i, cs[i].holds[s], nullptr)) eng::fail("lost", "block %ld was in slot %u of cache %d but is not found", cs[i].holds[s], s, i);
		for (auto& c : cs) { IN_LIB; sc_delete(c.c); }
	});
	sched::run();
	uint64_t sw = sched::stats().switches, pre = sched::stats().preempts;
	world::end();
	if (caches > 1) eng::label("several caches");
	if (found) eng::label("peeks that find the block");
	if (pre) eng::label("preempted at memory accesses");
	eng::stat("loads", loads); eng::stat("hits", hits); eng::stat("peeks", peeks); eng::stat("peeks that found the block", found); eng::stat("switches", sw);
	if (sw > 10 && loads) eng::nontrivial();
}

// ---------------------------------------------------------------- C16
void runC16()
{
	int ranks = eng::range(2, 4), threads = 1 + eng::pick(3), nodes = 1 + eng::pick(std::min(threads, 2));
	if (eng::chance(1, 40)) { ranks = eng::range(5, 12); threads = 1 + eng::pick(2); nodes = 1; eng::label("more than four processes"); }
	unsigned objects = 1 + eng::pick(2), locks = 1 + eng::pick(3), data = eng::pick(4);
	if (eng::chance(1, 40)) { locks = 4 + eng::pick(300); eng::label("many locks"); }
	struct Op { unsigned obj; int rank; unsigned lock; int hold, pause; };
	std::vector<std::vector<std::vector<Op> > > ops(ranks, std::vector<std::vector<Op> >(threads));
	bool hot = eng::chance(1, 2);
	for (auto& r : ops) for (auto& t : r) {
		int n = eng::pick(9);
		for (int i = 0; i < n; i++) { Op o = { static_cast<unsigned>(eng::pick(objects)), static_cast<int>(hot ? 0 : eng::pick(ranks)), static_cast<unsigned>(hot && eng::pick(4) ? 0 : eng::pick(locks)), static_cast<int>(eng::pick(3)), static_cast<int>(eng::pick(3)) }; t.push_back(o); }
	}
	eng::note("%d processes x %d threads, %d domain(s), %u lock objects with %u locks per process, each protects %u numbers\n", ranks, threads, nodes, objects, locks, data);
	for (int r = 0; r < ranks; r++) for (int t = 0; t < threads; t++) {
		eng::note("%d.%d:", r, t);
		for (auto& o : ops[r][t]) eng::note(" %u/%d/%u", o.obj, o.rank, o.lock);
		eng::note("\n");
	}
	std::map<std::vector<int>, std::pair<int, long> > state;	// lock -> owner (0: free), updates
	std::vector<void*> proc(ranks);
	std::vector<std::vector<void*> > lock(ranks, std::vector<void*>(objects));
	std::vector<std::vector<Gate> > gate(6, std::vector<Gate>(ranks));
	uint64_t waited = 0, total = 0;
	world::begin(ranks);
	for (int i = 0; i < 8; i++) sched::topo.nodeOfCpu[i] = i % nodes;
	for (int r = 0; r < ranks; r++) for (int t = 0; t < threads; t++) sched::spawn(r, t, [&, r, t] {
		if (t == 0) { IN_LIB; proc[r] = sm_new(threads); if (sm_comm(proc[r], MPI_COMM_WORLD) != 0) eng::fail("init", "the communicator cannot be initialised"); }
		gate[0][r].meet(threads);
		bool master = false; unsigned domain;
		{ IN_LIB; if (sm_register(proc[r], &master) != 0) eng::fail("register", "thread registration fails"); domain = sm_domain(proc[r]); }
		gate[1][r].meet(threads);
		if (master) { IN_LIB; if (sm_domains(proc[r]) != 0) eng::fail("domains", "the domain communicator cannot be created"); }
		gate[2][r].meet(threads);
		if (master && domain == 0) for (unsigned i = 0; i < objects; i++) { IN_LIB; lock[r][i] = sm_lockNew(proc[r], locks, data); }
		gate[3][r].meet(threads);
		for (auto& o : ops[r][t]) {
			auto& s = state[{ static_cast<int>(o.obj), o.rank, static_cast<int>(o.lock) }];
			for (int k = 0; k < o.pause; k++) sched::point("between locks");
			bool w;
			{ IN_LIB; w = sm_acquire(lock[r][o.obj], o.rank, o.lock); }
			waited += w; total++;
			if (s.first) eng::fail("not-exclusive", "%d.%d holds lock %u/%d/%u together with %d.%d", r, t, o.obj, o.rank, o.lock, (s.first - 1) / threads, (s.first - 1) % threads);
			s.first = 1 + r * threads + t;
			for (int k = 0; k < o.hold; k++) sched::point("holding a lock");
			if (data) {
				long v;
				{ IN_LIB; v = sm_update(lock[r][o.obj], o.rank, o.lock); }
				if (v != s.second) eng::fail("not-visible", "%d.%d sees %ld under lock %u/%d/%u, the last holder left %ld", r, t, v, o.obj, o.rank, o.lock, s.second);
				s.second++;
			}
			s.first = 0;
			IN_LIB; sm_release(lock[r][o.obj], o.rank, o.lock);
		}
		gate[4][r].meet(threads);
		if (master && domain == 0) {
			for (unsigned i = 0; i < objects; i++) { IN_LIB; sm_lockDelete(lock[r][i]); }
			IN_LIB; sm_barrier(proc[r]);
		}
		gate[5][r].meet(threads);
		if (t == 0) { IN_LIB; sm_delete(proc[r]); }
	});
	sched::run();
	uint64_t sw = sched::stats().switches;
	world::end();
	eng::stat("acquisitions", total); eng::stat("acquisitions that waited", waited); eng::stat("switches", sw);
	if (threads > 1) eng::label("several threads per process");
	if (objects > 1) eng::label("two lock objects");
	if (waited > 1) eng::nontrivial();
}

// ---------------------------------------------------------------- C17
namespace {
struct OnceState { int runs; bool complete; int hold; };
void onceBody(void* p)
{
	sched::HostScope host;
	OnceState* s = static_cast<OnceState*>(p);
	s->runs++;
	for (int i = 0; i < s->hold; i++) sched::point("run-once action");
	s->complete = true;
}
struct SectionState { int inside, seen; int hold; std::set<unsigned> waiting; };
void sectionBody(void* p, unsigned waiting)
{
	sched::HostScope host;
	SectionState* s = static_cast<SectionState*>(p);
	if (++s->inside > 1) eng::fail("section", "two threads are in the section before the barrier");
	if (!s->waiting.insert(waiting).second) eng::fail("waiting", "two threads are the one after %u waiting threads", waiting);
	if (static_cast<int>(waiting) != s->seen) eng::fail("waiting", "%u waiting threads are reported, %d entered before", waiting, s->seen);
	for (int i = 0; i < s->hold; i++) sched::point("section before the barrier");
	s->seen++;
	s->inside--;
}
}

void runC17()
{
	int n = eng::pick(6) ? eng::range(2, 4) : 1 + eng::pick(7);
	int syncs = 1 + eng::pick(2), onces = 1 + eng::pick(3);
	enum { BARRIER, CHAR, LONG, BIG, SECTION };
	struct Round { int kind, sync, root, hold; std::vector<int> pause, once; std::vector<bool> last; };
	std::vector<Round> rounds;
	int m = 1 + eng::pick(eng::pick(3) ? 6 : 25);
	if (eng::chance(1, 60)) { if (eng::chance(1, 2)) { n = 8 + eng::pick(33); m = 1 + eng::pick(4); } else { n = 2; m = 100 + eng::pick(300); } eng::label(n > 7 ? "many threads" : "many rounds"); }
	static const char* name[] = { "barrier", "broadcast of a char", "broadcast of a long", "broadcast of a structure", "section" };
	eng::note("%d threads, %d barrier object(s), %d run-once object(s)\n", n, syncs, onces);
	for (int i = 0; i < m; i++) {
		Round r;
		r.kind = eng::pick(5); r.sync = eng::pick(syncs); r.root = eng::pick(n); r.hold = eng::pick(3);
		for (int t = 0; t < n; t++) { r.pause.push_back(eng::pick(3)); r.once.push_back(static_cast<int>(eng::pick(onces + 3)) - 3); r.last.push_back(eng::pick(3) == 2); }
		eng::note("%d: %s (object %d, root %d)\n", i, name[r.kind], r.sync, r.root);
		rounds.push_back(r);
	}
	std::vector<void*> sync(syncs), once(onces);
	std::vector<OnceState> os(onces);
	std::vector<SectionState> ss(m);
	std::vector<int> entered(m, 0);
	for (auto& o : os) { o.runs = 0; o.complete = false; o.hold = eng::pick(3); }
	for (int i = 0; i < m; i++) { ss[i].inside = ss[i].seen = 0; ss[i].hold = rounds[i].hold; }
	world::begin(1);
	for (auto& s : sync) { IN_LIB; s = st_syncNew(); }
	for (auto& o : once) { IN_LIB; o = st_onceNew(); }
	for (int t = 0; t < n; t++) sched::spawn(0, t, [&, t] {
		for (int i = 0; i < m; i++) {
			Round& r = rounds[i];
			for (int k = 0; k < r.pause[t]; k++) sched::point("between rounds");
			int o = r.once[t];
			if (o >= 0) {
				{ IN_LIB; st_once(once[o], onceBody, &os[o]); }
				if (os[o].runs != 1) eng::fail("once", "run-once action %d ran %d times", o, os[o].runs);
				if (!os[o].complete) eng::fail("once-incomplete", "thread %d returns before run-once action %d is complete", t, o);
			}
			entered[i]++;
			bool ok = true;
			void* s = sync[r.sync];
			switch (r.kind) {
			case BARRIER: { IN_LIB; ok = st_barrier(s, n); break; }
			case CHAR: {
				char v = t == r.root ? static_cast<char>(i * 7 + 3) : static_cast<char>(-1 - t);
				{ IN_LIB; ok = st_broadcastChar(s, &v, n, t, r.root); }
				if (ok && v != static_cast<char>(i * 7 + 3)) eng::fail("broadcast", "round %d: thread %d gets %d from thread %d", i, t, v, r.root);
				break;
			}
			case LONG: {
				long v = t == r.root ? i * 1000003L + 17 : -1L - t;
				{ IN_LIB; ok = st_broadcastLong(s, &v, n, t, r.root); }
				if (ok && v != i * 1000003L + 17) eng::fail("broadcast", "round %d: thread %d gets %ld from thread %d", i, t, v, r.root);
				v = -2;	// the variable of the root is gone now
				break;
			}
			case BIG: {
				std::unique_ptr<Big> v(new Big());
				memset(v.get(), t == r.root ? 1 + i : 255 - t, sizeof(Big));
				{ IN_LIB; ok = st_broadcastBig(s, v.get(), n, t, r.root); }
				const unsigned char* b = reinterpret_cast<unsigned char*>(v.get());
				for (size_t k = 0; ok && k < sizeof(Big); k++) if (b[k] != static_cast<unsigned char>(1 + i)) eng::fail("broadcast", "round %d: thread %d gets a different structure from thread %d", i, t, r.root);
				break;
			}
			default: { IN_LIB; ok = st_section(s, n, r.last[t], sectionBody, &ss[i]); }
			}
			if (!ok) eng::fail("result", "round %d (%s) fails in thread %d", i, name[r.kind], t);
			if (entered[i] != n) eng::fail("left-early", "thread %d leaves round %d (%s) when %d of %d threads have entered", t, i, name[r.kind], entered[i], n);
		}
	});
	sched::run();
	sched::spawn(0, 0, [&] {
		for (auto& s : sync) { IN_LIB; st_syncDelete(s); }
		for (auto& o : once) { IN_LIB; st_onceDelete(o); }
	});
	sched::run();
	uint64_t sw = sched::stats().switches;
	if (sched::stats().preempts) eng::label("preempted at memory accesses");
	world::end();
	eng::stat("rounds", m); eng::stat("switches", sw);
	for (auto& o : os) if (o.runs) eng::label("run-once sections");
	if (n > 4) eng::label("more than four threads");
	if (m > 6) eng::label("more than six rounds");
	if (n > 1 && m > 1 && sw > 5) eng::nontrivial();
}

// ---------------------------------------------------------------- C18
void runC18()
{
	int n = 1 + eng::pick(6), objects = 1 + eng::pick(3);
	int cpus = 1 + eng::pick(8);
	std::vector<int> node(8);
	int nodes = 1 + eng::pick(4);
	if (eng::chance(1, 60)) { n = 7 + eng::pick(34); cpus = 1 + eng::pick(24); node.resize(24); nodes = 1 + eng::pick(14); objects = 1 + eng::pick(2); eng::label("many threads"); }
	std::vector<int> nodeId;
	for (int i = 0; i < nodes; i++) nodeId.push_back(eng::pick(3) ? i : static_cast<int>(eng::pick(2000)));
	for (auto& x : node) x = nodeId[eng::pick(nodes)];
	const unsigned long bytes = eng::chance(1, 8) ? 66000 : 1;
	std::vector<int> cpu, cpu2;
	for (int t = 0; t < n; t++) { cpu.push_back(eng::pick(cpus)); cpu2.push_back(eng::chance(1, 3) ? eng::pick(node.size()) : cpu[t]); }
	std::vector<bool> detect;
	for (int i = 0; i < objects; i++) detect.push_back(!eng::chance(1, 3));
	// faults during the first registrations of an object
	enum { OK, CPU_ALL, CPU_ONE, NODE_ALL, NODE_ONE, KEY };
	std::vector<int> fault, victim;
	for (int i = 0; i < objects; i++) { fault.push_back(eng::chance(1, 3) ? 1 + eng::pick(5) : OK); victim.push_back(eng::pick(n)); }
	int later = eng::pick(4);	// further registrations
	std::vector<std::vector<int> > pause(n);
	for (auto& p : pause) for (int i = 0; i < 8; i++) p.push_back(eng::pick(3));
	static const char* faultName[] = { "none", "no CPU for all", "no CPU for one", "no node for all", "no node for one CPU", "no key" };
	eng::note("%d thread(s) on CPUs", n);
	for (int c : cpu) eng::note(" %d", c);
	eng::note(", later on");
	for (int c : cpu2) eng::note(" %d", c);
	eng::note(", nodes");
	for (int x : node) eng::note(" %d", x);
	eng::note("; %d further registration(s)\n", later);
	for (int i = 0; i < objects; i++) eng::note("object %d: detection %s, fault: %s%s\n", i, detect[i] ? "on" : "off", faultName[fault[i]], fault[i] == CPU_ONE || fault[i] == NODE_ONE ? (" of thread " + std::to_string(victim[i])).c_str() : "");

	world::begin(1);
	sched::topo.nodeOfCpu = node;
	struct Ids { unsigned id, domain; bool master; };
	std::vector<std::vector<Ids> > ids(objects, std::vector<Ids>(n));
	std::vector<void*> obj(objects);
	std::vector<void*> comm(objects);
	std::vector<std::unique_ptr<Gate> > gates;
	for (int i = 0; i < 200; i++) gates.emplace_back(new Gate());
	std::vector<int> task(n, 0);
	for (int i = 0; i < objects; i++) {
		sched::topo.keyCreateFails = fault[i] == KEY;
		IN_LIB; obj[i] = st_numaNew(n);
	}
	sched::topo.keyCreateFails = 0;
	for (int t = 0; t < n; t++) sched::spawn(0, cpu[t], [&, t] {
		int g = 0;
		auto meet = [&] { gates.at(g++)->meet(n); };
		task[t] = sched::self();
		for (int i = 0; i < objects; i++) {
			bool master = false; int e;
			meet();
			if (fault[i] != OK && fault[i] != KEY) {
				if (t == 0) {
					if (fault[i] == CPU_ALL || fault[i] == CPU_ONE) { sched::topo.cpuError = true; sched::topo.failCpuTask = fault[i] == CPU_ONE ? task[victim[i]] : -1; }
					else if (fault[i] == NODE_ALL) for (auto& x : sched::topo.nodeOfCpu) x = -1;
					else sched::topo.nodeOfCpu[cpu[victim[i]]] = -1;
				}
				meet();
				{ IN_LIB; e = st_register(obj[i], &master, detect[i]); }
				bool own = fault[i] == CPU_ALL || fault[i] == NODE_ALL || (fault[i] == CPU_ONE && t == victim[i]) || (fault[i] == NODE_ONE && cpu[t] == cpu[victim[i]]);
				if (own && e != asagi::Grid::NUMA_ERROR) eng::fail("error", "object %d: the topology of thread %d cannot be queried, the result is %s", i, t, lib::errName(e));
				if (e == asagi::Grid::SUCCESS) eng::fail("error", "object %d: thread %d is registered although the topology of thread %d cannot be queried", i, t, victim[i]);
				meet();
				if (t == 0) { sched::topo.cpuError = false; sched::topo.nodeOfCpu = node; }
				meet();
			}
			for (int k = 0; k < pause[t][i]; k++) sched::point("before the registration");
			{ IN_LIB; e = st_register(obj[i], &master, detect[i]); }
			if (fault[i] == KEY) {
				if (e == asagi::Grid::SUCCESS) eng::fail("key-error", "object %d: thread %d is registered without a key", i, t);
				{ IN_LIB; e = st_register(obj[i], &master, detect[i]); }
				if (e == asagi::Grid::SUCCESS) eng::fail("key-error", "object %d: thread %d is registered without a key by the second call", i, t);
				continue;
			}
			if (e != asagi::Grid::SUCCESS) eng::fail("register", "object %d: registration of thread %d fails with %s", i, t, lib::errName(e));
			Ids x; unsigned total, threads;
			{ IN_LIB; x.id = st_threadId(obj[i]); x.domain = st_domainId(obj[i]); x.master = master; total = st_totalDomains(obj[i]); threads = st_totalThreads(obj[i]); }
			std::set<int> hw; for (int k = 0; k < n; k++) hw.insert(detect[i] ? node[cpu[k]] : 0);
			if (threads != static_cast<unsigned>(n)) eng::fail("threads", "%u threads are reported, there are %d", threads, n);
			if (total != hw.size()) eng::fail("domains", "object %d: thread %d sees %u domains instead of %zu", i, t, total, hw.size());
			if (x.id >= static_cast<unsigned>(n)) eng::fail("thread-id", "object %d: thread %d has number %u", i, t, x.id);
			if (x.domain >= total) eng::fail("domain-id", "object %d: thread %d is in domain %u of %u", i, t, x.domain, total);
			ids[i][t] = x;
			// masters talk right away, the others continue
			if (master) {
				void* c;
				{ IN_LIB; c = st_createComm(obj[i]); }
				if (!c) eng::fail("comm", "object %d: the communicator of the domains cannot be created", i);
				if (x.domain == 0) comm[i] = c;
				unsigned what[4];
				{ IN_LIB; for (int k = 0; k < 4; k++) what[k] = st_commIds(c, k); }
				if (what[0] != threads || what[1] != total || what[2] != x.id || what[3] != x.domain) eng::fail("comm-ids", "object %d: the communicator of the domains has other numbers than the domains", i);
				for (unsigned root = 0; root < total; root++) {
					long v = x.domain == root ? 100 + i * 10 + root : -1;
					{ IN_LIB; e = st_commBroadcast(c, &v, root); }
					if (e || v != static_cast<long>(100 + i * 10 + root)) eng::fail("comm-broadcast", "object %d: domain %u gets %ld from domain %u (%s)", i, x.domain, v, root, lib::errName(e));
				}
				unsigned long size = 1 + i * bytes;
				unsigned char* mem = nullptr;
				{ IN_LIB; e = st_commAllocate(c, size, &mem); }
				if (e || !mem) eng::fail("comm-allocate", "object %d: no memory for domain %u (%s)", i, x.domain, lib::errName(e));
				memset(mem, 1 + x.domain, size);
				{ IN_LIB; e = st_commBarrier(c); }
				for (unsigned long k = 0; k < size; k++) if (e || mem[k] != 1 + x.domain) eng::fail("comm-allocate", "object %d: the memory of domain %u is shared with another one", i, x.domain);
				{ IN_LIB; e = st_commBarrier(c); }
				if (x.domain == 0) { IN_LIB; st_commFree(c, mem); }
			}
		}
		meet();
		// consistency
		if (t == 0) for (int i = 0; i < objects; i++) {
			if (fault[i] == KEY) continue;
			std::set<unsigned> id; std::map<unsigned, int> masters;
			for (int k = 0; k < n; k++) {
				if (!id.insert(ids[i][k].id).second) eng::fail("thread-id", "object %d: two threads have number %u", i, ids[i][k].id);
				masters[ids[i][k].domain] += ids[i][k].master;
				for (int j = 0; j < k; j++) {
					bool same = !detect[i] || node[cpu[j]] == node[cpu[k]];
					if (same != (ids[i][j].domain == ids[i][k].domain)) eng::fail("domain-id", "object %d: threads %d and %d on %s node are in domains %u and %u", i, j, k, same ? "one" : "different", ids[i][j].domain, ids[i][k].domain);
				}
			}
			for (auto& m : masters) if (m.second != 1) eng::fail("masters", "object %d: domain %u has %d masters", i, m.first, m.second);
		}
		sched::setCpu(cpu2[t]);
		for (int k = 0; k < later; k++) for (int i = 0; i < objects; i++) {
			if (fault[i] == KEY) continue;
			bool master = !ids[i][t].master; int e;
			for (int j = 0; j < pause[t][(k + i) % 8]; j++) sched::point("before a further registration");
			{ IN_LIB; e = st_register(obj[i], &master, detect[i]); }
			if (e != asagi::Grid::SUCCESS) eng::fail("register", "object %d: a further registration of thread %d fails with %s", i, t, lib::errName(e));
			unsigned a, b;
			{ IN_LIB; a = st_threadId(obj[i]); b = st_domainId(obj[i]); }
			if (master != ids[i][t].master || a != ids[i][t].id || b != ids[i][t].domain) eng::fail("unstable", "object %d: thread %d was thread %u of domain %u%s and is thread %u of domain %u%s", i, t, ids[i][t].id, ids[i][t].domain, ids[i][t].master ? " (master)" : "", a, b, master ? " (master)" : "");
			// all threads at once
			long v = ids[i][t].id == 0 ? 7000 + k : -1;
			{ IN_LIB; e = st_numaBroadcast(obj[i], &v, 0); }
			if (e || v != 7000 + k) eng::fail("broadcast", "object %d: thread %d gets %ld (%s)", i, t, v, lib::errName(e));
			{ IN_LIB; e = st_numaBarrier(obj[i]); }
			if (e) eng::fail("barrier", "object %d: %s", i, lib::errName(e));
		}
		meet();
		if (t == 0) for (int i = 0; i < objects; i++) { IN_LIB; if (fault[i] != KEY) st_commDelete(comm[i]); st_numaDelete(obj[i]); }
	});
	sched::run();
	world::end();
	if (sched::live(sched::RES_KEY, 0)) eng::fail("leak", "%ld keys are left", sched::live(sched::RES_KEY, 0));
	bool severalNodes = false, failed = false;
	for (int t = 1; t < n; t++) if (node[cpu[t]] != node[cpu[0]]) severalNodes = true;
	for (int f : fault) if (f) { failed = true; eng::label(faultName[f]); }
	if (severalNodes) eng::label("several domains");
	if (objects > 1) eng::label("several objects");
	if (n > 1 && (severalNodes || failed)) eng::nontrivial();
}

// ---------------------------------------------------------------- C13, C23: value types, communicators and memory used by several threads
void runParts()
{
	bool serial = getenv("VERIF_SERIALISED");
	int n = eng::pick(6) ? eng::range(2, 3) : eng::range(2, 6);
	struct T {
		void* type; std::vector<model::File> files; bool array; int users; std::set<unsigned> sizes;
		std::vector<unsigned> len; std::vector<unsigned long> disp; std::vector<GType> ty;
	};
	std::vector<T> types(1 + eng::pick(2));
	for (auto& t : types) {
		model::FileOpts o;
		o.maxCells = 12; o.maxDims = 2;
		t.array = eng::chance(1, 2);
		o.array = { Grid::INT }; o.strct = { Grid::INT };
		model::Spec sp;
		// until the kind fits
		do sp = model::drawSpec(o); while (sp.kind != (t.array ? model::Spec::ARRAY : model::Spec::STRUCT));
		int m = t.array && eng::chance(1, 3) ? 2 : 1;
		for (int i = 0; i < m; i++) t.files.push_back(model::drawFile(sp, o));
		for (auto& f : sp.fields) { t.len.push_back(f.len); t.disp.push_back(f.disp); t.ty.push_back(f.elem); }
		t.users = n;
	}
	enum { CHECK, PACK, COMM, ALLOC, OTHER };
	struct Op { int kind, type, file, hold; };
	std::vector<std::vector<Op> > ops(n);
	for (auto& l : ops) {
		int m = 1 + eng::pick(8);
		for (int i = 0; i < m; i++) {
			Op o = { eng::pick(3) ? static_cast<int>(eng::pick(2)) : COMM + static_cast<int>(eng::pick(3)), static_cast<int>(eng::pick(types.size())), 0, static_cast<int>(eng::pick(3)) };
			o.file = eng::pick(types[o.type].files.size());
			l.push_back(o);
		}
	}
	static const char* name[] = { "check", "pack", "comm", "alloc", "other" };
	eng::note("%d threads, %lu types%s\n", n, types.size(), serial ? ", serialised MPI" : "");
	for (auto& t : types) { eng::note("type: %s", t.array ? "array of" : "struct of"); for (auto& f : t.files) eng::note(" %lu bytes", f.elemSize); eng::note("\n"); }
	for (int t = 0; t < n; t++) { eng::note("%d:", t); for (auto& o : ops[t]) eng::note(" %s %d/%d", name[o.kind], o.type, o.file); eng::note("\n"); }
	std::vector<MPI_Comm> comm(n, MPI_COMM_SELF);
	Gate ready;
	int packs = 0, wrong = 0, comms = 0;
	world::begin(1);
	if (serial) fmpi::setSerialised(0, true);
	for (int t = 0; t < n; t++) sched::spawn(0, t, [&, t] {
		if (t == 0) for (auto& ty : types) { IN_LIB; ty.type = ty.array ? sp_array() : sp_struct(ty.len.size(), ty.len.data(), ty.disp.data(), ty.ty.data()); }
		// calls with the same communicator must not overlap, if MPI is not serialised
		if (t == 0 && !serial) { fmpi::HarnessScope h; for (auto& c : comm) MPI_Comm_dup(MPI_COMM_SELF, &c); }
		ready.meet(n);
		MPI_Comm own = comm[t];
		std::vector<std::vector<int> > checked(types.size());
		for (size_t i = 0; i < types.size(); i++) checked[i].assign(types[i].files.size(), -1);
		for (auto& o : ops[t]) {
			T& ty = types[o.type];
			model::File& f = ty.files[o.file];
			int& state = checked[o.type][o.file];
			auto check = [&] {
				void* r; int e;
				{ IN_LIB; r = sp_file(f.path.c_str()); e = sp_fileOpen(r, f.var.c_str()); if (e) eng::fail("file", "the file cannot be opened (%s)", lib::errName(e)); }
				{ IN_LIB; e = sp_check(ty.type, r); }
				bool fits; { IN_LIB; fits = sp_size(ty.type) == f.elemSize; }
				if (fits != (e == 0)) eng::fail("size", "thread %d: the check of a file with values of %lu bytes returns %s, the type has %u bytes", t, f.elemSize, lib::errName(e), sp_size(ty.type));
				if (e && e != Grid::WRONG_SIZE) eng::fail("size", "the check of the type returns %s", lib::errName(e));
				if (e) wrong++;
				if (state >= 0 && state != e) eng::fail("size", "thread %d: the check of the same file returns %s and %s", t, lib::errName(state), lib::errName(e));
				state = e;
				IN_LIB; sp_fileDelete(r);
			};
			switch (o.kind) {
			case CHECK: check(); break;
			case PACK: {
				if (state < 0) check();
				if (state) break;
				std::vector<unsigned char> v(f.raw.begin(), f.raw.begin() + f.elemSize), b(f.elemSize, 0), want;
				if (ty.array) want = v;
				else for (auto& x : f.spec.fields) want.insert(want.end(), v.begin() + x.disp, v.begin() + x.disp + x.len * model::sizeOf(x.elem));
				int e;
				{ IN_LIB; e = sp_pack(ty.type, v.data(), b.data(), b.size(), own); }
				b.resize(want.size());
				if (e || b != want) eng::fail("type-map", "thread %d: the MPI type transfers %s, expected %s", t, model::hex(b).c_str(), model::hex(want).c_str());
				packs++;
				break;
			}
			case COMM: {
				void* c; int e, s;
				{ IN_LIB; c = sp_comm(); e = sp_commInit(c, own); s = e ? 0 : sp_commSize(c); }
				if (e || s != 1) eng::fail("comm", "the copy of the communicator has %d processes (%s)", s, lib::errName(e));
				for (int k = 0; k < o.hold; k++) sched::point("using a communicator");
				IN_LIB; sp_commDelete(c);
				comms++;
				break;
			}
			case ALLOC: {
				unsigned char* p = nullptr; int e;
				{ IN_LIB; e = sp_alloc(16 + o.hold, &p); }
				if (e || !p) eng::fail("memory", "no memory");
				memset(p, t, 16 + o.hold);
				for (int k = 0; k < o.hold; k++) sched::point("using memory");
				for (int k = 0; k < 16 + o.hold; k++) if (p[k] != t) eng::fail("memory", "memory is shared");
				IN_LIB; sp_free(p);
				break;
			}
			case OTHER: { IN_LIB; sp_other(own); break; }
			}
		}
		// the last user deletes a type
		for (auto& ty : types) if (--ty.users == 0) { IN_LIB; sp_delete(ty.type); }
		if (!serial) { fmpi::HarnessScope h; MPI_Comm_free(&comm[t]); }
	});
	sched::run();
	std::string left = fmpi::leaks(0);
	if (!left.empty()) eng::fail("leak", "left at the end: %s", left.c_str());
	uint64_t sw = sched::stats().switches;
	world::end();
	eng::stat("values transferred", packs); eng::stat("wrong sizes", wrong); eng::stat("communicators", comms); eng::stat("switches", sw);
	if (wrong) eng::label("two sizes for one type");
	if (sw > 5 && packs) eng::nontrivial();
}
