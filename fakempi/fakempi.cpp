// Not instrumented. See DESIGN.md
#include "fakempi.h"
#include "../engine/engine.h"
#include "../engine/sched.h"

#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>

#ifdef VERIF_TSAN
extern "C" {
void __tsan_acquire(void*);
void __tsan_release(void*);
void AnnotateIgnoreReadsBegin(const char*, int);
void AnnotateIgnoreReadsEnd(const char*, int);
void AnnotateIgnoreWritesBegin(const char*, int);
void AnnotateIgnoreWritesEnd(const char*, int);
void AnnotateIgnoreSyncBegin(const char*, int);
void AnnotateIgnoreSyncEnd(const char*, int);
}
static void hbEdge(bool acquire, const volatile void* p)
{
	bool o = sched::ignore(false);
	if (acquire) __tsan_acquire(const_cast<void*>(p)); else __tsan_release(const_cast<void*>(p));
	sched::ignore(o);
}
#define HB_ACQUIRE(p) hbEdge(true, p)
#define HB_RELEASE(p) hbEdge(false, p)
#else
#define HB_ACQUIRE(p) ((void) 0)
#define HB_RELEASE(p) ((void) 0)
#endif
// malloc/free, libc and libnetcdf are intercepted by the data race detector: they must neither be seen nor order anything
typedef sched::HostScope TsanIgnore;

using fmpi::config;

enum Kind { K_COMM, K_GROUP, K_TYPE, K_WIN, K_MEM, K_REQ, K_N };
static const char* kindName[] = { "communicators", "groups", "datatypes", "windows", "window memory", "requests" };
static long liveCount[K_N][64];
static bool harnessScope = false;
static bool serialisedRank[64];
static int insideRank[64];

namespace fmpi { Config config; Stats stats; }

static void misuse(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
static void misuse(const char* key, const char* fmt, ...)
{
	char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	eng::fail(key, "rank %d: %s", sched::rank(), b);
}

struct Coll {
	std::string sig;
	int arrived, left;
	std::vector<std::vector<char> > data;
	std::vector<char> has;
	std::shared_ptr<void> shared;		// created by the last to arrive
	std::vector<std::shared_ptr<void> > each;
};
struct CommShared {
	int ctx;
	std::vector<int> ranks;
	std::map<uint64_t, Coll> colls;
	std::vector<uint64_t> nextSeq;
	std::vector<int> inColl;
};
struct fmpi_comm { CommShared* sh; int idx; bool live; MPI_Fint fint; bool predefined; bool harness; };
struct fmpi_group { std::vector<int> ranks; bool live; int owner; bool harness; };
struct fmpi_type { size_t size; ptrdiff_t lb, extent; std::vector<std::pair<ptrdiff_t, size_t> > segs; bool committed, live, builtin; int owner; bool harness; };
struct Msg;
struct fmpi_req {
	bool recv, done, live, freed; int owner;
	// receive
	CommShared* c; int me, src, tag; void* buf; int count; MPI_Datatype type;
	MPI_Status st;
	Msg* msg;
	bool harness;
};
struct Msg {
	CommShared* c; int src, dst, tag;
	std::vector<char> data;
	bool arrived, matched;
	fmpi_req* req; int completeOn;		// 0 at once, 1 arrival, 2 match
	fmpi_req* by;		// the receive that got it
	const void* buf; int count; MPI_Datatype type;	// for the check that the buffer is unchanged
	uint64_t seq;
};
struct Op {
	int kind;	// 0 get, 1 put, 2 accumulate family
	int cas;	// 0: accumulate with op, 1: compare and swap
	void* origin; int ocount; MPI_Datatype otype;
	std::vector<char> captured; bool isCaptured;
	std::vector<char> initial;	// bytes at the call, to detect changes
	std::vector<char> compare;
	void* result; int rcount; MPI_Datatype rtype;
	ptrdiff_t tdisp; size_t lo, hi; int tcount; MPI_Datatype ttype;
	MPI_Op op;
};
struct WinShared;
struct Epoch { WinShared* w; int origin, target, type, assertion; bool granted; std::list<Op> ops; std::vector<Op> done; };
struct WinShared {
	CommShared* c;
	std::vector<char*> base; std::vector<size_t> size; std::vector<int> disp;
	std::list<Epoch*> epochs;	// open ones
};
struct fmpi_win { WinShared* sh; int idx; bool live; std::map<int, Epoch*> open; bool lockAll; bool harness; bool allocated; };

static std::vector<std::unique_ptr<CommShared> > commShared;
static std::vector<std::unique_ptr<fmpi_comm> > comms;
static std::vector<std::unique_ptr<fmpi_group> > groups;
static std::vector<std::unique_ptr<fmpi_type> > types;
static std::vector<std::unique_ptr<fmpi_req> > reqs;
static std::vector<std::unique_ptr<WinShared> > winShared;
static std::vector<std::unique_ptr<fmpi_win> > wins;
static std::map<std::tuple<int,int,int>, std::deque<Msg*> > channels;	// not yet arrived
static std::list<Msg*> inbox;			// arrived, not matched, in arrival order
static std::list<fmpi_req*> posted;		// receives not matched
struct Mem { size_t size; int rank; bool harness; };
static std::map<char*, Mem> mems;
static std::vector<fmpi_comm*> worldComm, selfComm;
static std::vector<fmpi_comm*> fints;
static uint64_t msgSeq;

static CommShared* newShared(const std::vector<int>& r)
{
	commShared.emplace_back(new CommShared());
	CommShared* c = commShared.back().get();
	c->ctx = commShared.size(); c->ranks = r;
	c->nextSeq.assign(r.size(), 0); c->inColl.assign(r.size(), 0);
	return c;
}
static fmpi_comm* newComm(CommShared* sh, int idx, bool predefined)
{
	comms.emplace_back(new fmpi_comm());
	fmpi_comm* c = comms.back().get();
	c->sh = sh; c->idx = idx; c->live = true; c->predefined = predefined; c->harness = harnessScope;
	c->fint = 100 + fints.size(); fints.push_back(c);
	if (!predefined && !harnessScope) liveCount[K_COMM][sched::rank()]++;
	return c;
}
static fmpi_comm* comm(MPI_Comm c, const char* fn)
{
	if (c == MPI_COMM_NULL) misuse("mpi-null-comm", "%s on MPI_COMM_NULL", fn);
	if (c == MPI_COMM_WORLD) return worldComm[sched::rank()];
	if (c == MPI_COMM_SELF) return selfComm[sched::rank()];
	if (!c->live) misuse("mpi-freed-comm", "%s on a freed communicator", fn);
	if (c->sh->ranks[c->idx] != sched::rank()) misuse("mpi-foreign", "%s: communicator handle of another process", fn);
	return c;
}

static fmpi_type builtins[20];
static void initBuiltins()
{
	static const size_t sz[] = { 0, 1, 1, 4, 8, 4, 8, 8, 4, 1, 2, 8, 8, 8, 8, 4, 4, 1, 1, 1 };
	for (int i = 1; i < 20; i++) {
		builtins[i].size = sz[i]; builtins[i].lb = 0; builtins[i].extent = sz[i];
		builtins[i].segs.assign(1, std::make_pair(ptrdiff_t(0), sz[i]));
		builtins[i].committed = builtins[i].live = builtins[i].builtin = true;
	}
}
static fmpi_type* dtype(MPI_Datatype t, const char* fn, bool needCommit = true)
{
	size_t v = reinterpret_cast<size_t>(t);
	if (v == 0) misuse("mpi-null-type", "%s with MPI_DATATYPE_NULL", fn);
	if (v < 20) return &builtins[v];
	if (!t->live) misuse("mpi-freed-type", "%s with a freed datatype", fn);
	if (t->owner != sched::rank()) misuse("mpi-foreign", "%s: datatype handle of another process", fn);
	if (needCommit && !t->committed) misuse("mpi-uncommitted", "%s with an uncommitted datatype", fn);
	return t;
}
static fmpi_type* rawType(MPI_Datatype t) { size_t v = reinterpret_cast<size_t>(t); return v < 20 ? &builtins[v] : t; }
static void packT(const void* buf, int count, fmpi_type* t, std::vector<char>& out)
{
	const char* b = static_cast<const char*>(buf);
	for (int i = 0; i < count; i++)
		for (auto& s : t->segs) out.insert(out.end(), b + i * t->extent + s.first, b + i * t->extent + s.first + s.second);
}
static void unpackT(void* buf, int count, fmpi_type* t, const char* in, size_t len)
{
	char* b = static_cast<char*>(buf); size_t p = 0;
	for (int i = 0; i < count; i++)
		for (auto& s : t->segs) {
			if (p + s.second > len) { if (p < len) memcpy(b + i * t->extent + s.first, in + p, len - p); return; }
			memcpy(b + i * t->extent + s.first, in + p, s.second); p += s.second;
		}
}
static void poison(void* buf, int count, fmpi_type* t)
{
	char* b = static_cast<char*>(buf);
	for (int i = 0; i < count; i++) for (auto& s : t->segs) memset(b + i * t->extent + s.first, 0xDB, s.second);
}

struct Guard {
	TsanIgnore ig; int r; bool blocking;
	Guard(const char* fn) : r(sched::rank())
	{
		if (worldComm.empty()) misuse("mpi-not-initialized", "%s called without MPI", fn);
		if (serialisedRank[r] && insideRank[r] > 0) misuse("mpi-concurrent", "%s called while another thread of the process is inside MPI", fn);
		insideRank[r]++;
		sched::point(fn);
	}
	~Guard() { insideRank[r]--; }
};

// ---------------------------------------------------------------- network
static bool compatible(Epoch* e)
{
	for (Epoch* o : e->w->epochs) {
		if (o == e || !o->granted || o->target != e->target) continue;
		if (o->type == MPI_LOCK_EXCLUSIVE || e->type == MPI_LOCK_EXCLUSIVE) {
			if (config.strict && ((o->assertion | e->assertion) & MPI_MODE_NOCHECK))
				misuse("mpi-nocheck", "MPI_MODE_NOCHECK although a conflicting lock is held on target %d", e->target);
			return false;
		}
	}
	return true;
}
static void conflictCheck(Epoch* e, const Op& op)
{
	if (!config.strict) return;
	auto clash = [&](const Op& o) { return o.lo < op.hi && op.lo < o.hi && !(o.kind == 0 && op.kind == 0) && !(o.kind == 2 && op.kind == 2); };
	for (Epoch* o : e->w->epochs) {
		if (o->target != e->target) continue;
		if (o != e && (o->type == MPI_LOCK_EXCLUSIVE || e->type == MPI_LOCK_EXCLUSIVE)) continue;	// never at the same time
		for (auto& q : o->ops) if (&q != &op && clash(q)) misuse("mpi-rma-conflict", "conflicting one-sided operations on target %d, bytes %zu..%zu", e->target, op.lo, op.hi);
		if (o != e) for (auto& q : o->done) if (clash(q)) misuse("mpi-rma-conflict", "conflicting one-sided operations on target %d, bytes %zu..%zu", e->target, op.lo, op.hi);
	}
}
static void checkUnchanged(const Op& op, const char* what)
{
	if (!config.strict || op.isCaptured) return;
	std::vector<char> nowV; packT(op.origin, op.ocount, rawType(op.otype), nowV);
	if (nowV != op.initial) misuse("mpi-buffer-touched", "origin buffer of %s changed before completion", what);
}
static void capture(Op& op)
{
	if (op.isCaptured || op.kind == 0) return;
	checkUnchanged(op, op.kind == 1 ? "MPI_Put" : "an accumulate operation");
	packT(op.origin, op.ocount, rawType(op.otype), op.captured);
	op.isCaptured = true;
}
template<typename T> static void combine(T* t, const T* v, size_t n, MPI_Op op)
{
	for (size_t i = 0; i < n; i++) {
		if (op == MPI_REPLACE) t[i] = v[i];
		else if (op == MPI_SUM) t[i] = static_cast<T>(t[i] + v[i]);
		else if (op == MPI_PROD) t[i] = static_cast<T>(t[i] * v[i]);
		else if (op == MPI_MAX) t[i] = std::max(t[i], v[i]);
		else if (op == MPI_MIN) t[i] = std::min(t[i], v[i]);
		else if (op == MPI_LOR) t[i] = t[i] || v[i];
		else if (op == MPI_LAND) t[i] = t[i] && v[i];
		else if (op == MPI_BOR) t[i] = static_cast<T>(static_cast<long>(t[i]) | static_cast<long>(v[i]));
		else if (op == MPI_BAND) t[i] = static_cast<T>(static_cast<long>(t[i]) & static_cast<long>(v[i]));
	}
}
static void combineT(MPI_Datatype ty, void* t, const void* v, size_t bytes, MPI_Op op)
{
	if (op == MPI_NO_OP) return;
	switch (reinterpret_cast<size_t>(ty)) {
	case 3: case 16: combine(static_cast<int*>(t), static_cast<const int*>(v), bytes / 4, op); break;
	case 8: case 15: combine(static_cast<unsigned*>(t), static_cast<const unsigned*>(v), bytes / 4, op); break;
	case 4: case 11: case 13: case 14: combine(static_cast<long*>(t), static_cast<const long*>(v), bytes / 8, op); break;
	case 7: case 12: combine(static_cast<unsigned long*>(t), static_cast<const unsigned long*>(v), bytes / 8, op); break;
	case 5: combine(static_cast<float*>(t), static_cast<const float*>(v), bytes / 4, op); break;
	case 6: combine(static_cast<double*>(t), static_cast<const double*>(v), bytes / 8, op); break;
	case 10: combine(static_cast<short*>(t), static_cast<const short*>(v), bytes / 2, op); break;
	case 1: case 2: case 9: case 17: case 18: case 19: combine(static_cast<unsigned char*>(t), static_cast<const unsigned char*>(v), bytes, op); break;
	default: misuse("mpi-type-op", "reduction with a derived datatype");
	}
}
static void execute(Epoch* e, Op& op)
{
	char* base = e->w->base[e->target] + op.tdisp;
	fmpi_type* tt = rawType(op.ttype);
	fmpi::stats.rma++;
	if (op.kind == 0) {
		std::vector<char> d; packT(base, op.tcount, tt, d);
		unpackT(op.origin, op.ocount, rawType(op.otype), d.data(), d.size());
	} else {
		if (op.cas) {
			std::vector<char> old; packT(base, 1, tt, old);
			capture(op);
			if (old == op.compare) unpackT(base, 1, tt, op.captured.data(), op.captured.size());
			unpackT(op.result, 1, rawType(op.rtype), old.data(), old.size());
		} else if (op.kind == 1) {
			capture(op);
			unpackT(base, op.tcount, tt, op.captured.data(), op.captured.size());
		} else {
			if (op.result) { std::vector<char> old; packT(base, op.tcount, tt, old); 
				if (op.op != MPI_NO_OP) capture(op);
				unpackT(op.result, op.rcount, rawType(op.rtype), old.data(), old.size()); }
			else capture(op);
			if (op.op != MPI_NO_OP) combineT(op.ttype, base, op.captured.data(), op.captured.size(), op.op);
		}
	}
}
static bool opReady(Epoch* e, std::list<Op>::iterator it)
{
	if (it->kind != 2) return true;
	for (auto j = e->ops.begin(); j != it; ++j) if (j->kind == 2) return false;
	return true;
}
static void tryMatch(Msg* m);
static void fetch(struct Msg* m);
struct Network : sched::Net {
	size_t pending()
	{
		size_t n = channels.size();	// none is empty
		for (auto& w : winShared) for (Epoch* e : w->epochs) {
			if (!e->granted) { if (compatible(e)) n++; }
			else n += !e->ops.empty();
		}
		return n;
	}
	void step()
	{
		std::vector<std::function<void()> > ev;
		for (auto it = channels.begin(); it != channels.end(); ++it) { ev.push_back([it] {
			Msg* m = it->second.front(); it->second.pop_front(); m->arrived = true;
			if (it->second.empty()) channels.erase(it);
			if (m->completeOn == 1) { fetch(m); m->buf = 0; }	// may be reused from now on
			if (m->req && m->completeOn == 1) m->req->done = true;
			inbox.push_back(m); tryMatch(m); }); }
		for (auto& w : winShared) for (Epoch* e : w->epochs) {
			if (!e->granted) { if (compatible(e)) ev.push_back([e] { e->granted = true; }); }
			else if (!e->ops.empty()) ev.push_back([e] {
				std::vector<std::list<Op>::iterator> r;
				for (auto it = e->ops.begin(); it != e->ops.end(); ++it) if (opReady(e, it)) r.push_back(it);
				auto it = r[sched::choose(r.size())];
				execute(e, *it); e->done.push_back(*it); e->ops.erase(it); });
		}
		if (ev.empty()) return;
		ev[sched::choose(ev.size())]();
	}
	void dump(char* b, size_t n)
	{
		std::string s;
		for (Msg* m : inbox) { char t[200]; snprintf(t, sizeof t, "  unreceived message %d -> %d tag %d ctx %d\n", m->src, m->dst, m->tag, m->c->ctx); s += t; }
		for (auto& w : winShared) for (Epoch* e : w->epochs) { char t[200]; snprintf(t, sizeof t, "  window epoch origin %d target %d %s%s\n", e->origin, e->target, e->type == MPI_LOCK_EXCLUSIVE ? "exclusive" : "shared", e->granted ? " granted" : " waiting"); s += t; }
		snprintf(b, n, "%s", s.c_str());
	}
};
static Network network;

// ---------------------------------------------------------------- messages
static void checkMsgBuffer(Msg* m)
{
	if (!config.strict || !m->buf || m->completeOn == 0) return;
	if (m->req && m->req->done) return;
	std::vector<char> d; packT(m->buf, m->count, rawType(m->type), d);
	if (d != m->data) misuse("mpi-buffer-touched", "send buffer changed before the send completed");
}
/** The data leaves the send buffer now (nothing may write to it before) */
static void fetch(Msg* m)
{
	checkMsgBuffer(m);
	if (m->buf && m->completeOn != 0 && !(m->req && m->req->done)) { m->data.clear(); packT(m->buf, m->count, rawType(m->type), m->data); }
}
static void deliver(fmpi_req* r, Msg* m)
{
	fmpi_type* t = rawType(r->type);
	size_t cap = t->size * r->count;
	if (m->data.size() > cap) misuse("mpi-truncate", "message of %zu bytes received into %zu bytes (tag %d)", m->data.size(), cap, m->tag);
	if (config.strict && m->data.size() != cap) misuse("mpi-size-mismatch", "message of %zu bytes received with a receive for %zu bytes (tag %d)", m->data.size(), cap, m->tag);
	fetch(m);
	unpackT(r->buf, r->count, t, m->data.data(), m->data.size());
	r->st.MPI_SOURCE = m->src; r->st.MPI_TAG = m->tag; r->st.bytes = m->data.size(); r->st.MPI_ERROR = 0;
	m->matched = true; r->msg = m; m->by = r;
	HB_RELEASE(r);
	if (m->req) m->req->done = true;
	r->done = true;
}
static bool matches(fmpi_req* r, Msg* m)
{
	return r->c == m->c && r->me == m->dst && (r->src == MPI_ANY_SOURCE || r->src == m->src) && (r->tag == MPI_ANY_TAG || r->tag == m->tag);
}
static void tryMatch(Msg* m)
{
	for (auto it = posted.begin(); it != posted.end(); ++it)
		if (matches(*it, m)) {
			fmpi_req* r = *it;
			posted.erase(it); inbox.remove(m);
			deliver(r, m);
			return;
		}
}
static fmpi_req* newReq(bool recv)
{
	reqs.emplace_back(new fmpi_req());
	fmpi_req* r = reqs.back().get();
	r->recv = recv; r->done = false; r->live = true; r->freed = false; r->owner = sched::rank(); r->msg = 0; r->c = 0; r->harness = harnessScope;
	if (!r->harness) liveCount[K_REQ][r->owner]++;
	return r;
}
static void dropReq(fmpi_req* r) { if (r->live) { r->live = false; if (!r->harness) liveCount[K_REQ][r->owner]--; } }

static Msg* sendMsg(const char* fn, const void* buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm c, bool sync, fmpi_req* req)
{
	fmpi_comm* cm = comm(c, fn);
	fmpi_type* t = dtype(type, fn);
	if (count < 0) misuse("mpi-count", "%s: negative count", fn);
	if (dest < 0 || dest >= static_cast<int>(cm->sh->ranks.size())) misuse("mpi-rank", "%s: invalid destination %d", fn, dest);
	if (tag < 0 || tag > 32767) misuse("mpi-tag", "%s: invalid tag %d", fn, tag);
	Msg* m = new Msg();
	m->c = cm->sh; m->src = cm->idx; m->dst = dest; m->tag = tag; m->arrived = m->matched = false;
	packT(buf, count, t, m->data);
	m->req = req; m->by = 0; m->buf = buf; m->count = count; m->type = type; m->seq = msgSeq++;
	m->completeOn = sync ? 2 : config.eager == 0 ? 0 : config.eager == 1 ? 2 : static_cast<int>(sched::choose(3));
	HB_RELEASE(m);
	if (req && m->completeOn == 0) req->done = true;
	channels[std::make_tuple(cm->sh->ctx, cm->idx, dest)].push_back(m);
	fmpi::stats.msgs++;
	return m;
}
static fmpi_req* postRecv(const char* fn, void* buf, int count, MPI_Datatype type, int src, int tag, MPI_Comm c)
{
	fmpi_comm* cm = comm(c, fn);
	fmpi_type* t = dtype(type, fn);
	if (count < 0) misuse("mpi-count", "%s: negative count", fn);
	if (src != MPI_ANY_SOURCE && (src < 0 || src >= static_cast<int>(cm->sh->ranks.size()))) misuse("mpi-rank", "%s: invalid source %d", fn, src);
	if (tag != MPI_ANY_TAG && (tag < 0 || tag > 32767)) misuse("mpi-tag", "%s: invalid tag %d", fn, tag);
	fmpi_req* r = newReq(true);
	r->c = cm->sh; r->me = cm->idx; r->src = src; r->tag = tag; r->buf = buf; r->count = count; r->type = type;
	poison(buf, count, t);
	HB_RELEASE(r);		// what happened before the receive happened before the completion of a send that waits for it
	for (Msg* m : inbox) if (matches(r, m)) { inbox.remove(m); deliver(r, m); return r; }
	posted.push_back(r);
	return r;
}

// ---------------------------------------------------------------- collectives
static Coll& enter(fmpi_comm* c, const std::string& sig, const std::vector<char>& data, const char* fn,
	const std::function<void(Coll&)>& last = nullptr)
{
	CommShared* s = c->sh;
	if (s->inColl[c->idx]) misuse("mpi-coll-concurrent", "%s: two threads call collective operations on one communicator at the same time", fn);
	s->inColl[c->idx] = 1;
	uint64_t seq = s->nextSeq[c->idx]++;
	auto it = s->colls.find(seq);
	if (it == s->colls.end()) {
		Coll n; n.sig = sig; n.arrived = n.left = 0; n.data.resize(s->ranks.size()); n.has.assign(s->ranks.size(), 0); n.each.resize(s->ranks.size());
		it = s->colls.insert(std::make_pair(seq, n)).first;
	}
	Coll& k = it->second;
	if (k.sig != sig) misuse("mpi-coll-mismatch", "collective operations do not match: '%s' here, '%s' on another process", sig.c_str(), k.sig.c_str());
	k.data[c->idx] = data;
	HB_RELEASE(&k);
	if (++k.arrived == static_cast<int>(s->ranks.size()) && last) last(k);
	fmpi::stats.collectives++;
	sched::block([&k, s] { return k.arrived == static_cast<int>(s->ranks.size()); }, fn);
	HB_ACQUIRE(&k);
	s->inColl[c->idx] = 0;
	return k;
}
static std::vector<char> bytes(const void* p, size_t n) { const char* c = static_cast<const char*>(p); return std::vector<char>(c, c + n); }

namespace fmpi {

void begin(const Config& c)
{
	static bool first = true;
	if (first) { initBuiltins(); first = false; }
	config = c;
	if (config.hosts.size() < static_cast<size_t>(c.ranks)) config.hosts.resize(c.ranks, "node");
	for (auto& ch : channels) for (Msg* m : ch.second) delete m;
	channels.clear();
	inbox.clear(); posted.clear(); comms.clear(); groups.clear(); types.clear(); reqs.clear();
	for (auto& w : winShared) for (Epoch* e : w->epochs) delete e;
	winShared.clear(); wins.clear(); commShared.clear(); mems.clear(); fints.clear(); worldComm.clear(); selfComm.clear();
	memset(liveCount, 0, sizeof liveCount); memset(serialisedRank, 0, sizeof serialisedRank); memset(insideRank, 0, sizeof insideRank);
	memset(static_cast<void*>(&stats), 0, sizeof stats);
	msgSeq = 0;
	std::vector<int> all; for (int i = 0; i < c.ranks; i++) all.push_back(i);
	CommShared* w = newShared(all);
	for (int i = 0; i < c.ranks; i++) worldComm.push_back(newComm(w, i, true));
	for (int i = 0; i < c.ranks; i++) selfComm.push_back(newComm(newShared(std::vector<int>(1, i)), 0, true));
	sched::setNet(&network);
}
Config drawConfig(int ranks)
{
	Config c;
	c.ranks = ranks;
	c.eager = eng::draw(eng::SCHED, 3);
	c.lazyLock = eng::draw(eng::SCHED, 2);
	c.strict = false; c.serialised = false;
	return c;
}
std::string leaks(int rank)
{
	std::string s;
	for (int k = 0; k < K_N; k++)
		if (liveCount[k][rank] != 0) s += std::string(s.empty() ? "" : ", ") + std::to_string(liveCount[k][rank]) + " " + kindName[k];
	return s;
}
void setSerialised(int rank, bool on) { serialisedRank[rank] = on; }
HarnessScope::HarnessScope() { harnessScope = true; }
HarnessScope::~HarnessScope() { harnessScope = false; }
MPI_Fint fintOf(MPI_Comm c) { return comm(c, "c2f")->fint; }

}

static WinShared* winCheck(MPI_Win w, const char* fn)
{
	if (w == MPI_WIN_NULL) misuse("mpi-null-win", "%s on MPI_WIN_NULL", fn);
	if (!w->live) misuse("mpi-freed-win", "%s on a freed window", fn);
	if (w->sh->c->ranks[w->idx] != sched::rank()) misuse("mpi-foreign", "%s: window handle of another process", fn);
	return w->sh;
}
static Epoch* epochOf(MPI_Win w, int target, const char* fn)
{
	winCheck(w, fn);
	auto it = w->open.find(target);
	if (it == w->open.end()) misuse("mpi-no-epoch", "%s on target %d outside of an access epoch", fn, target);
	return it->second;
}
static void addOp(Epoch* e, Op& op, const char* fn)
{
	WinShared* w = e->w;
	fmpi_type* tt = rawType(op.ttype);
	size_t lo = static_cast<size_t>(-1), hi = 0;
	if (op.tcount < 0 || op.ocount < 0) misuse("mpi-count", "%s: negative count", fn);
	for (int i = 0; i < op.tcount; i += std::max(1, op.tcount - 1))
		for (auto& s : tt->segs) {
			ptrdiff_t a = op.tdisp + i * tt->extent + s.first, b = a + s.second;
			if (a < 0 || static_cast<size_t>(b) > w->size[e->target]) misuse("mpi-win-range", "%s outside of the window of target %d (bytes %td..%td of %zu)", fn, e->target, a, b, w->size[e->target]);
			lo = std::min<size_t>(lo, a); hi = std::max<size_t>(hi, b);
		}
	op.lo = lo == static_cast<size_t>(-1) ? 0 : lo; op.hi = hi;
	if (op.kind != 0 && op.op != MPI_NO_OP) packT(op.origin, op.ocount, rawType(op.otype), op.initial);
	e->ops.push_back(op);
	conflictCheck(e, e->ops.back());
}
static void flushE(Epoch* e, bool local, const char* fn)
{
	sched::block([e, local] {
		if (e->ops.empty()) return true;
		if (!local || !e->granted) return false;
		for (auto& o : e->ops) if (o.kind == 0 || o.result) return false;
		return true;
	}, fn);
	if (local) for (auto& o : e->ops) capture(o);
}

extern "C" {

int MPI_Init(int*, char***) { return MPI_SUCCESS; }
int MPI_Init_thread(int*, char***, int r, int* p) { if (p) *p = r; return MPI_SUCCESS; }
int MPI_Query_thread(int* p) { *p = MPI_THREAD_MULTIPLE; return MPI_SUCCESS; }
int MPI_Initialized(int* f) { *f = 1; return MPI_SUCCESS; }
int MPI_Finalized(int* f) { *f = 0; return MPI_SUCCESS; }
int MPI_Finalize(void) { return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm, int code) { misuse("mpi-abort", "MPI_Abort(%d)", code); }
double MPI_Wtime(void) { static double t; return t += 1e-6; }

int MPI_Comm_rank(MPI_Comm c, int* r) { Guard g("MPI_Comm_rank"); *r = comm(c, "MPI_Comm_rank")->idx; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int* s) { Guard g("MPI_Comm_size"); *s = comm(c, "MPI_Comm_size")->sh->ranks.size(); return MPI_SUCCESS; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out)
{
	Guard g("MPI_Comm_dup");
	fmpi_comm* cm = comm(c, "MPI_Comm_dup");
	Coll& k = enter(cm, "MPI_Comm_dup", std::vector<char>(), "MPI_Comm_dup", [cm](Coll& k) { k.shared = std::shared_ptr<void>(newShared(cm->sh->ranks), [](void*) {}); });
	*out = newComm(static_cast<CommShared*>(k.shared.get()), cm->idx, false);
	return MPI_SUCCESS;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out)
{
	Guard g("MPI_Comm_split");
	fmpi_comm* cm = comm(c, "MPI_Comm_split");
	if (color < 0 && color != MPI_UNDEFINED) misuse("mpi-split-color", "MPI_Comm_split: invalid color %d", color);
	int d[2] = { color, key };
	Coll& k = enter(cm, "MPI_Comm_split", bytes(d, sizeof d), "MPI_Comm_split", [cm](Coll& k) {
		size_t n = cm->sh->ranks.size();
		std::map<int, std::vector<std::pair<int, int> > > by;
		for (size_t i = 0; i < n; i++) { int x[2]; memcpy(x, k.data[i].data(), sizeof x); if (x[0] != MPI_UNDEFINED) by[x[0]].push_back(std::make_pair(x[1], i)); }
		for (auto& b : by) {
			std::stable_sort(b.second.begin(), b.second.end());
			std::vector<int> r; for (auto& p : b.second) r.push_back(cm->sh->ranks[p.second]);
			CommShared* s = newShared(r);
			for (size_t i = 0; i < b.second.size(); i++) k.each[b.second[i].second] = std::shared_ptr<void>(s, [](void*) {});
		}
	});
	CommShared* s = static_cast<CommShared*>(k.each[cm->idx].get());
	if (!s) *out = MPI_COMM_NULL;
	else *out = newComm(s, std::find(s->ranks.begin(), s->ranks.end(), sched::rank()) - s->ranks.begin(), false);
	return MPI_SUCCESS;
}
int MPI_Comm_split_type(MPI_Comm c, int type, int key, MPI_Info, MPI_Comm* out)
{
	if (type == MPI_UNDEFINED) return MPI_Comm_split(c, MPI_UNDEFINED, key, out);
	int color = 0;
	for (size_t i = 0; i < config.hosts.size(); i++) if (config.hosts[i] == config.hosts[sched::rank()]) { color = i; break; }
	return MPI_Comm_split(c, color, key, out);
}
int MPI_Comm_create(MPI_Comm c, MPI_Group gr, MPI_Comm* out)
{
	int r = sched::rank(), in = 0, key = 0;
	for (size_t i = 0; i < gr->ranks.size(); i++) if (gr->ranks[i] == r) { in = 1; key = i; }
	return MPI_Comm_split(c, in ? 0 : MPI_UNDEFINED, key, out);
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) { *r = comm(a, "MPI_Comm_compare") == comm(b, "MPI_Comm_compare") ? 0 : 1; return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm* c)
{
	Guard g("MPI_Comm_free");
	fmpi_comm* cm = comm(*c, "MPI_Comm_free");
	if (cm->predefined) misuse("mpi-free-predefined", "MPI_Comm_free of a predefined communicator");
	cm->live = false;
	if (!cm->harness) liveCount[K_COMM][sched::rank()]--;
	*c = MPI_COMM_NULL;
	return MPI_SUCCESS;
}
MPI_Comm MPI_Comm_f2c(MPI_Fint f)
{
	if (f < 100 || f >= 100 + static_cast<int>(fints.size())) return MPI_COMM_NULL;
	fmpi_comm* c = fints[f - 100];
	if (c == worldComm[sched::rank()]) return MPI_COMM_WORLD;
	if (c == selfComm[sched::rank()]) return MPI_COMM_SELF;
	return c;
}
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return comm(c, "MPI_Comm_c2f")->fint; }

int MPI_Comm_group(MPI_Comm c, MPI_Group* out)
{
	Guard g("MPI_Comm_group");
	fmpi_comm* cm = comm(c, "MPI_Comm_group");
	groups.emplace_back(new fmpi_group());
	fmpi_group* gr = groups.back().get();
	gr->ranks = cm->sh->ranks; gr->live = true; gr->owner = sched::rank(); gr->harness = harnessScope;
	if (!gr->harness) liveCount[K_GROUP][gr->owner]++;
	*out = gr;
	return MPI_SUCCESS;
}
static fmpi_group* group(MPI_Group g, const char* fn)
{
	if (g == MPI_GROUP_NULL || g == MPI_GROUP_EMPTY) misuse("mpi-null-group", "%s on MPI_GROUP_NULL", fn);
	if (!g->live) misuse("mpi-freed-group", "%s on a freed group", fn);
	if (g->owner != sched::rank()) misuse("mpi-foreign", "%s: group handle of another process", fn);
	return g;
}
int MPI_Group_size(MPI_Group gr, int* n) { Guard g("MPI_Group_size"); *n = group(gr, "MPI_Group_size")->ranks.size(); return MPI_SUCCESS; }
int MPI_Group_rank(MPI_Group gr, int* n)
{
	Guard g("MPI_Group_rank"); group(gr, "MPI_Group_rank"); *n = MPI_UNDEFINED;
	for (size_t i = 0; i < gr->ranks.size(); i++) if (gr->ranks[i] == sched::rank()) *n = i;
	return MPI_SUCCESS;
}
int MPI_Group_free(MPI_Group* gr)
{
	Guard g("MPI_Group_free");
	fmpi_group* x = group(*gr, "MPI_Group_free"); x->live = false; if (!x->harness) liveCount[K_GROUP][x->owner]--; *gr = MPI_GROUP_NULL; return MPI_SUCCESS;
}
int MPI_Group_translate_ranks(MPI_Group a, int n, const int* ra, MPI_Group b, int* rb)
{
	Guard g("MPI_Group_translate_ranks");
	fmpi_group* x = group(a, "MPI_Group_translate_ranks"); fmpi_group* y = group(b, "MPI_Group_translate_ranks");
	for (int i = 0; i < n; i++) {
		if (ra[i] < 0 || ra[i] >= static_cast<int>(x->ranks.size())) misuse("mpi-rank", "MPI_Group_translate_ranks: invalid rank %d", ra[i]);
		rb[i] = MPI_UNDEFINED;
		for (size_t j = 0; j < y->ranks.size(); j++) if (y->ranks[j] == x->ranks[ra[i]]) rb[i] = j;
	}
	return MPI_SUCCESS;
}

static int reduceLike(const char* fn, const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, int mode, int root)
{
	Guard g(fn);
	fmpi_comm* cm = comm(c, fn);
	size_t len = dtype(t, fn)->size * n;
	if (n < 0) misuse("mpi-count", "%s: negative count", fn);
	const void* src = in == MPI_IN_PLACE ? out : in;
	if (in != MPI_IN_PLACE && out && in == out && n > 0 && config.strict) misuse("mpi-alias", "%s: send and receive buffer are the same", fn);
	char sig[200]; snprintf(sig, sizeof sig, "%s count %zu bytes op %zu root %d", fn, len, reinterpret_cast<size_t>(op), root);
	std::vector<char> mine = bytes(src, len);
	if (out && in != MPI_IN_PLACE && (mode != 1 || cm->idx == root)) memset(out, 0xDB, len);
	Coll& k = enter(cm, sig, mine, fn);
	int lo = 0, hi = cm->sh->ranks.size() - 1;
	if (mode == 2) hi = cm->idx;
	if (mode == 3) hi = cm->idx - 1;
	if (mode == 1 && cm->idx != root) return MPI_SUCCESS;
	if (hi < lo) return MPI_SUCCESS;
	std::vector<char> acc = k.data[lo];
	for (int i = lo + 1; i <= hi; i++) combineT(t, acc.data(), k.data[i].data(), len, op);
	if ((op == MPI_LOR || op == MPI_LAND) && lo == hi) combineT(t, acc.data(), k.data[lo].data(), len, op);
	memcpy(out, acc.data(), len);
	return MPI_SUCCESS;
}
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduceLike("MPI_Allreduce", in, out, n, t, op, c, 0, -1); }
int MPI_Reduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return reduceLike("MPI_Reduce", in, out, n, t, op, c, 1, root); }
int MPI_Scan(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduceLike("MPI_Scan", in, out, n, t, op, c, 2, -1); }
int MPI_Exscan(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduceLike("MPI_Exscan", in, out, n, t, op, c, 3, -1); }
static int gatherLike(const char* fn, const void* in, int n, MPI_Datatype t, void* out, int rn, MPI_Datatype rt, MPI_Comm c, int root)
{
	Guard g(fn);
	fmpi_comm* cm = comm(c, fn);
	fmpi_type* ty = dtype(t, fn);
	std::vector<char> mine;
	if (in == MPI_IN_PLACE) packT(static_cast<char*>(out) + cm->idx * rn * dtype(rt, fn)->extent, rn, dtype(rt, fn), mine);
	else packT(in, n, ty, mine);
	char sig[200]; snprintf(sig, sizeof sig, "%s %zu bytes root %d", fn, mine.size(), root);
	Coll& k = enter(cm, sig, mine, fn);
	if (root >= 0 && root != cm->idx) return MPI_SUCCESS;
	fmpi_type* r = dtype(rt, fn);
	if (r->size * rn != mine.size()) misuse("mpi-size-mismatch", "%s: receive size %zu, send size %zu", fn, r->size * rn, mine.size());
	for (size_t i = 0; i < k.data.size(); i++) unpackT(static_cast<char*>(out) + i * rn * r->extent, rn, r, k.data[i].data(), k.data[i].size());
	return MPI_SUCCESS;
}
int MPI_Allgather(const void* in, int n, MPI_Datatype t, void* out, int rn, MPI_Datatype rt, MPI_Comm c) { return gatherLike("MPI_Allgather", in, n, t, out, rn, rt, c, -1); }
int MPI_Gather(const void* in, int n, MPI_Datatype t, void* out, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return gatherLike("MPI_Gather", in, n, t, out, rn, rt, c, root); }
int MPI_Bcast(void* buf, int n, MPI_Datatype t, int root, MPI_Comm c)
{
	Guard g("MPI_Bcast");
	fmpi_comm* cm = comm(c, "MPI_Bcast");
	fmpi_type* ty = dtype(t, "MPI_Bcast");
	std::vector<char> mine; if (cm->idx == root) packT(buf, n, ty, mine);
	char sig[200]; snprintf(sig, sizeof sig, "MPI_Bcast %zu bytes root %d", ty->size * n, root);
	Coll& k = enter(cm, sig, mine, "MPI_Bcast");
	if (cm->idx != root) unpackT(buf, n, ty, k.data[root].data(), k.data[root].size());
	return MPI_SUCCESS;
}
int MPI_Barrier(MPI_Comm c)
{
	Guard g("MPI_Barrier");
	enter(comm(c, "MPI_Barrier"), "MPI_Barrier", std::vector<char>(), "MPI_Barrier");
	return MPI_SUCCESS;
}

static int sendBlocking(const char* fn, const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, bool sync)
{
	Guard g(fn);
	Msg* m = sendMsg(fn, b, n, t, d, tag, c, sync, 0);
	if (m->completeOn == 1) sched::block([m] { return m->arrived; }, fn);
	else if (m->completeOn == 2) { sched::block([m] { return m->matched; }, fn); HB_ACQUIRE(m); HB_ACQUIRE(m->by); }
	return MPI_SUCCESS;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return sendBlocking("MPI_Send", b, n, t, d, tag, c, false); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return sendBlocking("MPI_Ssend", b, n, t, d, tag, c, true); }
int MPI_Bsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { misuse("mpi-bsend", "MPI_Bsend without an attached buffer"); }
static int isend(const char* fn, const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r, bool sync)
{
	Guard g(fn);
	fmpi_req* q = newReq(false);
	q->msg = sendMsg(fn, b, n, t, d, tag, c, sync, q);
	*r = q;
	return MPI_SUCCESS;
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { return isend("MPI_Isend", b, n, t, d, tag, c, r, false); }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { return isend("MPI_Issend", b, n, t, d, tag, c, r, true); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st)
{
	Guard g("MPI_Recv");
	fmpi_req* r = postRecv("MPI_Recv", b, n, t, s, tag, c);
	char why[80]; snprintf(why, sizeof why, "MPI_Recv (source %d, tag %d)", s, tag);
	sched::block([r] { return r->done; }, why);
	HB_ACQUIRE(r); HB_ACQUIRE(r->msg);
	if (st) *st = r->st;
	HB_RELEASE(r->msg);
	dropReq(r);
	return MPI_SUCCESS;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* r)
{
	Guard g("MPI_Irecv");
	*r = postRecv("MPI_Irecv", b, n, t, s, tag, c);
	return MPI_SUCCESS;
}
static fmpi_req* request(MPI_Request r, const char* fn)
{
	if (!r->live) misuse("mpi-freed-req", "%s on a completed or freed request", fn);
	if (r->owner != sched::rank()) misuse("mpi-foreign", "%s: request of another process", fn);
	return r;
}
static void finish(MPI_Request* r, MPI_Status* st)
{
	HB_ACQUIRE(*r); if ((*r)->msg) HB_ACQUIRE((*r)->msg);
	if (!(*r)->recv && (*r)->msg && (*r)->msg->completeOn == 2 && (*r)->msg->by) HB_ACQUIRE((*r)->msg->by);
	if (st && (*r)->recv) *st = (*r)->st;
	dropReq(*r);
	*r = MPI_REQUEST_NULL;
}
int MPI_Test(MPI_Request* r, int* flag, MPI_Status* st)
{
	Guard g("MPI_Test");
	if (*r == MPI_REQUEST_NULL) { *flag = 1; return MPI_SUCCESS; }
	request(*r, "MPI_Test");
	if ((*r)->done) { *flag = 1; finish(r, st); return MPI_SUCCESS; }
	*flag = 0;
	insideRank[g.r]--; sched::pollYield("MPI_Test"); insideRank[g.r]++;
	return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request* r, MPI_Status* st)
{
	Guard g("MPI_Wait");
	if (*r == MPI_REQUEST_NULL) return MPI_SUCCESS;
	fmpi_req* q = request(*r, "MPI_Wait");
	sched::block([q] { return q->done; }, "MPI_Wait");
	finish(r, st);
	return MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st) { for (int i = 0; i < n; i++) MPI_Wait(&r[i], st ? &st[i] : 0); return MPI_SUCCESS; }
int MPI_Testall(int n, MPI_Request* r, int* flag, MPI_Status* st)
{
	Guard g("MPI_Testall");
	for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL && !request(r[i], "MPI_Testall")->done) { *flag = 0; insideRank[g.r]--; sched::pollYield("MPI_Testall"); insideRank[g.r]++; return MPI_SUCCESS; }
	*flag = 1;
	for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) finish(&r[i], st ? &st[i] : 0);
	return MPI_SUCCESS;
}
int MPI_Testany(int n, MPI_Request* r, int* idx, int* flag, MPI_Status* st)
{
	Guard g("MPI_Testany");
	bool any = false; *idx = MPI_UNDEFINED;
	for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { any = true; if (request(r[i], "MPI_Testany")->done) { *idx = i; *flag = 1; finish(&r[i], st); return MPI_SUCCESS; } }
	*flag = !any;
	if (any) { insideRank[g.r]--; sched::pollYield("MPI_Testany"); insideRank[g.r]++; }
	return MPI_SUCCESS;
}
int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* st) { int f = 0; while (!f) MPI_Testany(n, r, idx, &f, st); return MPI_SUCCESS; }
int MPI_Request_free(MPI_Request* r) { Guard g("MPI_Request_free"); dropReq(request(*r, "MPI_Request_free")); *r = MPI_REQUEST_NULL; return MPI_SUCCESS; }
int MPI_Cancel(MPI_Request* r) { Guard g("MPI_Cancel"); fmpi_req* q = request(*r, "MPI_Cancel"); if (q->recv && !q->done) { posted.remove(q); q->done = true; q->st.MPI_SOURCE = -1; q->st.MPI_TAG = -1; } return MPI_SUCCESS; }
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status* status)
{
	MPI_Request r, q; MPI_Irecv(rb, rn, rt, s, rtag, c, &r); MPI_Isend(sb, sn, st, d, stag, c, &q);
	MPI_Wait(&r, status); return MPI_Wait(&q, 0);
}
static Msg* probe(fmpi_comm* cm, int s, int tag)
{
	for (Msg* m : inbox) if (m->c == cm->sh && m->dst == cm->idx && (s == MPI_ANY_SOURCE || s == m->src) && (tag == MPI_ANY_TAG || tag == m->tag)) return m;
	return 0;
}
int MPI_Iprobe(int s, int tag, MPI_Comm c, int* flag, MPI_Status* st)
{
	Guard g("MPI_Iprobe");
	fmpi_comm* cm = comm(c, "MPI_Iprobe");
	Msg* m = probe(cm, s, tag);
	if (m) { *flag = 1; if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->bytes = m->data.size(); } return MPI_SUCCESS; }
	*flag = 0;
	insideRank[g.r]--; sched::pollYield("MPI_Iprobe"); insideRank[g.r]++;
	return MPI_SUCCESS;
}
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status* st)
{
	Guard g("MPI_Probe");
	fmpi_comm* cm = comm(c, "MPI_Probe");
	sched::block([cm, s, tag] { return probe(cm, s, tag) != 0; }, "MPI_Probe");
	Msg* m = probe(cm, s, tag);
	if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->bytes = m->data.size(); }
	return MPI_SUCCESS;
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { fmpi_type* x = dtype(t, "MPI_Get_count"); *n = x->size ? st->bytes / static_cast<int>(x->size) : 0; return MPI_SUCCESS; }

// ---------------------------------------------------------------- windows
struct WinArg { char* base; size_t size; int disp; };
int MPI_Win_create(void* base, MPI_Aint size, int disp, MPI_Info, MPI_Comm c, MPI_Win* out)
{
	Guard g("MPI_Win_create");
	fmpi_comm* cm = comm(c, "MPI_Win_create");
	if (size < 0) misuse("mpi-win-size", "MPI_Win_create: negative size");
	if (disp <= 0) misuse("mpi-win-disp", "MPI_Win_create: displacement unit %d", disp);
	WinArg a = { static_cast<char*>(base), static_cast<size_t>(size), disp };
	Coll& k = enter(cm, "MPI_Win_create", bytes(&a, sizeof a), "MPI_Win_create", [cm](Coll& k) {
		winShared.emplace_back(new WinShared());
		WinShared* w = winShared.back().get();
		w->c = newShared(cm->sh->ranks);
		for (auto& d : k.data) { WinArg x; memcpy(&x, d.data(), sizeof x); w->base.push_back(x.base); w->size.push_back(x.size); w->disp.push_back(x.disp); }
		k.shared = std::shared_ptr<void>(w, [](void*) {});
	});
	wins.emplace_back(new fmpi_win());
	fmpi_win* w = wins.back().get();
	w->sh = static_cast<WinShared*>(k.shared.get()); w->idx = cm->idx; w->live = true; w->lockAll = false; w->harness = harnessScope; w->allocated = false;
	if (!w->harness) liveCount[K_WIN][sched::rank()]++;
	*out = w;
	return MPI_SUCCESS;
}
int MPI_Win_allocate(MPI_Aint size, int disp, MPI_Info i, MPI_Comm c, void* basep, MPI_Win* out)
{
	void* p = malloc(size ? size : 1); memset(p, 0, size);
	int r = MPI_Win_create(p, size, disp, i, c, out);
	(*out)->allocated = true;
	*static_cast<void**>(basep) = p;
	return r;
}
int MPI_Win_free(MPI_Win* w)
{
	Guard g("MPI_Win_free");
	winCheck(*w, "MPI_Win_free");
	if (!(*w)->open.empty()) misuse("mpi-win-free-locked", "MPI_Win_free inside an access epoch");
	fmpi_win* x = *w;
	fmpi_comm tmp; tmp.sh = x->sh->c; tmp.idx = x->idx;
	enter(&tmp, "MPI_Win_free", std::vector<char>(), "MPI_Win_free");
	x->live = false;
	if (!x->harness) liveCount[K_WIN][sched::rank()]--;
	if (x->allocated) free(x->sh->base[x->idx]);
	*w = MPI_WIN_NULL;
	return MPI_SUCCESS;
}
static void winLock(int type, int target, int assertion, MPI_Win win, const char* fn)
{
	WinShared* w = winCheck(win, fn);
	if (type != MPI_LOCK_EXCLUSIVE && type != MPI_LOCK_SHARED) misuse("mpi-lock-type", "%s: invalid lock type %d", fn, type);
	if (target < 0 || target >= static_cast<int>(w->base.size())) misuse("mpi-rank", "%s: invalid target %d", fn, target);
	if (win->open.count(target)) misuse("mpi-win-relock", "%s: access epoch to target %d is already open", fn, target);
	Epoch* e = new Epoch();
	e->w = w; e->origin = win->idx; e->target = target; e->type = type; e->assertion = assertion; e->granted = false;
	win->open[target] = e;
	w->epochs.push_back(e);
	if (target != win->idx && config.lazyLock && sched::choose(2)) return;	// granted later
	if (!compatible(e)) fmpi::stats.lockWaits++;
	sched::block([e] { return e->granted; }, "MPI_Win_lock");
	HB_ACQUIRE(w);
}
static void winUnlock(int target, MPI_Win win, const char* fn)
{
	Epoch* e = epochOf(win, target, fn);
	flushE(e, false, fn);
	// an empty epoch still has to obtain the lock before it is released
	if (!e->granted) sched::block([e] { return e->granted; }, fn);
	HB_ACQUIRE(e->w); HB_RELEASE(e->w);
	e->w->epochs.remove(e);
	win->open.erase(target);
	delete e;
}
int MPI_Win_lock(int type, int target, int assertion, MPI_Win win) { Guard g("MPI_Win_lock"); winLock(type, target, assertion, win, "MPI_Win_lock"); return MPI_SUCCESS; }
int MPI_Win_unlock(int target, MPI_Win win) { Guard g("MPI_Win_unlock"); winUnlock(target, win, "MPI_Win_unlock"); sched::point("MPI_Win_unlock done"); return MPI_SUCCESS; }
int MPI_Win_lock_all(int assertion, MPI_Win win)
{
	Guard g("MPI_Win_lock_all");
	WinShared* w = winCheck(win, "MPI_Win_lock_all");
	for (size_t i = 0; i < w->base.size(); i++) winLock(MPI_LOCK_SHARED, i, assertion, win, "MPI_Win_lock_all");
	return MPI_SUCCESS;
}
int MPI_Win_unlock_all(MPI_Win win)
{
	Guard g("MPI_Win_unlock_all");
	WinShared* w = winCheck(win, "MPI_Win_unlock_all");
	for (size_t i = 0; i < w->base.size(); i++) winUnlock(i, win, "MPI_Win_unlock_all");
	return MPI_SUCCESS;
}
int MPI_Win_flush(int t, MPI_Win win) { Guard g("MPI_Win_flush"); flushE(epochOf(win, t, "MPI_Win_flush"), false, "MPI_Win_flush"); return MPI_SUCCESS; }
int MPI_Win_flush_local(int t, MPI_Win win) { Guard g("MPI_Win_flush_local"); flushE(epochOf(win, t, "MPI_Win_flush_local"), true, "MPI_Win_flush_local"); return MPI_SUCCESS; }
int MPI_Win_flush_all(MPI_Win win) { Guard g("MPI_Win_flush_all"); winCheck(win, "MPI_Win_flush_all"); for (auto& o : win->open) flushE(o.second, false, "MPI_Win_flush_all"); return MPI_SUCCESS; }
int MPI_Win_flush_local_all(MPI_Win win) { Guard g("MPI_Win_flush_local_all"); winCheck(win, "MPI_Win_flush_local_all"); for (auto& o : win->open) flushE(o.second, true, "MPI_Win_flush_local_all"); return MPI_SUCCESS; }
int MPI_Win_sync(MPI_Win win) { Guard g("MPI_Win_sync"); winCheck(win, "MPI_Win_sync"); return MPI_SUCCESS; }
int MPI_Win_fence(int, MPI_Win) { misuse("mpi-fence", "MPI_Win_fence is not supported by the stand-in"); }

static void sizesMatch(const char* fn, int oc, fmpi_type* ot, int tc, fmpi_type* tt)
{
	if (oc * ot->size != tc * tt->size) misuse("mpi-size-mismatch", "%s: origin %zu bytes, target %zu bytes", fn, oc * ot->size, tc * tt->size);
}
int MPI_Get(void* o, int oc, MPI_Datatype ot, int target, MPI_Aint disp, int tc, MPI_Datatype tt, MPI_Win win)
{
	Guard g("MPI_Get");
	Epoch* e = epochOf(win, target, "MPI_Get");
	sizesMatch("MPI_Get", oc, dtype(ot, "MPI_Get"), tc, dtype(tt, "MPI_Get"));
	Op op = Op(); op.kind = 0; op.origin = o; op.ocount = oc; op.otype = ot; op.tcount = tc; op.ttype = tt; op.tdisp = disp * e->w->disp[target];
	poison(o, oc, rawType(ot));
	addOp(e, op, "MPI_Get");
	return MPI_SUCCESS;
}
int MPI_Put(const void* o, int oc, MPI_Datatype ot, int target, MPI_Aint disp, int tc, MPI_Datatype tt, MPI_Win win)
{
	Guard g("MPI_Put");
	Epoch* e = epochOf(win, target, "MPI_Put");
	sizesMatch("MPI_Put", oc, dtype(ot, "MPI_Put"), tc, dtype(tt, "MPI_Put"));
	Op op = Op(); op.kind = 1; op.origin = const_cast<void*>(o); op.ocount = oc; op.otype = ot; op.tcount = tc; op.ttype = tt; op.tdisp = disp * e->w->disp[target];
	addOp(e, op, "MPI_Put");
	return MPI_SUCCESS;
}
int MPI_Get_accumulate(const void* o, int oc, MPI_Datatype ot, void* res, int rc, MPI_Datatype rt, int target, MPI_Aint disp, int tc, MPI_Datatype tt, MPI_Op mop, MPI_Win win)
{
	Guard g("MPI_Get_accumulate");
	Epoch* e = epochOf(win, target, "MPI_Get_accumulate");
	dtype(tt, "MPI_Get_accumulate"); if (mop != MPI_NO_OP) sizesMatch("MPI_Get_accumulate", oc, dtype(ot, "MPI_Get_accumulate"), tc, rawType(tt));
	Op op = Op(); op.kind = 2; op.op = mop; op.origin = const_cast<void*>(o); op.ocount = oc; op.otype = ot; op.tcount = tc; op.ttype = tt; op.tdisp = disp * e->w->disp[target];
	op.result = res; op.rcount = rc; op.rtype = rt;
	if (res) poison(res, rc, rawType(rt));
	addOp(e, op, "MPI_Get_accumulate");
	return MPI_SUCCESS;
}
int MPI_Accumulate(const void* o, int oc, MPI_Datatype ot, int target, MPI_Aint disp, int tc, MPI_Datatype tt, MPI_Op mop, MPI_Win win)
{ return MPI_Get_accumulate(o, oc, ot, 0, 0, MPI_BYTE, target, disp, tc, tt, mop, win); }
int MPI_Fetch_and_op(const void* o, void* res, MPI_Datatype t, int target, MPI_Aint disp, MPI_Op mop, MPI_Win win)
{ return MPI_Get_accumulate(o, 1, t, res, 1, t, target, disp, 1, t, mop, win); }
int MPI_Compare_and_swap(const void* o, const void* cmp, void* res, MPI_Datatype t, int target, MPI_Aint disp, MPI_Win win)
{
	Guard g("MPI_Compare_and_swap");
	Epoch* e = epochOf(win, target, "MPI_Compare_and_swap");
	dtype(t, "MPI_Compare_and_swap");
	Op op = Op(); op.kind = 2; op.cas = 1; op.op = MPI_REPLACE; op.origin = const_cast<void*>(o); op.ocount = 1; op.otype = t; op.tcount = 1; op.ttype = t; op.tdisp = disp * e->w->disp[target];
	op.result = res; op.rcount = 1; op.rtype = t;
	packT(cmp, 1, rawType(t), op.compare);
	poison(res, 1, rawType(t));
	addOp(e, op, "MPI_Compare_and_swap");
	return MPI_SUCCESS;
}

int MPI_Alloc_mem(MPI_Aint size, MPI_Info, void* out)
{
	Guard g("MPI_Alloc_mem");
	if (size < 0) misuse("mpi-alloc", "MPI_Alloc_mem: negative size");
	char* p = static_cast<char*>(malloc(size ? size : 1));
	memset(p, 0xDB, size);
	Mem m = { static_cast<size_t>(size), sched::rank(), harnessScope };
	mems[p] = m;
	if (!m.harness) liveCount[K_MEM][m.rank]++;
	*static_cast<void**>(out) = p;
	return MPI_SUCCESS;
}
int MPI_Free_mem(void* p)
{
	Guard g("MPI_Free_mem");
	char* c = static_cast<char*>(p);
	auto it = mems.find(c);
	if (it == mems.end()) misuse("mpi-free-mem", "MPI_Free_mem of memory not allocated by MPI_Alloc_mem");
	for (auto& w : wins)
		if (w->live && w->sh->c->ranks[w->idx] == sched::rank() && w->sh->size[w->idx] && w->sh->base[w->idx] < c + it->second.size && c < w->sh->base[w->idx] + w->sh->size[w->idx])
			misuse("mpi-free-window", "MPI_Free_mem of memory that is still exposed by a window");
	if (!it->second.harness) liveCount[K_MEM][it->second.rank]--;
	mems.erase(it);
	free(c);
	return MPI_SUCCESS;
}

// ---------------------------------------------------------------- datatypes
static fmpi_type* newType()
{
	types.emplace_back(new fmpi_type());
	fmpi_type* t = types.back().get();
	t->live = true; t->committed = t->builtin = false; t->owner = sched::rank(); t->size = 0; t->lb = 0; t->extent = 0; t->harness = harnessScope;
	if (!t->harness) liveCount[K_TYPE][t->owner]++;
	return t;
}
static void compact(fmpi_type* t)
{
	std::vector<std::pair<ptrdiff_t, size_t> > v;
	for (auto& s : t->segs) {
		if (!v.empty() && v.back().first + static_cast<ptrdiff_t>(v.back().second) == s.first) v.back().second += s.second;
		else v.push_back(s);
	}
	t->segs = v; t->size = 0; for (auto& s : v) t->size += s.second;
}
int MPI_Type_contiguous(int n, MPI_Datatype old, MPI_Datatype* out)
{
	Guard g("MPI_Type_contiguous");
	fmpi_type* o = dtype(old, "MPI_Type_contiguous", false);
	if (n < 0) misuse("mpi-count", "MPI_Type_contiguous: negative count");
	fmpi_type* t = newType();
	for (int i = 0; i < n; i++) for (auto& s : o->segs) t->segs.push_back(std::make_pair(i * o->extent + s.first, s.second));
	t->extent = n * o->extent; compact(t);
	*out = t;
	return MPI_SUCCESS;
}
int MPI_Type_create_struct(int n, const int* len, const MPI_Aint* disp, const MPI_Datatype* ty, MPI_Datatype* out)
{
	Guard g("MPI_Type_create_struct");
	if (n < 0) misuse("mpi-count", "MPI_Type_create_struct: negative count");
	fmpi_type* t = newType();
	ptrdiff_t hi = 0;
	for (int i = 0; i < n; i++) {
		fmpi_type* o = dtype(ty[i], "MPI_Type_create_struct", false);
		for (int j = 0; j < len[i]; j++) for (auto& s : o->segs) t->segs.push_back(std::make_pair(disp[i] + j * o->extent + s.first, s.second));
		hi = std::max(hi, disp[i] + len[i] * o->extent);
	}
	t->extent = hi; compact(t);
	*out = t;
	return MPI_SUCCESS;
}
int MPI_Type_create_resized(MPI_Datatype old, MPI_Aint lb, MPI_Aint ext, MPI_Datatype* out)
{
	Guard g("MPI_Type_create_resized");
	fmpi_type* o = dtype(old, "MPI_Type_create_resized", false);
	fmpi_type* t = newType();
	t->segs = o->segs; t->size = o->size; t->lb = lb; t->extent = ext;
	*out = t;
	return MPI_SUCCESS;
}
int MPI_Type_dup(MPI_Datatype old, MPI_Datatype* out)
{
	Guard g("MPI_Type_dup");
	fmpi_type* o = dtype(old, "MPI_Type_dup", false);
	fmpi_type* t = newType();
	t->segs = o->segs; t->size = o->size; t->lb = o->lb; t->extent = o->extent; t->committed = o->committed;
	*out = t;
	return MPI_SUCCESS;
}
int MPI_Type_commit(MPI_Datatype* t) { Guard g("MPI_Type_commit"); dtype(*t, "MPI_Type_commit", false)->committed = true; return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype* t)
{
	Guard g("MPI_Type_free");
	fmpi_type* x = dtype(*t, "MPI_Type_free", false);
	if (x->builtin) misuse("mpi-free-predefined", "MPI_Type_free of a predefined datatype");
	x->live = false; if (!x->harness) liveCount[K_TYPE][x->owner]--;
	*t = MPI_DATATYPE_NULL;
	return MPI_SUCCESS;
}
int MPI_Type_size(MPI_Datatype t, int* s) { *s = dtype(t, "MPI_Type_size", false)->size; return MPI_SUCCESS; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* ext) { fmpi_type* x = dtype(t, "MPI_Type_get_extent", false); *lb = x->lb; *ext = x->extent; return MPI_SUCCESS; }
int MPI_Get_address(const void* p, MPI_Aint* a) { *a = reinterpret_cast<MPI_Aint>(p); return MPI_SUCCESS; }
int MPI_Get_processor_name(char* n, int* len)
{
	Guard g("MPI_Get_processor_name");
	// everything behind the name is undefined
	memset(n, 0xDB, MPI_MAX_PROCESSOR_NAME);
	const std::string& h = config.hosts[sched::rank()];
	memcpy(n, h.c_str(), h.size() + (h.size() < MPI_MAX_PROCESSOR_NAME));
	*len = h.size();
	return MPI_SUCCESS;
}
int MPI_Error_string(int, char* s, int* n) { strcpy(s, "error"); *n = 5; return MPI_SUCCESS; }

}
