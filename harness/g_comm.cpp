// C15: life cycle of the communication thread; C21: node-local ranks
#include "world.h"

#include <algorithm>
#include <climits>
#include <set>

using namespace model;
using namespace world;

namespace {

struct CommGrid {
	Spec spec;
	File f;
	Storage s;
	std::string numa;
	int comm;			// 0: world, 1: communicator of the thread, 2: a part, 3: one of its own
	std::vector<int> member;	// processes that use the grid
	int first;			// -1, or: first open, must fail because the thread is not running
	std::vector<std::vector<std::vector<std::pair<Pos, int> > > > reads;	// [rank][thread]
};
struct Round {
	bool openBefore;		// open without the thread
	bool createFails;		// the first attempt to create the thread fails
	std::vector<int> cpu;		// of each rank
	int again;			// further starts
	std::vector<CommGrid> grids;
	int overlap;			// 0: grids one after the other, 1: all open, closed in order, 2: reverse
};
struct Plan {
	int ranks, threads, numCpus;
	std::vector<std::vector<int> > cpu;	// [rank][thread]
	std::vector<int> node;
	int commKind;			// 0: world, 1: permuted
	std::vector<int> key, color;
	std::vector<Round> rounds;
};

struct Run {
	const Plan& p;
	std::vector<MPI_Comm> threadComm, part;
	std::vector<std::vector<Gate> > gate;	// [rank][step]
	std::vector<Gate> all;
	size_t pinnedSeen;
	Run(const Plan& q) : p(q), pinnedSeen(0) {}

	std::vector<std::vector<int> > pins(int r)
	{
		std::vector<std::vector<int> > v;
		for (auto& x : sched::topo.pinned) if (sched::rankOf(x.first) == r) v.push_back(x.second);
		return v;
	}
	std::vector<std::vector<size_t> > step;
	void sync(int r, int t) { gate[r][step[r][t]++].meet(p.threads); }
	std::vector<std::vector<MPI_Comm> > own;	// [rank][grid in all rounds]
	MPI_Comm commOf(int r, int kind) { return kind == 0 ? MPI_COMM_WORLD : kind == 1 ? threadComm[r] : part[r]; }
	std::vector<std::vector<Grid*> > grid;

	void create(const CommGrid& c, int r, MPI_Comm comm, Grid*& out)
	{
		Grid* g = createGrid(lib::of(r), c.spec);
		if (p.threads > 1) { IN_LIB; g->setThreads(p.threads); }
		GError e;
		{ IN_LIB; e = g->setComm(comm); }
		if (e != Grid::SUCCESS) eng::fail("set-comm", "setComm returned %s", lib::errName(e));
		setParam(g, "MPI_COMMUNICATION", "THREAD", 0);
		if (!c.numa.empty()) setParam(g, "NUMA_COMMUNICATION", c.numa, 0);
		applyGrid(g, c.s); applyLevel(g, c.s, c.f, 0);
		out = g;
	}
	int sizeOfComm(int r, const CommGrid& c)
	{
		int kind = c.comm;
		if (kind == 3) return std::count(c.member.begin(), c.member.end(), 1);
		return kind < 2 ? p.ranks : static_cast<int>(std::count(p.color.begin(), p.color.end(), p.color[r]));
	}

	void thread(int r, int t)
	{
		size_t g = 0;
		Lib& L = lib::of(r);
		if (t == 0) {
			all[g++].meet(p.ranks);
			{
				fmpi::HarnessScope hs;
				MPI_Comm_split(MPI_COMM_WORLD, 0, p.commKind ? p.key[r] : r, &threadComm[r]);
				MPI_Comm_split(MPI_COMM_WORLD, p.color[r], p.key[r], &part[r]);
				for (auto& rd : p.rounds) for (auto& c : rd.grids) {
					MPI_Comm x = MPI_COMM_NULL;
					if (c.comm == 3) MPI_Comm_split(MPI_COMM_WORLD, c.member[r], p.key[r], &x);
					own[r].push_back(x);
				}
			}
			all[g++].meet(p.ranks);
		}
		size_t firstGrid = 0;
		for (const Round& round : p.rounds) {
			auto commFor = [&](size_t i) { return round.grids[i].comm == 3 ? own[r][firstGrid + i] : commOf(r, round.grids[i].comm); };
			auto mine = [&](size_t i) { return round.grids[i].member[r] != 0; };
			sync(r, t);
			if (round.openBefore && mine(0)) {
				const CommGrid& c = round.grids[0];
				if (t == 0) create(c, r, commFor(0), grid[r][0]);
				sync(r, t);
				GError e = open(grid[r][0], c.f.path, 0);
				// one process alone needs no communication
				int n = sizeOfComm(r, c);
				if (e != (n > 1 ? Grid::NOT_INITIALIZED : Grid::SUCCESS))
					eng::fail("open-without", "process %d thread %d: open without the communication thread returned %s (%d processes)", r, t, lib::errName(e), n);
				sync(r, t);
				if (t == 0) close(grid[r][0]);
			}
			if (t == 0) {
				if (round.createFails) {
					all[g++].meet(p.ranks);
					sched::topo.threadCreateFails = 1;
					GError e;
					{ IN_LIB; e = lib::startCommThread(L, round.cpu[r], commOf(r, p.commKind)); }
					if (e != Grid::THREAD_ERROR) eng::fail("start-error", "process %d: startCommThread returned %s although the thread could not be created", r, lib::errName(e));
					all[g++].meet(p.ranks);
					sched::topo.threadCreateFails = 0;
				}
				size_t before = pins(r).size();
				GError e;
				{ IN_LIB; e = lib::startCommThread(L, round.cpu[r], commOf(r, p.commKind)); }
				if (e != Grid::SUCCESS) eng::fail("start", "process %d: startCommThread(%d) returned %s", r, round.cpu[r], lib::errName(e));
				if (sched::live(sched::RES_THREAD, r) != 1) eng::fail("thread-count", "process %d has %ld communication threads", r, sched::live(sched::RES_THREAD, r));
				// pinning
				auto pin = pins(r);
				long c = round.cpu[r], want = c >= 0 && c < p.numCpus ? c : c < 0 && c >= -static_cast<long>(p.numCpus) ? p.numCpus + c : -1;
				if (want < 0) {
					if (pin.size() != before) eng::fail("pinning", "process %d: CPU %ld of %d is invalid, but the thread was pinned to CPU %d", r, c, p.numCpus, pin.back().empty() ? -1 : pin.back()[0]);
				} else {
					if (pin.size() == before) eng::fail("pinning", "process %d: thread not pinned to CPU %ld (%ld of %d)", r, want, c, p.numCpus);
					if (pin.back() != std::vector<int>(1, want))
						eng::fail("pinning", "process %d: thread pinned to CPU %d (%zu CPUs) instead of %ld (%ld of %d)", r, pin.back().empty() ? -1 : pin.back()[0], pin.back().size(), want, c, p.numCpus);
				}
				for (int i = 0; i < round.again; i++) {
					{ IN_LIB; e = lib::startCommThread(L, 0, commOf(r, p.commKind)); }
					if (e != Grid::ALREADY_INITIALIZED) eng::fail("start-again", "process %d: second startCommThread returned %s", r, lib::errName(e));
				}
				if (sched::live(sched::RES_THREAD, r) != 1) eng::fail("thread-count", "process %d has %ld communication threads", r, sched::live(sched::RES_THREAD, r));
			}
			size_t n = round.grids.size();
			auto use = [&](size_t i) {
				const CommGrid& c = round.grids[i];
				if (!mine(i)) return;
				if (t == 0) create(c, r, commFor(i), grid[r][i]);
				sync(r, t);
				GError e = open(grid[r][i], c.f.path, 0);
				if (e != Grid::SUCCESS) eng::fail("open", "process %d thread %d: open returned %s", r, t, lib::errName(e));
			};
			auto readAll = [&](size_t i) {
				const CommGrid& c = round.grids[i];
				if (!mine(i)) return;
				char ctx[60]; snprintf(ctx, sizeof ctx, "process %d thread %d grid %zu: ", r, t, i);
				for (auto& x : c.reads[r][t]) { read(grid[r][i], c.f, x.first, x.second, 0, "value", ctx); eng::stat("reads"); }
			};
			auto done = [&](size_t i) { if (!mine(i)) return; sync(r, t); if (t == 0) close(grid[r][i]); };
			if (round.overlap == 0) for (size_t i = 0; i < n; i++) { use(i); readAll(i); done(i); }
			else {
				for (size_t i = 0; i < n; i++) { use(i); readAll(i); }
				for (size_t i = 0; i < n; i++) readAll(round.overlap == 1 ? n - 1 - i : i);
				for (size_t i = 0; i < n; i++) done(round.overlap == 1 ? i : n - 1 - i);
			}
			if (t == 0) {
				{ IN_LIB; lib::stopCommThread(L); }
				if (sched::live(sched::RES_THREAD, r) != 0) eng::fail("thread-left", "process %d: the communication thread was not joined", r);
			}
			firstGrid += n;
		}
		if (t == 0) {
			all[g++].meet(p.ranks);
			{
				fmpi::HarnessScope hs;
				MPI_Comm_free(&threadComm[r]); MPI_Comm_free(&part[r]);
				for (auto& x : own[r]) if (x != MPI_COMM_NULL) MPI_Comm_free(&x);
			}
			all[g++].meet(p.ranks);
		}
	}
	void run()
	{
		threadComm.resize(p.ranks); part.resize(p.ranks); own.assign(p.ranks, std::vector<MPI_Comm>());
		gate.assign(p.ranks, std::vector<Gate>(200)); all.resize(60);
		step.assign(p.ranks, std::vector<size_t>(p.threads, 0));
		grid.assign(p.ranks, std::vector<Grid*>(8, nullptr));
		world::begin(p.ranks);
		sched::topo.numCpus = p.numCpus;
		for (size_t c = 0; c < p.node.size(); c++) sched::topo.nodeOfCpu[c] = p.node[c];
		for (int r = 0; r < p.ranks; r++) for (int t = 0; t < p.threads; t++)
			sched::spawn(r, p.cpu[r][t], [this, r, t] { thread(r, t); });
		sched::run();
		world::end();
		for (int r = 0; r < p.ranks; r++) {
			std::string l = fmpi::leaks(r);
			if (!l.empty()) eng::fail("leak", "process %d: %s left after the communication thread was stopped", r, l.c_str());
		}
	}
};

}

// ---------------------------------------------------------------- C15
void runC15()
{
	Plan p;
	p.ranks = eng::range(1, 4); p.threads = eng::range(1, 2);
	if (eng::chance(1, 60)) { p.ranks = eng::range(5, 12); lib::need(p.ranks); eng::label("more than four processes"); }
	p.numCpus = 1 + eng::pick(8);
	if (eng::chance(1, 8)) p.numCpus = 0;
	int nodes = p.threads > 1 ? 1 + eng::pick(2) : 1;
	p.node = { 0, nodes - 1, 0, 0, 0, 0, 0, 0 };
	for (int r = 0; r < p.ranks; r++) { std::vector<int> c = { 0, 1 }; if (eng::pick(2)) std::swap(c[0], c[1]); c.resize(p.threads); if (p.threads == 1) c[0] = 0; p.cpu.push_back(c); }
	p.commKind = eng::pick(2);
	for (int r = 0; r < p.ranks; r++) { p.key.push_back(eng::pick(p.ranks)); p.color.push_back(eng::pick(2)); }
	int rounds = 1 + eng::pick(3);
	FileOpts fo = FileOpts::small(); fo.maxCells = 60; fo.maxDims = 2;
	bool talk = false;
	for (int k = 0; k < rounds; k++) {
		Round rd;
		rd.openBefore = eng::chance(1, 4); rd.createFails = eng::chance(1, 6); rd.again = eng::chance(1, 3) ? 1 + eng::pick(2) : 0;
		for (int r = 0; r < p.ranks; r++) {
			int c;
			switch (eng::pick(6)) {
			case 0: c = -1; break;
			case 1: c = eng::pick(std::max(p.numCpus, 1)); break;
			case 2: c = -1 - static_cast<int>(eng::pick(std::max(p.numCpus, 1))); break;
			case 3: c = p.numCpus + static_cast<int>(eng::pick(3)); break;
			case 4: c = -p.numCpus - 1 - static_cast<int>(eng::pick(3)); break;
			default: { static const int odd[] = { 1000, -1000, INT_MAX, INT_MIN, 100000 }; c = odd[eng::pick(5)]; }
			}
			rd.cpu.push_back(c);
		}
		int n = 1 + eng::pick(eng::chance(1, 3) ? 5 : 3);
		for (int i = 0; i < n; i++) {
			CommGrid c;
			c.spec = drawSpec(fo);
			c.f = drawFile(c.spec, fo);
			StorageOpts so; so.passThrough = false;
			c.s = drawStorage(c.f, so);
			for (int d = 0; d < model::maxDims; d++) if (c.s.block[d] <= 0 || c.s.block[d] > 7) c.s.block[d] = 1 + eng::pick(4);
			static const char* nm[] = { "", "ON", "CACHE", "OFF" };
			c.numa = nm[eng::pick(4)];
			c.comm = eng::pick(4);
			c.member.assign(p.ranks, 1);
			if (c.comm == 3) {
				for (auto& x : c.member) x = eng::chance(2, 3);
				if (std::count(c.member.begin(), c.member.end(), 1) == 0) c.member[0] = 1;
			}
			c.reads.resize(p.ranks);
			for (int r = 0; r < p.ranks; r++) for (int t = 0; t < p.threads; t++) {
				c.reads[r].emplace_back();
				Walk w(c.f);
				int m = eng::pick(12);
				for (int j = 0; j < m; j++) { Pos q = w.next(); int rr = drawRead(c.f, q); c.reads[r][t].push_back(std::make_pair(q, rr)); }
				if (m > 2 && p.ranks > 1) talk = true;
			}
			rd.grids.push_back(c);
		}
		rd.overlap = eng::pick(3);
		p.rounds.push_back(rd);
	}
	eng::note("%d process(es) x %d thread(s), %d CPUs, %d node(s), communicator of the thread: %s\n", p.ranks, p.threads, p.numCpus, nodes, p.commKind ? "permuted" : "world");
	for (auto& rd : p.rounds) {
		eng::note("round: %s%s CPUs", rd.openBefore ? "open without the thread first, " : "", rd.createFails ? "first creation fails," : "");
		for (int c : rd.cpu) eng::note(" %d", c);
		eng::note(", %d further start(s), overlap %d\n", rd.again, rd.overlap);
		for (auto& c : rd.grids) {
			std::string mem;
			if (c.comm == 3) { mem = " (processes"; for (int r = 0; r < p.ranks; r++) if (c.member[r]) mem += " " + std::to_string(r); mem += ")"; }
			if (c.comm == 3 && rd.grids.size() > 1) eng::label("grids on overlapping communicators");
			eng::note("  grid on communicator %d%s NUMA %s: %s %s\n", c.comm, mem.c_str(), c.numa.c_str(), c.f.describe().c_str(), c.s.describe(c.f.dims()).c_str());
		}
		if (rd.openBefore) eng::label("open without the thread");
		if (rd.createFails) eng::label("thread creation fails");
		if (rd.again) eng::label("second start");
		if (rd.grids.size() > 1) eng::label("several grids");
	}
	if (p.rounds.size() > 1) eng::label("started again");
	if (p.commKind) eng::label("communicator with permuted ranks");
	Run(p).run();
	if (talk) eng::nontrivial();
}

// ---------------------------------------------------------------- C15, long histories
// One life of the communication thread that serves as many grids as a long simulation opens. The schedule is
// fixed; what is opened, read and closed comes from the tape.
void runC15history()
{
	int ranks = 2 + eng::pick(2);
	int target = eng::chance(7, 8) ? 33500 : 2000 + eng::pick(20000);	// registrations: 4 per cached, 1 per loaded level
	FileOpts fo = FileOpts::small(); fo.maxCells = 24; fo.maxDims = 2;
	struct G { Spec spec; File f; Storage s; };
	std::vector<G> kinds;
	int cachedOf = 8;
	for (int i = 0; i < 6; i++) {
		G g;
		g.spec.kind = Spec::BASIC; g.spec.elem = fo.basic[eng::pick(fo.basic.size())];
		do g.f = drawFile(g.spec, fo); while (g.f.format == 3);	// slow to open
		StorageOpts so; so.passThrough = false;
		g.s = drawStorage(g.f, so);
		g.s.grid = i ? "CACHE" : "FULL";
		for (int d = 0; d < model::maxDims; d++) if (g.s.block[d] <= 0 || g.s.block[d] > 7) g.s.block[d] = 1 + eng::pick(4);
		g.s.cacheSize = 1 + eng::pick(4); g.s.spread = -1;
		kinds.push_back(g);
	}
	int window = 1 + eng::pick(4);	// grids that are open at a time
	int readEvery = 1 + eng::pick(40);
	eng::note("%d processes, %d registrations, up to %d grid(s) open at a time\n", ranks, target, window);
	for (auto& g : kinds) eng::note("  %s %s\n", g.f.describe().c_str(), g.s.describe(g.f.dims()).c_str());
	struct Step { int kind, closes; bool reads; std::vector<std::pair<Pos, int> > r; };
	std::vector<Step> plan;
	{
		int used = 0, open = 0;
		uint64_t x = 1 + eng::pick(1 << 30);
		auto rnd = [&x](unsigned n) { x = x * 6364136223846793005ull + 1442695040888963407ull; return static_cast<unsigned>(x >> 33) % n; };
		while (used < target) {
			Step s;
			s.kind = rnd(cachedOf) == 0 ? 0 : 1 + rnd(5);
			used += kinds[s.kind].s.grid == "CACHE" ? 4 : 1;
			s.closes = -1;
			if (++open > window) { s.closes = rnd(open); open--; }
			// around the limits of tags (32767 is the largest that MPI guarantees) always
			s.reads = rnd(readEvery) == 0 || used > 32600;
			plan.push_back(s);
		}
	}
	std::vector<std::vector<std::pair<Pos, int> > > pool(kinds.size());
	for (size_t i = 0; i < kinds.size(); i++) { Walk w(kinds[i].f); for (int j = 0; j < 12; j++) { Pos q = w.next(); int rr = drawRead(kinds[i].f, q); pool[i].push_back(std::make_pair(q, rr)); } }
	world::begin(ranks, true);
	sched::patience = 60000000;
	sched::nc.record = false;
	for (int r = 0; r < ranks; r++) sched::spawn(r, 0, [&, r] {
		Lib& L = lib::of(r);
		GError e;
		{ IN_LIB; e = lib::startCommThread(L, -1000, MPI_COMM_WORLD); }
		if (e != Grid::SUCCESS) eng::fail("start", "process %d: startCommThread returned %s", r, lib::errName(e));
		std::vector<std::pair<Grid*, int> > open;
		size_t k = 0;
		for (const Step& s : plan) {
			const G& c = kinds[s.kind];
			Grid* g = createGrid(L, c.spec);
			{ IN_LIB; e = g->setComm(MPI_COMM_WORLD); }
			if (e != Grid::SUCCESS) eng::fail("set-comm", "setComm returned %s", lib::errName(e));
			setParam(g, "MPI_COMMUNICATION", "THREAD", 0);
			applyGrid(g, c.s); applyLevel(g, c.s, c.f, 0);
			e = world::open(g, c.f.path, 0);
			if (e != Grid::SUCCESS) eng::fail("open", "process %d: open of the %zuth grid returned %s", r, k + 1, lib::errName(e));
			open.push_back(std::make_pair(g, s.kind));
			if (s.reads) {
				char ctx[60]; snprintf(ctx, sizeof ctx, "process %d grid %zu: ", r, k);
				auto& o = open[k % open.size()];
				auto& p = pool[o.second];
				for (size_t j = 0; j < 6; j++) { auto& x = p[(j + k + 5 * r) % p.size()]; read(o.first, kinds[o.second].f, x.first, x.second, 0, "value", ctx); eng::stat("reads"); }
			}
			if (s.closes >= 0) { world::close(open[s.closes].first); open.erase(open.begin() + s.closes); }
			if (r == 0) eng::stat("grids");
			k++;
		}
		for (auto& o : open) world::close(o.first);
		{ IN_LIB; lib::stopCommThread(L); }
		if (sched::live(sched::RES_THREAD, r) != 0) eng::fail("thread-left", "process %d: the communication thread was not joined", r);
	});
	sched::run();
	world::end();
	for (int r = 0; r < ranks; r++) {
		std::string l = fmpi::leaks(r);
		if (!l.empty()) eng::fail("leak", "process %d: %s left after the communication thread was stopped", r, l.c_str());
	}
	if (target > 32768) { eng::label("more registrations than tags"); eng::nontrivial(); }
}

// ---------------------------------------------------------------- C21
namespace {
std::string drawHost(std::vector<std::string>& seen)
{
	static const char chars[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._";
	std::string s;
	switch (eng::pick(6)) {
	case 0: s = "node" + std::to_string(eng::pick(12)); break;
	case 1: { char b[40]; snprintf(b, sizeof b, "r%02ui%02un%02u", eng::pick(4), eng::pick(40), eng::pick(20)); s = b; break; }
	case 2: { int n = eng::pick(4) ? eng::pick(20) : static_cast<int>(eng::pick(MPI_MAX_PROCESSOR_NAME)); for (int i = 0; i < n; i++) s += chars[eng::pick(sizeof chars - 1)]; break; }
	case 3: {	// long, differs at one end
		s = std::string(MPI_MAX_PROCESSOR_NAME - 1 - eng::pick(3), 'z');
		s[eng::pick(2) ? 0 : s.size() - 1] = 'a' + eng::pick(26);
		break;
	}
	case 4: {	// the same checksum as another name (Adler-32: shift weight between characters)
		if (!seen.empty()) s = seen[eng::pick(seen.size())];
		while (s.size() < 3) s += 'm';
		for (char& c : s) if (c < 'c') c = 'm';
		size_t i = eng::pick(s.size() - 2);
		if (s[i] < 'y' && s[i + 1] > 'b' && s[i + 2] < 'z') { s[i]++; s[i + 1] -= 2; s[i + 2]++; }
		break;
	}
	default: {	// high bytes
		int n = 1 + eng::pick(30);
		for (int i = 0; i < n; i++) s += static_cast<char>(1 + eng::pick(255));
	}
	}
	if (s.size() >= MPI_MAX_PROCESSOR_NAME) s.resize(MPI_MAX_PROCESSOR_NAME - 1);
	seen.push_back(s);
	return s;
}
}

void runC21()
{
	int ranks = eng::chance(1, 60) ? eng::range(9, 20) : eng::range(1, 8);
	lib::need(ranks);
	if (ranks > 8) eng::label("more than eight processes");
	int hosts = 1 + eng::pick(ranks);
	std::vector<std::string> names, of;
	for (int i = 0; i < hosts; i++) { std::string s = drawHost(names); (void) s; }
	std::vector<std::vector<int> > color, key;	// [communicator][rank]; the first is the world
	for (int r = 0; r < ranks; r++) of.push_back(names[eng::pick(hosts)]);
	int comms = 1 + eng::pick(3);
	for (int c = 0; c < comms; c++) {
		color.emplace_back(); key.emplace_back();
		int n = 1 + eng::pick(3);
		for (int r = 0; r < ranks; r++) { color[c].push_back(c == 0 ? 0 : eng::pick(n)); key[c].push_back(c == 0 ? r : eng::pick(ranks)); }
	}
	int calls = 1 + eng::pick(2);
	eng::note("%d process(es) on hosts", ranks);
	for (auto& s : of) { eng::note(" \""); for (unsigned char ch : s) { if (ch > 32 && ch < 127) eng::note("%c", ch); else eng::note("\\x%02x", ch); } eng::note("\""); }
	eng::note("\n");
	for (int c = 0; c < comms; c++) { eng::note("communicator %d (colour/key):", c); for (int r = 0; r < ranks; r++) eng::note(" %d/%d", color[c][r], key[c][r]); eng::note("\n"); }
	std::vector<std::vector<Gate> > gates(2, std::vector<Gate>(comms));
	world::begin(ranks);
	fmpi::config.hosts = of;
	std::vector<MPI_Comm> made(ranks);
	bool shared = false;
	for (int r = 0; r < ranks; r++) sched::spawn(r, 0, [&, r] {
		for (int c = 0; c < comms; c++) {
			MPI_Comm use = MPI_COMM_WORLD, own = MPI_COMM_NULL;
			gates[0][c].meet(ranks);
			if (c) { fmpi::HarnessScope hs; MPI_Comm_split(MPI_COMM_WORLD, color[c][r], key[c][r], &own); use = own; }
			gates[1][c].meet(ranks);
			int want = 0;
			for (int o = 0; o < ranks; o++)
				if (color[c][o] == color[c][r] && of[o] == of[r] && (key[c][o] < key[c][r] || (key[c][o] == key[c][r] && o < r))) want++;
			if (want) shared = true;
			for (int k = 0; k < calls; k++) {
				int got;
				{ IN_LIB; got = lib::nodeLocalRank(lib::of(r), use); }
				if (got != want) eng::fail("local-rank", "communicator %d, process %d: node-local rank is %d instead of %d", c, r, got, want);
			}
			if (own != MPI_COMM_NULL) { fmpi::HarnessScope hs; MPI_Comm_free(&own); }
		}
	});
	sched::run();
	world::end();
	for (int r = 0; r < ranks; r++) {
		std::string l = fmpi::leaks(r);
		if (!l.empty()) eng::fail("leak", "process %d: %s left", r, l.c_str());
	}
	std::set<std::string> diff(of.begin(), of.end());
	if (comms > 1) eng::label("other communicators");
	if (diff.size() > 1) eng::label("several hosts");
	if (shared) eng::label("several processes on a host");
	if (shared && diff.size() > 1) eng::nontrivial();
}
