#include "sim.h"

#include <algorithm>
#include <cstring>

using namespace model;
using namespace world;

namespace sim {

static const char* mpiName(Mpi m)
{
	static const char* n[] = { "no communicator", "WINDOW", "THREAD", "OFF", "MPI default" };
	return n[m];
}

static const BadKind missing = { "a missing file", "does-not-exist.nc", Grid::NOT_OPEN }, noVar = { "a file without the variable", "no-variable.nc", Grid::VAR_NOT_FOUND },
	noDims = { "a variable without dimensions", "no-dimensions.nc", Grid::UNSUPPORTED_DIMENSIONS }, noFile = { "a text file", "text.nc", Grid::NOT_OPEN };

/** A failing open of all, or of some domains or processes */
static BadOpen drawBad(const Program& p, const GridPlan& g, const LevelPlan& v, bool partial)
{
	BadOpen b;
	b.who.assign(p.ranks, std::vector<const BadKind*>(p.threads));
	auto kind = [&]() -> const BadKind* {
		switch (eng::pick(4)) {
		case 0: return &missing;
		case 1: {
			std::string path = eng::scratch() + "/" + noVar.path;
			int id; if (nc_create(path.c_str(), NC_CLOBBER, &id) == NC_NOERR) nc_close(id);
			return &noVar;
		}
		case 2: {
			std::string path = eng::scratch() + "/" + noDims.path;
			int id, x;
			if (nc_create(path.c_str(), NC_CLOBBER, &id) == NC_NOERR) {
				std::set<std::string> names;
				for (auto& h : p.g) for (auto& l : h.lv) names.insert(l.f.var);
				for (auto& l : g.lv) names.insert(l.f.var);
				names.insert(v.f.var);
				for (auto& n : names) nc_def_var(id, n.c_str(), NC_INT, 0, nullptr, &x);
				nc_close(id);
			}
			return &noDims;
		}
		default: {
			FILE* f = fopen((eng::scratch() + "/" + noFile.path).c_str(), "w");
			if (f) { fputs("not a netCDF file", f); fclose(f); }
			return &noFile;
		}
		}
	};
	// processes that know about the failure of each other
	bool together = v.s.grid != "PASS_THROUGH" && g.mpi != M_NONE && g.mpi != M_OFF;
	int mode = partial ? eng::pick(3) : 0;
	if (mode == 0) {
		const BadKind* k = kind();
		for (auto& x : b.who) for (auto& y : x) y = k;
		eng::label("failing open first");
		return b;
	}
	// (domain 0 exists with every way to count)
	for (int r = 0; r < p.ranks; r++) {
		std::map<int, const BadKind*> of;
		bool healthy = together && eng::chance(1, 2);
		for (int t = 0; t < p.threads; t++) {
			int d = p.domainOf(g, r, t);
			if (!of.count(d)) of[d] = !healthy && (mode == 1 || eng::chance(1, 2)) ? kind() : nullptr;
			b.who[r][t] = of[d];
		}
	}
	bool some = false, other = false;
	for (int r = 0; r < p.ranks; r++) {
		// one of those that fail together has to fail
		bool any = false;
		for (int q = 0; q < p.ranks; q++) if (q == r || (together && (p.color.empty() || p.color[q] == p.color[r]))) for (auto x : b.who[q]) any = any || x;
		if (!any) {
			const BadKind* k = kind();
			for (int t = 0; t < p.threads; t++) if (p.domainOf(g, r, t) == p.domainOf(g, r, p.threads - 1)) b.who[r][t] = k;
		}
		bool fine = false, fails = false;
		for (auto x : b.who[r]) (x ? fails : fine) = true;
		if (fails && fine) eng::label("failing open of one domain");
		if (fails) some = true; else other = true;
	}
	if (some && other) eng::label("failing open of one process");
	return b;
}
static std::string describeBad(const LevelPlan& v)
{
	std::string s;
	for (auto& b : v.bad) {
		s += "\n   a failing open first:";
		for (size_t r = 0; r < b.who.size(); r++) { s += r ? " |" : ""; for (auto x : b.who[r]) s += std::string(" ") + (x ? x->name : "correct"); s += ";"; }
	}
	return s;
}

std::string Program::describe() const
{
	char b[400];
	snprintf(b, sizeof b, "%d process(es) x %d thread(s)%s\n", ranks, threads, turns ? ", one operation at a time" : "");
	std::string s = b;
	s += "nodes of the threads:";
	for (int r = 0; r < ranks; r++) { s += r ? " |" : ""; for (int t = 0; t < threads; t++) { snprintf(b, sizeof b, " %d", nodeOf(r, t)); s += b; } }
	if (!color.empty()) { s += "\ncommunicators (colour/key):"; for (int r = 0; r < ranks; r++) { snprintf(b, sizeof b, " %d/%d", color[r], key[r]); s += b; } }
	s += "\ngrids are closed by thread:";
	for (int c : closer) s += " " + std::to_string(c);
	s += "\n";
	for (size_t i = 0; i < g.size(); i++) {
		snprintf(b, sizeof b, "grid %zu: %s, NUMA %s, closed after phase %d\n", i, mpiName(g[i].mpi), g[i].numa.empty() ? "default" : g[i].numa.c_str(), g[i].closeAfter);
		s += b;
		for (size_t l = 0; l < g[i].lv.size(); l++)
			s += "  level " + std::to_string(l) + ": " + g[i].lv[l].f.describe() + "\n   " + g[i].lv[l].s.describe(g[i].lv[l].f.dims())
				+ describeBad(g[i].lv[l]) + "\n";
	}
	for (size_t ph = 0; ph < phases.size(); ph++) {
		snprintf(b, sizeof b, "phase %zu%s: open grid %d level %d;", ph, gated[ph] ? " (all threads wait before)" : "", phases[ph].first, phases[ph].second);
		s += b;
		if (turns) {
			std::vector<std::vector<size_t> > at(ranks, std::vector<size_t>(threads, 0));
			int n = 0;
			for (auto& o : order[ph]) {
				const Op& op = ops[o.first][o.second][ph][at[o.first][o.second]++];
				if (n++ > 40) { s += " ..."; break; }
				snprintf(b, sizeof b, " %d.%d:g%dl%d b%zu", o.first, o.second, op.g, op.l, op.kind == O_READ ? g[op.g].lv[op.l].s.blockOf(g[op.g].lv[op.l].f, op.cell) : 9999);
				s += b;
			}
		} else
			for (int r = 0; r < ranks; r++) for (int t = 0; t < threads; t++) { snprintf(b, sizeof b, " %d.%d: %zu ops", r, t, ops[r][t][ph].size()); s += b; }
		s += "\n";
	}
	return s;
}

int Program::domains(int rank) const
{
	std::set<int> d;
	for (int t = 0; t < threads; t++) d.insert(nodeOf(rank, t));
	return d.size();
}
bool Program::threadComm() const { for (auto& x : g) if (x.mpi == M_THREAD) return true; return false; }
int Program::commSize(int rank) const
{
	if (color.empty()) return ranks;
	return std::count(color.begin(), color.end(), color[rank]);
}
int Program::commRank(int rank) const
{
	if (color.empty()) return rank;
	int n = 0;
	for (int i = 0; i < ranks; i++)
		if (color[i] == color[rank] && (key[i] < key[rank] || (key[i] == key[rank] && i < rank))) n++;
	return n;
}

static Storage drawBlocks(const File& f, const Opts& o, bool full, bool cache, bool pass)
{
	StorageOpts so; so.full = full; so.cache = cache; so.passThrough = pass;
	Storage s = drawStorage(f, so);
	for (int d = 0; d < model::maxDims; d++)
		if (f.cells() > 1000) s.block[d] = 9 + eng::pick(16);
		else if (s.block[d] <= 0 || s.block[d] > 7) { if (eng::chance(3, 4)) s.block[d] = 1 + eng::pick(4); }
	if (o.exact && s.grid != "PASS_THROUGH") {
		if (s.slots() < s.blocks(f) && s.cacheSize != 1) s.cacheSize = eng::pick(3) == 0 ? s.blocks(f) : 1;
	}
	return s;
}

Program draw(const Opts& given)
{
	Opts o = given;
	Program p;
	p.numa = o.numa;
	bool wide = o.wide && o.maxRanks * o.maxThreads > 1 && eng::chance(1, 50);
	if (wide) {
		if (o.maxRanks > 1 && (o.maxThreads == 1 || eng::chance(1, 2))) {
			o.minRanks = o.maxRanks + 1; o.maxRanks = 12; o.maxThreads = std::max(o.minThreads, std::min(o.maxThreads, 2));
			eng::label("many processes");
		} else {
			o.minThreads = o.maxThreads + 1; o.maxRanks = std::max(o.minRanks, std::min(o.maxRanks, 2)); o.maxThreads = 12;
			if (o.maxNodes > 1) o.maxNodes = 10;
			eng::label("many threads");
		}
		o.large = false; o.maxOps = o.maxOps / 2 + 1;
	}
	p.ranks = eng::range(o.minRanks, o.maxRanks);
	p.threads = eng::range(o.minThreads, o.maxThreads);
	lib::need(p.ranks);
	// topology
	int nodes = eng::range(1, std::min(o.maxNodes, p.threads));
	static const int ids[] = { 0, 1, 3, 2, 7, 4, 12, 5, 9, 20 };
	const int cpus = wide ? 16 : 8;
	p.node.assign(cpus, 0);
	for (int c = 0; c < cpus; c++) p.node[c] = ids[c % nodes];
	p.cpu.assign(p.ranks, std::vector<int>(p.threads, 0));
	for (int t = 0; t < p.threads; t++) p.cpu[0][t] = t < nodes ? t : static_cast<int>(eng::pick(cpus));
	for (int t = p.threads - 1; t > 0; t--) std::swap(p.cpu[0][t], p.cpu[0][eng::pick(t + 1)]);
	for (int r = 1; r < p.ranks; r++) {
		p.cpu[r] = p.cpu[0];
		for (int t = p.threads - 1; t > 0; t--) std::swap(p.cpu[r][t], p.cpu[r][eng::pick(t + 1)]);
	}
	if (o.subComm && p.ranks > 1 && eng::chance(1, 3)) {
		int colors = p.ranks > 2 ? 1 + eng::pick(2) : 1;
		for (int r = 0; r < p.ranks; r++) { p.color.push_back(eng::pick(colors)); p.key.push_back(eng::pick(p.ranks)); }
		eng::label("communicator that is not the world");
	}
	int grids = 1 + (o.maxGrids > 1 && eng::chance(1, o.manyLevels ? 1 : 3) ? eng::pick(o.maxGrids) : 0);
	FileOpts fo = FileOpts::small(); fo.maxCells = o.maxCells; fo.maxDims = 3;
	if (o.longAxes) fo.longAxes = true;
	if (o.types) { fo.cheap = false; fo.largeValues = true; }
	// sometimes storages of more than 65535 bytes
	if (o.large && eng::chance(1, 40)) { fo.maxCells = 30000; fo.minAxis = 20; fo.minDims = 2; eng::label("large grid"); }
	for (int i = 0; i < grids; i++) {
		GridPlan g;
		g.spec = drawSpec(fo);
		std::vector<Mpi> kinds;
		if (p.ranks == 1) { kinds.push_back(M_NONE); if (o.mpiWindow) kinds.push_back(M_DEFAULT); }
		else {
			if (o.mpiWindow) { kinds.push_back(M_WINDOW); kinds.push_back(M_DEFAULT); }
			if (o.mpiThread) { kinds.push_back(M_THREAD); kinds.push_back(M_THREAD); }
			if (o.mpiOff) kinds.push_back(M_OFF);
			if (o.mpiNone) kinds.push_back(M_NONE);
		}
		g.mpi = kinds[eng::pick(kinds.size())];
		std::vector<std::string> numa = { "", "ON" };
		if (o.numaCache) { numa.push_back("CACHE"); if (nodes > 1 && o.full) numa.push_back("CACHE"); }
		if (o.numaOff) numa.push_back("OFF");
		g.numa = numa[eng::pick(numa.size())];
		if (o.mpiParams && g.mpi == M_NONE && eng::chance(1, 2)) { static const char* m[] = { "WINDOW", "THREAD", "OFF" }; g.mpiParam = m[eng::pick(3)]; eng::label("communication without communicator"); }
		g.vary = o.vary ? eng::chance(4, 5) : eng::chance(1, 5);
		g.late = eng::chance(1, 2);
		int levels = 1 + (o.maxLevels > 1 && eng::chance(1, o.manyLevels ? 1 : 3) ? eng::pick(o.maxLevels) : 0);
		for (int l = 0; l < levels; l++) {
			LevelPlan v;
			v.f = l == 0 ? drawFile(g.spec, fo) : drawSibling(g.lv[0].f, fo);
			bool cache = o.cache && (o.windowCache || p.ranks == 1 || (g.mpi != M_WINDOW && g.mpi != M_DEFAULT));
			if (l == 0) v.s = drawBlocks(v.f, o, o.full, cache, o.pass);
			else {
				v.s = drawBlocks(v.f, o, true, false, false);
				v.s.grid = g.lv[0].s.grid; v.s.timeDim = g.lv[0].s.timeDim; v.s.vertex = g.lv[0].s.vertex;
				if (o.exact && v.s.slots() < v.s.blocks(v.f)) v.s.cacheSize = 1;
			}
			if (o.badOpens) {
				int n = o.partial ? eng::pick(4) : eng::chance(1, 6) ? 1 : 0;
				while (n-- > 0) v.bad.push_back(drawBad(p, g, v, o.partial));
			}
			g.lv.push_back(v);
		}
		p.g.push_back(g);
	}
	// order of the opens
	std::vector<int> next(grids, 0);
	while (true) {
		std::vector<int> c;
		for (int i = 0; i < grids; i++) if (next[i] < static_cast<int>(p.g[i].lv.size())) c.push_back(i);
		if (c.empty()) break;
		int i = c[eng::pick(c.size())];
		p.phases.push_back(std::make_pair(i, next[i]++));
		p.gated.push_back(!o.ungated || eng::chance(1, 3));
	}
	int np = p.phases.size();
	for (int i = 0; i < grids; i++) {
		int last = 0;
		for (int ph = 0; ph < np; ph++) if (p.phases[ph].first == i) last = ph;
		p.g[i].closeAfter = eng::chance(1, 3) ? eng::range(last, np - 1) : np - 1;
	}
	for (int r = 0; r < p.ranks; r++) p.closer.push_back(eng::chance(1, 3) ? eng::pick(p.threads + 1) : 0);
	for (int ph = 1; ph < np; ph++) for (auto& g : p.g) if (g.closeAfter == ph - 1) p.gated[ph] = true;
	p.turns = o.turns && (!o.neverTurns || eng::chance(1, 2));
	p.ops.assign(p.ranks, std::vector<std::vector<std::vector<Op> > >(p.threads, std::vector<std::vector<Op> >(np)));
	p.order.resize(np);
	// operations
	std::vector<std::vector<std::map<std::pair<int, int>, std::shared_ptr<Walk> > > > walk(p.ranks);
	for (auto& w : walk) w.resize(p.threads);
	// some cells everybody reads
	std::map<std::pair<int, int>, std::vector<size_t> > hot;
	for (int i = 0; i < grids; i++) for (size_t l = 0; l < p.g[i].lv.size(); l++)
		for (int k = 0; k < 3; k++) hot[std::make_pair(i, l)].push_back(eng::pick(p.g[i].lv[l].f.cells()));
	auto drawOp = [&](int r, int t, int ph) {
		std::vector<std::pair<int, int> > open;
		for (int q = 0; q <= ph; q++) if (p.g[p.phases[q].first].closeAfter >= ph) open.push_back(p.phases[q]);
		Op op;
		auto gl = eng::chance(1, 2) ? p.phases[ph] : open[eng::pick(open.size())];
		op.g = gl.first; op.l = gl.second; op.kind = O_READ; op.r = 0; op.cell = 0;
		if (o.counterOps && eng::chance(1, 12)) { op.kind = O_COUNTER; op.r = eng::pick(7); }
		else if (o.metaOps && eng::chance(1, 12)) op.kind = O_META;
		else if (o.privateGrids && eng::chance(1, 10)) op.kind = O_PRIVATE;
		const File& f = p.g[op.g].lv[op.l].f;
		auto& w = walk[r][t][gl];
		if (!w) w = std::make_shared<Walk>(f);
		if (eng::chance(2, 5)) op.p = posOf(f, hot[gl][eng::pick(3)]);
		else op.p = w->next();
		op.cell = op.p.cells(f)[0];
		if (op.kind == O_READ) op.r = drawRead(f, op.p);
		p.ops[r][t][ph].push_back(op);
	};
	for (int ph = 0; ph < np; ph++) {
		if (p.turns) {
			int n = eng::pick(o.maxOps * p.ranks * p.threads / np + 1);
			for (int i = 0; i < n; i++) {
				int r = eng::pick(p.ranks), t = eng::pick(p.threads);
				p.order[ph].push_back(std::make_pair(r, t));
				drawOp(r, t, ph);
			}
		} else
			for (int r = 0; r < p.ranks; r++) for (int t = 0; t < p.threads; t++) {
				int n = eng::chance(1, 8) ? 0 : eng::pick(o.maxOps / np + 1);
				for (int i = 0; i < n; i++) drawOp(r, t, ph);
			}
	}
	p.commThread = p.threadComm() && !o.serialised && !o.noCommThread;	// (not available in serialised builds)
	p.stopComm = true; p.strict = o.strict; p.serialised = o.serialised;
	return p;
}

/** Model of the caches of one level (one operation at a time) */
struct CacheModel {
	std::map<std::pair<int, int>, std::set<size_t> > content;	// (rank, domain) -> blocks
	std::map<std::pair<int, size_t>, std::vector<std::pair<int, int> > > dict;	// (colour, block) -> most recent holders
};

struct Runner {
	const Program& p;
	Result& res;
	std::vector<std::vector<Grid*> > grid;	// [rank][grid]
	std::vector<MPI_Comm> comm;
	std::vector<Gate> rankGate;
	std::vector<std::vector<Gate> > phaseGate;
	Gate global, global2, global3;
	std::map<int, std::pair<int, int> > taskOf;
	size_t turn;
	std::vector<size_t> turnBase;
	std::vector<std::vector<CacheModel> > cache;	// [grid][level]
	std::vector<std::vector<bool> > exactLevel;
	std::vector<std::vector<Gate> > closeGate;	// [rank][grid]
	std::vector<std::vector<Gate> > closedGate;

	Runner(const Program& pp, Result& rr) : p(pp), res(rr), turn(0) {}

	int color(int r) const { return p.color.empty() ? 0 : p.color[r]; }
	const LevelPlan& lv(int g, int l) const { return p.g[g].lv[l]; }

	LoadCounter loadCounter;
	void drainReads(std::vector<sched::NcRead>& out)
	{
		out.swap(sched::nc.reads);
		sched::nc.reads.clear();
	}
	/** Attributes file accesses to levels; `g`,`l`: level being opened */
	void account(const std::vector<sched::NcRead>& v)
	{
		for (auto& x : v) {
			auto it = taskOf.find(x.task);
			if (it == taskOf.end()) {
				if (!x.start.empty()) { int t = x.task; (void) t; }
				continue;
			}
			if (opening.count(it->first) && opening[it->first].first < 0) continue;
			for (size_t g = 0; g < p.g.size(); g++) for (size_t l = 0; l < p.g[g].lv.size(); l++) {
				const File& f = lv(g, l).f;
				if (x.path != f.path || x.var != f.var) continue;
				if (x.start.size() != f.dims()) eng::fail("access-shape", "the variable was read with %zu dimensions", x.start.size());
				size_t b = lv(g, l).s.blockOf(f, f.cell(x.start.data()));
				if (!loadCounter.starts(x, f, lv(g, l).s)) continue;
				if (opening.count(it->first) && opening[it->first] == std::make_pair(static_cast<int>(g), static_cast<int>(l)))
					res.openLoads[g][l][b].push_back(std::make_pair(it->second.first, p.domainOf(p.g[g], it->second.first, it->second.second)));
				else
					res.loads[g][l][it->second.first][b]++;
			}
		}
	}
	std::map<int, std::pair<int, int> > opening;	// task -> level it opens

	void collect() { std::vector<sched::NcRead> v; drainReads(v); account(v); }

	void params(int r, int g, int l)
	{
		applyLevel(grid[r][g], lv(g, l).s, lv(g, l).f, l, p.g[g].vary);
	}

	void createAll(int r)
	{
		for (size_t i = 0; i < p.g.size(); i++) {
			const GridPlan& gp = p.g[i];
			Grid* g = createGrid(lib::of(r), gp.spec);
			grid[r][i] = g;
			if (p.threads > 1) { IN_LIB; g->setThreads(p.threads); }
			if (gp.mpi != M_NONE) {
				GError e;
				{ IN_LIB; e = g->setComm(comm[r]); }
				if (e != Grid::SUCCESS) eng::fail("set-comm", "setComm returned %s", lib::errName(e));
			}
			if (!gp.mpiParam.empty()) setParam(g, "MPI_COMMUNICATION", gp.mpiParam, 0, gp.vary);
			if (gp.mpi == M_WINDOW) setParam(g, "MPI_COMMUNICATION", "WINDOW", 0, gp.vary);
			if (gp.mpi == M_THREAD) setParam(g, "MPI_COMMUNICATION", "THREAD", 0, gp.vary);
			if (gp.mpi == M_OFF) setParam(g, "MPI_COMMUNICATION", "OFF", 0, gp.vary);
			if (!gp.numa.empty()) setParam(g, "NUMA_COMMUNICATION", gp.numa, 0, gp.vary);
			applyGrid(g, gp.st(), gp.vary);
			for (size_t l = 0; l < (gp.late ? 1 : gp.lv.size()); l++) params(r, i, l);
		}
	}

	/** Expected outcome in turn mode; updates the model */
	Outcome expected(int r, int t, const Op& op)
	{
		const GridPlan& gp = p.g[op.g];
		const LevelPlan& v = gp.lv[op.l];
		size_t b = v.s.blockOf(v.f, op.cell);
		int d = p.domainOf(gp, r, t);
		auto me = std::make_pair(r, d);
		CacheModel& m = cache[op.g][op.l];
		if (v.s.grid == "PASS_THROUGH") return FILE_LOAD;
		std::set<size_t>& mine = m.content[me];
		bool single = v.s.slots() < v.s.blocks(v.f);	// then one slot (or the model is not exact)
		auto numaHas = [&] {
			std::set<int> done;
			for (int o = 0; o < p.threads; o++) {
				int od = p.domainOf(gp, r, o);
				if (od == d || !done.insert(od).second) continue;
				if (m.content[std::make_pair(r, od)].count(b)) return true;
			}
			return false;
		};
		if (v.s.grid == "FULL") {
			std::pair<int, int> home = homeOf(op.g, op.l, b, r);
			if (home == me) return HIT;
			if (mine.count(b)) return HIT;
			Outcome o = home.first == r ? NUMA : (gp.numa == "CACHE" && numaHas() ? NUMA : MPI);
			if (single) mine.clear();
			mine.insert(b);
			return o;
		}
		if (mine.count(b)) return HIT;
		if (single && !mine.empty()) {
			auto& old = m.dict[std::make_pair(color(r), *mine.begin())];
			old.erase(std::remove(old.begin(), old.end(), me), old.end());
			mine.clear();
		}
		bool numa = numaHas();
		mine.insert(b);
		bool dist = p.distributed(gp, r);
		std::vector<std::pair<int, int> >& hold = m.dict[std::make_pair(color(r), b)];
		Outcome o = numa ? NUMA : dist && !hold.empty() ? MPI : FILE_LOAD;
		if (dist) { hold.insert(hold.begin(), me); if (hold.size() > 4) hold.pop_back(); }
		return o;
	}
	std::pair<int, int> homeOf(int g, int l, size_t b, int r)
	{
		auto& m = res.openLoads[g][l][b];
		// ranks which do not share a communicator load their own copies
		for (auto& h : m) {
			if (p.distributed(p.g[g], r) ? color(h.first) == color(r) : h.first == r) return h;
		}
		eng::fail("not-loaded", "grid %d level %d: block %zu of the fully loaded grid was not loaded", g, l, b);
	}

	void doOp(int r, int t, int ph, const Op& op)
	{
		Grid* g = grid[r][op.g];
		const LevelPlan& v = lv(op.g, op.l);
		char ctx[100];
		snprintf(ctx, sizeof ctx, "process %d thread %d grid %d: ", r, t, op.g);
		switch (op.kind) {
		case O_READ:
			res.reads[op.g][op.l][r]++;
			res.blocks[op.g][op.l][std::make_pair(r, p.domainOf(p.g[op.g], r, t))].insert(v.s.blockOf(v.f, op.cell));
			read(g, v.f, op.p, op.r, op.l, "value", ctx);
			ownReads[std::make_pair(std::make_pair(r, t), std::make_pair(op.g, op.l))]++;
			eng::stat("reads");
			break;
		case O_COUNTER: {
			unsigned long c = counter(g, COUNTERS[op.r], op.l);
			if (op.r == 0) {
				unsigned long own = ownReads[std::make_pair(std::make_pair(r, t), std::make_pair(op.g, op.l))];
				if (c < own || c > res.reads[op.g][op.l][r])
					eng::fail("counter-running", "%saccesses is %lu, this thread made %lu reads, all threads started %lu", ctx, c, own, res.reads[op.g][op.l][r]);
			}
			break;
		}
		case O_META:
			checkMeta(g, lv(op.g, 0).f, p.g[op.g].st().vertex, 0, "metadata");
			break;
		case O_PRIVATE: {
			// a grid of this thread only
			collect();
			opening[sched::self()] = std::make_pair(-1, -1);
			Grid* own = createGrid(lib::of(r), v.f.spec);
			applyGrid(own, v.s);
			applyLevel(own, v.s, v.f, 0);
			GError e = open(own, v.f.path, 0);
			if (e != Grid::SUCCESS) eng::fail("open-private", "open of a private grid returned %s", lib::errName(e));
			for (int i = 0; i < 2; i++) read(own, v.f, i ? posOf(v.f, 0) : op.p, op.kind == O_READ ? op.r : static_cast<int>(R_DOUBLE), 0, "value", "private grid: ");
			close(own);
			collect();
			opening.erase(sched::self());
			break;
		}
		}
		(void) ph;
	}
	std::map<std::pair<std::pair<int, int>, std::pair<int, int> >, unsigned long> ownReads;

	void turnOp(int r, int t, int ph, const Op& op)
	{
		const GridPlan& gp = p.g[op.g];
		sched::drain();
		collect();
		auto total = [&] { unsigned long n = 0; for (auto& x : res.loads[op.g][op.l]) for (auto& y : x) n += y.second; return n; };
		unsigned long before = total();
		doOp(r, t, ph, op);
		sched::drain();
		collect();
		unsigned long loaded = total() - before;
		if (op.kind != O_READ) {
			// nobody else is running
			return;
		}
		if (op.p.cells(gp.lv[op.l].f).size() > 1) {
			// midpoint: the block is not known for sure; the block sets of candidates may differ
			const LevelPlan& v = gp.lv[op.l];
			std::set<size_t> bs;
			for (size_t c : op.p.cells(v.f)) bs.insert(v.s.blockOf(v.f, c));
			if (bs.size() > 1) exactLevel[op.g][op.l] = false;
		}
		if (!exactLevel[op.g][op.l]) return;
		Outcome o = expected(r, t, op);
		res.expect[o][op.g][op.l][r]++;
		if (loaded != (o == FILE_LOAD ? 1u : 0u))
			eng::fail(loaded ? "file-instead" : "no-file", "process %d thread %d (domain %d) reads block %zu of grid %d level %d: %lu file accesses, expected %s",
				r, t, p.domainOf(gp, r, t), gp.lv[op.l].s.blockOf(gp.lv[op.l].f, op.cell), op.g, op.l, loaded,
				o == HIT ? "none (the block is local)" : o == NUMA ? "none (another domain of the process has the block)" : o == MPI ? "none (another process has the block)" : "one");
	}

	void thread(int r, int t)
	{
		if (t == 0) {
			if (!p.color.empty()) {
				global.meet(p.ranks);
				fmpi::HarnessScope hs;
				MPI_Comm_split(MPI_COMM_WORLD, p.color[r], p.key[r], &comm[r]);
				global2.meet(p.ranks);
			} else comm[r] = MPI_COMM_WORLD;
			if (p.commThread) {
				GError e;
				{ IN_LIB; e = lib::startCommThread(lib::of(r), -1, MPI_COMM_WORLD); }
				if (e != Grid::SUCCESS) eng::fail("start-comm", "startCommThread returned %s", lib::errName(e));
			}
			createAll(r);
		}
		rankGate[r].meet(p.threads);
		if (p.serialised && t == 0) fmpi::setSerialised(r, true);
		int np = p.phases.size();
		for (int ph = 0; ph < np; ph++) {
			int g = p.phases[ph].first, l = p.phases[ph].second;
			const LevelPlan& v = lv(g, l);
			if (p.gated[ph] || (l > 0 && p.g[g].late)) {
				phaseGate[r][ph].arrive();
				if (t == 0) {
					phaseGate[r][ph].wait(p.threads);
					if (l > 0 && p.g[g].late) params(r, g, l);
					phaseGate[r][ph].arrive();
				}
				phaseGate[r][ph].wait(p.threads + 1);
			}
			for (size_t i = 0; i < v.bad.size(); i++) {
				const BadKind* k = v.bad[i].who[r][t];
				GError e = open(grid[r][g], k ? eng::scratch() + "/" + k->path : v.f.path, l);
				std::set<int> allowed;
				for (int q = 0; q < p.ranks; q++) {
					if (q != r && (v.s.grid == "PASS_THROUGH" || !p.distributed(p.g[g], r) || color(q) != color(r))) continue;
					for (auto x : v.bad[i].who[q]) if (x) allowed.insert(x->error);
				}
				if (!allowed.count(e)) eng::fail("error-code", "process %d thread %d: an open with %s%s returned %s", r, t, k ? k->name : "the correct file", k ? "" : " that fails elsewhere", lib::errName(e));
				auto it = badResult.insert(std::make_pair(std::make_pair(std::make_pair(r, ph), i), e)).first;
				if (it->second != e) eng::fail("error-differs", "process %d thread %d: a failing open returned %s, in another thread %s", r, t, lib::errName(e), lib::errName(it->second));
			}
			collect();
			opening[sched::self()] = std::make_pair(g, l);
			GError e = open(grid[r][g], v.f.path, l);
			collect();
			opening.erase(sched::self());
			if (e != Grid::SUCCESS) eng::fail("open", "process %d thread %d: open of grid %d level %d returned %s", r, t, g, l, lib::errName(e));
			if (p.turns) {
				// everybody has opened
				sched::hbRelease(&turn);
				openCount[ph]++;
				sched::point("opened");
				sched::block([this, ph] { return openCount[ph] >= p.ranks * p.threads; }, "the other threads of the test program");
				size_t k = 0;
				for (size_t i = 0; i < p.order[ph].size(); i++) {
					if (p.order[ph][i] != std::make_pair(r, t)) continue;
					size_t at = turnBase[ph] + i;
					sched::block([this, at] { return turn == at; }, "its turn");
					sched::hbAcquire(&turn);
					turnOp(r, t, ph, p.ops[r][t][ph][k++]);
					sched::hbRelease(&turn);
					turn++;
				}
				size_t end = turnBase[ph] + p.order[ph].size();
				sched::block([this, end] { return turn >= end; }, "the end of the turns");
				sched::hbAcquire(&turn);
			} else
				for (auto& op : p.ops[r][t][ph]) doOp(r, t, ph, op);
			// closing
			for (size_t i = 0; i < p.g.size(); i++) {
				if (p.g[i].closeAfter != ph) continue;
				if (p.serialised) fmpi::setSerialised(r, false);	// (closing is left out)
				closeGate[r][i].arrive();
				int who = p.closer[r];
				if (t == who) {
					closeGate[r][i].wait(p.threads);
					finishGrid(r, i);
					closeGate[r][i].arrive();
				} else if (who == p.threads && t == 0) {
					// a thread that never opened the grid
					closeGate[r][i].wait(p.threads);
					sched::spawn(r, p.cpu[r][0], [this, r, i] { closeGate[r][i].wait(p.threads); finishGrid(r, i); closeGate[r][i].arrive(); });
					closeGate[r][i].wait(p.threads + 1);
				}
			}
		}
		if (t == 0) {
			for (auto& g : closeGate[r]) g.wait(p.threads + 1);
			if (p.commThread) { IN_LIB; lib::stopCommThread(lib::of(r)); }
			if (!p.color.empty()) {
				global3.meet(p.ranks);
				fmpi::HarnessScope hs;
				MPI_Comm_free(&comm[r]);
			}
		}
	}
	std::vector<int> openCount;
	std::map<std::pair<std::pair<int, int>, size_t>, GError> badResult;

	void finishGrid(int r, int i)
	{
		collect();
		Grid* g = grid[r][i];
		for (size_t l = 0; l < p.g[i].lv.size(); l++) {
			for (int k = 0; k < 7; k++) res.counters[i][l][r].push_back(counter(g, COUNTERS[k], l));
			for (const char* bad : { "unknown", "", "Accesses", "accesses " })
				if (unsigned long c = counter(g, bad, l)) eng::fail("counter-unknown", "counter '%s' is %lu", bad, c);
			// a second look shows the same
			for (int k = 0; k < 7; k++) if (counter(g, COUNTERS[k], l) != res.counters[i][l][r][k]) eng::fail("counter-changes", "asking for %s changes it", COUNTERS[k]);
		}
		close(g);
		grid[r][i] = 0;
	}

	void run()
	{
		grid.assign(p.ranks, std::vector<Grid*>(p.g.size(), nullptr));
		comm.assign(p.ranks, MPI_COMM_NULL);
		rankGate.resize(p.ranks);
		phaseGate.assign(p.ranks, std::vector<Gate>(p.phases.size()));
		closeGate.assign(p.ranks, std::vector<Gate>(p.g.size()));
		openCount.assign(p.phases.size(), 0);
		size_t base = 0;
		for (auto& o : p.order) { turnBase.push_back(base); base += o.size(); }
		res.exact = true;
		auto shape = [&](std::vector<std::vector<std::vector<unsigned long> > >& x) {
			x.clear();
			for (auto& g : p.g) x.push_back(std::vector<std::vector<unsigned long> >(g.lv.size(), std::vector<unsigned long>(p.ranks, 0)));
		};
		shape(res.reads);
		for (int i = 0; i < 4; i++) { shape(res.expect[i]); shape(res.outcome[i]); }
		res.counters.clear(); res.openLoads.clear(); res.loads.clear(); res.blocks.clear();
		for (auto& g : p.g) {
			size_t n = g.lv.size();
			res.counters.push_back(std::vector<std::vector<std::vector<unsigned long> > >(n, std::vector<std::vector<unsigned long> >(p.ranks)));
			res.openLoads.emplace_back(n);
			res.loads.push_back(std::vector<std::vector<std::map<size_t, int> > >(n, std::vector<std::map<size_t, int> >(p.ranks)));
			res.blocks.emplace_back(n);
			cache.emplace_back(n);
			std::vector<bool> ex;
			for (auto& v : g.lv) ex.push_back(p.turns && (v.s.cacheSize == 1 || v.s.slots() >= v.s.blocks(v.f)));
			exactLevel.push_back(ex);
		}
		world::begin(p.ranks);
		if (p.strict) fmpi::config.strict = true;
		sched::topo.nodeOfCpu = p.node; sched::topo.numCpus = p.node.size();
		for (int r = 0; r < p.ranks; r++)
			for (int t = 0; t < p.threads; t++) {
				int id = sched::spawn(r, p.cpu[r][t], [this, r, t] { thread(r, t); });
				taskOf[id] = std::make_pair(r, t);
			}
		sched::run();
		res.switches = sched::stats().switches; res.preempts = sched::stats().preempts;
		world::end();
		for (auto& x : exactLevel) for (bool b : x) if (!b) res.exact = false;
		levelExact = exactLevel;
	}
	std::vector<std::vector<bool> > levelExact;
};

static std::vector<std::vector<bool> > lastExact;

void run(const Program& p, Result& res, const std::function<void(int)>& afterClose)
{
	Runner r(p, res);
	r.run();
	lastExact = r.levelExact;
	if (afterClose) for (int i = 0; i < p.ranks; i++) afterClose(i);
}

void checkCounters(const Program& p, const Result& r)
{
	for (size_t g = 0; g < p.g.size(); g++) for (size_t l = 0; l < p.g[g].lv.size(); l++) for (int k = 0; k < p.ranks; k++) {
		const GridPlan& gp = p.g[g];
		const LevelPlan& v = gp.lv[l];
		const std::vector<unsigned long>& c = r.counters[g][l][k];
		char at[100]; snprintf(at, sizeof at, "process %d grid %zu level %zu", k, g, l);
		if (c[0] != r.reads[g][l][k]) eng::fail("counter-accesses", "%s: accesses is %lu after %lu reads", at, c[0], r.reads[g][l][k]);
		if (c[4] != c[0] - c[1] - c[2] - c[3]) eng::fail("counter-derived", "%s: local_hits is %lu, accesses %lu - %lu - %lu - %lu", at, c[4], c[0], c[1], c[2], c[3]);
		if (c[5] != c[0] - c[2] - c[3]) eng::fail("counter-derived", "%s: node_hits is %lu, accesses %lu - %lu - %lu", at, c[5], c[0], c[2], c[3]);
		if (c[6] != c[1] + c[2] + c[3]) eng::fail("counter-derived", "%s: local_misses is %lu, %lu + %lu + %lu", at, c[6], c[1], c[2], c[3]);
		if (c[1] + c[2] + c[3] > c[0]) eng::fail("counter-sum", "%s: more misses (%lu+%lu+%lu) than accesses (%lu)", at, c[1], c[2], c[3], c[0]);
		unsigned long loads = 0;
		for (auto& x : r.loads[g][l][k]) loads += x.second;
		if (c[3] != loads) eng::fail("counter-file", "%s: file_loads is %lu, %lu blocks were read from the file", at, c[3], loads);
		if (v.s.grid == "PASS_THROUGH" && c[3] != c[0]) eng::fail("counter-file", "%s: file_loads is %lu of %lu pass-through accesses", at, c[3], c[0]);
		bool dist = p.distributed(gp, k);
		if (!dist && c[2]) eng::fail("counter-mpi", "%s: mpi_transfers is %lu without communication", at, c[2]);
		if (p.gridDomains(gp, k) == 1 && c[1]) eng::fail("counter-numa", "%s: numa_transfers is %lu with one domain", at, c[1]);
		if (v.s.grid == "FULL" && c[3]) eng::fail("counter-file", "%s: file_loads is %lu in a fully loaded grid", at, c[3]);
		if (p.turns && lastExact[g][l]) {
			if (c[1] != r.expect[NUMA][g][l][k] || c[2] != r.expect[MPI][g][l][k] || c[3] != r.expect[FILE_LOAD][g][l][k])
				eng::fail("counter-transfers", "%s: numa/mpi/file counters are %lu/%lu/%lu, expected %lu/%lu/%lu", at, c[1], c[2], c[3],
					r.expect[NUMA][g][l][k], r.expect[MPI][g][l][k], r.expect[FILE_LOAD][g][l][k]);
		} else if (!p.turns && v.s.grid != "PASS_THROUGH" && v.s.slots() >= v.s.blocks(v.f)) {
			// nothing is ever evicted: every domain misses each block once
			unsigned long miss = 0, numa = 0;
			bool ambiguous = false;
			for (auto& db : r.blocks[g][l]) {
				if (db.first.first != k) continue;
				for (size_t b : db.second) {
					if (v.s.grid == "FULL") {
						std::pair<int, int> home(-1, -1);
						for (auto& h : r.openLoads[g][l].at(b))
							if (dist ? (p.color.empty() || p.color[h.first] == p.color[k]) : h.first == k) home = h;
						if (home == db.first) continue;
						if (home.first == k) numa++;
					}
					miss++;
				}
			}
			for (int t = 0; t < p.threads; t++) for (auto& ops : p.ops[k][t]) for (auto& op : ops)
				if (op.kind == O_READ && op.g == static_cast<int>(g) && op.l == static_cast<int>(l) && op.p.mid) ambiguous = true;
			if (ambiguous) continue;
			if (c[6] != miss) eng::fail("counter-misses", "%s: local_misses is %lu, the domains needed %lu foreign blocks", at, c[6], miss);
			if (v.s.grid == "FULL" && gp.numa != "CACHE" && c[1] != numa) eng::fail("counter-numa", "%s: numa_transfers is %lu, %lu blocks were taken from other domains of the process", at, c[1], numa);
		}
	}
}

}
