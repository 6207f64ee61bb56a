#include "world.h"

#include <cstring>

namespace world {

void begin(int ranks, bool plain, bool schedule)
{
	fmpi::Config c;
	if (plain) { c.ranks = ranks; c.eager = 0; c.lazyLock = c.strict = c.serialised = false; }
	else c = fmpi::drawConfig(ranks);
	fmpi::begin(c);
	sched::topo = sched::Topology();
	sched::topo.nodeOfCpu.assign(8, 0);
	sched::topo.cpuError = false; sched::topo.failCpuTask = -1; sched::topo.numCpus = 8;
	sched::topo.keyCreateFails = sched::topo.threadCreateFails = 0;
	sched::resetNc();
	lib::warnings();
	sched::Config s;
	if (plain || !schedule) { s.strategy = 0; s.syncDenom = 8; s.memPreempts = 0; s.memLogGap = 6; s.freezes = 0; s.spurious = false; }
	else s = sched::drawConfig();
	sched::begin(s);
}

void end() { sched::end(); }

void single(const std::function<void()>& fn)
{
	begin(1, true);
	sched::spawn(0, 0, fn);
	sched::run();
	end();
}

void Gate::arrive() { sched::hbRelease(this); m_count++; sched::point("harness gate"); }
void Gate::wait(int n)
{
	sched::block([this, n] { return m_count >= n; }, "another thread of the test program");
	sched::hbAcquire(this);
}

std::string spell(const std::string& s)
{
	std::string o = s;
	switch (eng::pick(5)) {
	case 0: break;
	case 1: for (char& c : o) c = tolower(c); break;
	case 2: for (char& c : o) { c = tolower(c); if (c == '_') c = '-'; } break;
	case 3: for (char& c : o) if (c == '_') c = '-'; break;
	default: for (char& c : o) { if (eng::pick(2)) c = tolower(c); if (c == '_' && eng::pick(2)) c = '-'; }
	}
	return o;
}

std::string Storage::describe(unsigned dims) const
{
	char b[300];
	std::string s = grid;
	for (unsigned d = 0; d < dims; d++) { snprintf(b, sizeof b, "%s%d", d ? "x" : " blocks ", block[d]); s += b; }
	snprintf(b, sizeof b, " time-dim %d cache %d spread %d%s", timeDim, cacheSize, spread, vertex ? " vertex-centred" : "");
	return s + b;
}

size_t Storage::blockSize(const model::File& f, unsigned d) const
{
	size_t n = f.user(d).n;
	size_t b;
	if (block[d] < 0) b = n;
	else if (block[d] > 0) b = block[d];
	else b = timeDim == static_cast<int>(d) ? 1 : 64;
	return std::min(b, n);
}

size_t Storage::blocks(const model::File& f) const
{
	size_t r = 1;
	for (unsigned d = 0; d < f.dims(); d++) r *= (f.user(d).n + blockSize(f, d) - 1) / blockSize(f, d);
	return r;
}

size_t Storage::blockOf(const model::File& f, size_t cell) const
{
	size_t id = 0, mul = 1;
	for (unsigned d = 0; d < f.dims(); d++) {
		size_t n = f.user(d).n, i = cell % n, b = blockSize(f, d);
		cell /= n;
		id += (i / b) * mul;
		mul *= (n + b - 1) / b;
	}
	return id;
}

void blockBox(const model::File& f, const Storage& s, size_t cell, std::vector<size_t>& start, std::vector<size_t>& count)
{
	unsigned n = f.dims();
	start.assign(n, 0); count.assign(n, 1);
	for (unsigned d = 0; d < n; d++) {
		size_t an = f.user(d).n, i = cell % an, b = s.blockSize(f, d);
		cell /= an;
		start[n-1-d] = i / b * b;
		count[n-1-d] = std::min(b, an - i / b * b);
	}
}

bool LoadCounter::starts(const sched::NcRead& x, const model::File& f, const Storage& s)
{
	if (s.grid == "PASS_THROUGH") return true;
	std::vector<size_t> st, ct;
	size_t cell = f.cell(x.start.data()), size = 1, all = 1;
	blockBox(f, s, cell, st, ct);
	bool inside = true;
	for (size_t d = 0; d < st.size(); d++) {
		if (x.start[d] < st[d] || x.start[d] + x.count[d] > st[d] + ct[d]) inside = false;
		size *= x.count[d]; all *= ct[d];
	}
	size_t b = s.blockOf(f, cell);
	auto it = open.find(x.task);
	if (it != open.end() && inside && it->second.path == x.path && it->second.var == x.var && it->second.block == b && size <= it->second.missing) {
		bool other = true;
		for (auto& q : it->second.parts) {
			bool apart = false;
			for (size_t d = 0; d < st.size(); d++) if (x.start[d] + x.count[d] <= q.start[d] || q.start[d] + q.count[d] <= x.start[d]) apart = true;
			if (!apart) other = false;
		}
		if (other) {
			it->second.parts.push_back(x);
			it->second.missing -= size;
			if (!it->second.missing) open.erase(it);
			return false;
		}
	}
	if (it != open.end()) open.erase(it);
	if (inside && size && size < all) {
		Open o; o.path = x.path; o.var = x.var; o.block = b; o.missing = all - size; o.parts.push_back(x);
		open[x.task] = o;
	}
	return true;
}

std::vector<sched::NcRead> wholeLoads(const std::vector<sched::NcRead>& v, const model::File& f, const Storage& s)
{
	LoadCounter c;
	std::vector<sched::NcRead> r;
	for (auto& x : v) {
		if (x.path != f.path || x.var != f.var || x.start.size() != f.dims()) continue;
		if (c.starts(x, f, s)) { r.push_back(x); continue; }
		for (size_t i = r.size(); i-- > 0; ) if (r[i].task == x.task) {
			for (size_t d = 0; d < x.start.size(); d++) {
				size_t e = std::max(r[i].start[d] + r[i].count[d], x.start[d] + x.count[d]);
				r[i].start[d] = std::min(r[i].start[d], x.start[d]);
				r[i].count[d] = e - r[i].start[d];
			}
			break;
		}
	}
	return r;
}

Storage drawStorage(const model::File& f, const StorageOpts& o)
{
	Storage s;
	std::vector<const char*> kinds;
	if (o.full) kinds.push_back("FULL");
	if (o.cache) { kinds.push_back("CACHE"); kinds.push_back("CACHE"); }
	if (o.passThrough) kinds.push_back("PASS_THROUGH");
	s.grid = kinds[eng::pick(kinds.size())];
	for (int d = 0; d < model::MAXD; d++) s.block[d] = 0;
	for (int d = 0; d < model::maxDims; d++) {
		static const int bs[] = { 0, 1, 2, 3, 5, 7, 4, 16, -1, 64, 100 };
		s.block[d] = bs[eng::pick(11)];
		if (d < static_cast<int>(f.dims()) && s.block[d] == 0 && eng::chance(1, 3)) s.block[d] = 2;
	}
	s.timeDim = eng::chance(1, 4) ? static_cast<int>(eng::pick(model::maxDims + 1)) : -1;
	static const int cs[] = { 2, 1, 3, 4, 0, 8, 17 };
	s.cacheSize = cs[eng::pick(7)];
	// values that do not fit into small numbers
	if (eng::chance(1, 60)) { static const int big[] = { 256, 257, 300, 65536, 65537 }; int c = big[eng::pick(5)]; if (c * f.cells() * f.valueSize() < 4000000) s.cacheSize = c; }
	if (eng::chance(1, 30)) { static const int big[] = { 256, 65536, 65537, 1000000, 2147483647 }; s.block[eng::pick(model::maxDims)] = big[eng::pick(5)]; }
	if (s.cacheSize && s.cacheSize < o.minCache) s.cacheSize = o.minCache + s.cacheSize - 1;
	static const int sp[] = { -1, 0, 1, 2, 3, 5, 8, 100, -2, 65536, 1000000 };
	s.spread = sp[eng::pick(11)];
	s.vertex = eng::chance(1, 4);
	return s;
}

void setParam(Grid* g, const std::string& name, const std::string& value, unsigned level, bool vary)
{
	std::string n = vary ? spell(name) : name;
	// exact-size heap copies
	char* a = strdup(n.c_str()); char* b = strdup(value.c_str());
	{ IN_LIB; g->setParam(a, b, level); }
	free(a); free(b);
}

static std::string val(const std::string& v, bool vary) { return vary ? spell(v) : v; }

void applyGrid(Grid* g, const Storage& s, bool vary)
{
	if (s.grid != "FULL" || eng::chance(1, 2)) setParam(g, "GRID", val(s.grid, vary), 0, vary);
	if (s.vertex) setParam(g, "VALUE_POSITION", val("VERTEX_CENTERED", vary), 0, vary);
	if (s.timeDim >= 0) setParam(g, "TIME_DIMENSION", std::to_string(s.timeDim), 0, vary);
}

void applyLevel(Grid* g, const Storage& s, const model::File& f, unsigned level, bool vary)
{
	if (f.var != "z" || eng::chance(1, 4)) setParam(g, "VARIABLE", f.var, level, vary);
	for (int d = 0; d < model::maxDims; d++)
		if (s.block[d]) setParam(g, "BLOCK_SIZE_" + std::to_string(d), std::to_string(s.block[d]), level, vary);
	if (s.cacheSize) setParam(g, "CACHE_SIZE", std::to_string(s.cacheSize), level, vary);
	if (s.spread != -1) setParam(g, "CACHE_HAND_SPREAD", std::to_string(s.spread), level, vary);
}

GError open(Grid* g, const std::string& file, unsigned level)
{
	char* a = strdup(file.c_str());
	GError e;
	{ IN_LIB; e = g->open(a, level); }
	free(a);
	return e;
}
unsigned long counter(Grid* g, const char* name, unsigned level) { IN_LIB; return g->getCounter(name, level); }
void close(Grid* g) { IN_LIB; Grid::close(g); }

Walk::Walk(const model::File& file) : f(&file), sequential(eng::chance(1, 3)), at(eng::pick(file.cells())), plainOnly(false) {}

model::Pos Walk::next()
{
	if (sequential) return model::posOf(*f, at++ % f->cells());
	if (!recent.empty() && eng::chance(1, 3)) return recent[eng::pick(recent.size())];
	model::Pos p = plainOnly || eng::chance(1, 2) ? model::posOf(*f, eng::pick(f->cells())) : model::drawPos(*f);
	if (recent.size() < 8) recent.push_back(p); else recent[eng::pick(8)] = p;
	return p;
}

}
