// C01-C07: one process, one thread
#include "world.h"

#include <cmath>
#include <cstring>
#include <fcntl.h>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace model;
using namespace world;

static const double INF = std::numeric_limits<double>::infinity();

static Grid* openOk(const File& f, const Storage& s, const char* key)
{
	Grid* g = createGrid(lib::of(0), f.spec);
	applyGrid(g, s);
	applyLevel(g, s, f, 0);
	GError e = open(g, f.path, 0);
	if (e != Grid::SUCCESS) eng::fail(key, "open returned %s\n%s\n%s", lib::errName(e), f.describe().c_str(), s.describe(f.dims()).c_str());
	return g;
}

// ---------------------------------------------------------------- C01
// Grids that are too large to be written completely: a sparse file with a few values
static bool huge()
{
	static const size_t lens[][4] = { { 4294967301ul }, { 2147483658ul }, { 70000, 70000 }, { 65537, 65537 }, { 3, 2147483650ul }, { 2147483650ul, 2 }, { 4294967298ul, 3 },
		{ 2000, 2000, 1500 }, { 1291, 1291, 1292, 3 }, { 5, 70000, 70000 }, { 300000 }, { 300, 300, 300, 300 } };
	size_t n[4] = { 1, 1, 1, 1 };
	uint32_t shape = eng::pick(12);
	int dims = 0;
	while (dims < 4 && lens[shape][dims]) { n[dims] = lens[shape][dims]; dims++; }
	bool dbl = eng::chance(1, 4);
	static const char* kinds[] = { "CACHE", "PASS_THROUGH" };
	std::string kind = kinds[eng::pick(2)];
	std::string path = eng::scratch() + "/huge.nc";
	// cells: corners, borders of the integer types
	std::map<std::vector<size_t>, int> val;
	std::vector<std::vector<size_t> > cells;
	for (int i = 0; i < 10; i++) {
		std::vector<size_t> c(dims);
		for (int d = 0; d < dims; d++) {
			static const size_t edge[] = { 0, 1, 32767, 32768, 65535, 65536, 2147483647ul, 2147483648ul, 4294967295ul, 4294967296ul };
			switch (eng::pick(4)) {
			case 0: c[d] = n[d] - 1 - std::min<size_t>(n[d] - 1, eng::pick(3)); break;
			case 1: c[d] = std::min(n[d] - 1, edge[eng::pick(10)]); break;
			case 2: c[d] = (static_cast<size_t>(eng::pick(0x7fffffff)) * 7 + eng::pick(1000)) % n[d]; break;
			default: c[d] = std::min<size_t>(n[d] - 1, eng::pick(70)); break;
			}
		}
		cells.push_back(c);
		val[c] = 1 + i;
	}
	int id, v, dim[4];
	#define NCX(x) do { int e_ = (x); if (e_ != NC_NOERR) { fprintf(stderr, "harness: %s: %s\n", #x, nc_strerror(e_)); _exit(77); } } while (0)
	NCX(nc_create(path.c_str(), NC_CLOBBER | NC_64BIT_DATA, &id));
	int old; NCX(nc_set_fill(id, NC_NOFILL, &old));
	for (int i = 0; i < dims; i++) NCX(nc_def_dim(id, ("d" + std::to_string(i)).c_str(), n[i], &dim[i]));
	NCX(nc_def_var(id, "z", dbl ? NC_DOUBLE : NC_BYTE, dims, dim, &v));
	NCX(nc_enddef(id));
	for (auto& c : val) { double x = c.second; NCX(nc_put_var1_double(id, v, c.first.data(), &x)); }
	NCX(nc_close(id));
	int block = 1 + eng::pick(3) * (dims == 1 ? 30 : 5), cache = 1 + eng::pick(12);
	eng::note("%s grid of %s, %zu x %zu x %zu x %zu cells (file order), blocks of %d, cache of %d\n", kind.c_str(), dbl ? "double" : "byte", n[0], n[1], n[2], n[3], block, cache);
	single([&] {
		Grid* g;
		{ IN_LIB; g = lib::create(lib::of(0), dbl ? Grid::DOUBLE : Grid::INT, false); }
		setParam(g, "GRID", kind, 0);
		for (int d = 0; d < dims; d++) setParam(g, "BLOCK_SIZE_" + std::to_string(d), std::to_string(block), 0);
		setParam(g, "CACHE_SIZE", std::to_string(cache), 0);
		GError e = open(g, path, 0);
		if (e != Grid::SUCCESS) eng::fail("open", "open of a large grid returned %s", lib::errName(e));
		for (int d = 0; d < dims; d++) {
			double mx; { IN_LIB; mx = g->getMax(d); }
			double want = n[dims-1-d] == 1 ? INF : n[dims-1-d] - 0.5;
			if (std::fabs(mx - want) > 1e-6 && mx != want) eng::fail("metadata", "maximum of dimension %d is %.17g, should be %.17g", d, mx, want);
		}
		for (int i = 0; i < 40; i++) {
			std::vector<size_t> c = cells[eng::pick(cells.size())];
			double x[4]; std::string pos;
			for (int d = 0; d < dims; d++) {
				if (eng::chance(1, 6)) c[d] = std::min(n[d] - 1, c[d] + 1);
				else if (c[d] > 0 && eng::chance(1, 6)) c[d]--;
			}
			for (int d = 0; d < dims; d++) {
				size_t k = c[dims-1-d], m = n[dims-1-d];
				static const double fr[] = { 0, 0.25, -0.25, 0.4, -0.4 };
				x[d] = k + fr[eng::pick(5)];
				if (k == m - 1 && eng::chance(1, 4)) { static const double far[] = { 1, 1e10, 1e19, 1e300, INF }; x[d] = k + far[eng::pick(5)]; }
				if (k == 0 && eng::chance(1, 4)) { static const double far[] = { 1, 1e10, 1e19, 1e300, INF }; x[d] = -far[eng::pick(5)]; }
				pos += " " + std::to_string(x[d]);
			}
			auto it = val.find(c);
			int want = it == val.end() ? 0 : it->second;
			double got; { IN_LIB; got = g->getDouble(x, 0); }
			if (got != want) eng::fail("value", "value at%s is %g, should be %d", pos.c_str(), got, want);
			eng::stat("reads");
		}
		close(g);
	});
	unlink(path.c_str());
	eng::label("large sparse grid");
	return true;
}

void runC01()
{
	if (eng::chance(1, 24)) { huge(); eng::nontrivial(); return; }
	FileOpts o; o.constants = true; o.longAxes = true;
	File f = drawFile(drawSpec(o), o);
	Storage s = drawStorage(f);
	eng::note("%s\n%s\n", f.describe().c_str(), s.describe(f.dims()).c_str());
	single([&] {
		Grid* g = openOk(f, s, "open");
		bool off = false;
		if (f.cells() <= 150 && eng::chance(1, 3)) {
			for (size_t c = 0; c < f.cells(); c++) read(g, f, posOf(f, c), R_DOUBLE, 0, "value");
			eng::label("all cells");
		}
		int n = 4 + eng::pick(40);
		for (int i = 0; i < n; i++) {
			Pos p = drawPos(f);
			if (i < 6) eng::note("read %s%s%s\n", p.describe(f.dims()).c_str(), p.outside ? " outside" : "", p.mid ? " midpoint" : "");
			int r = drawRead(f, p);
			if (p.outside) { eng::label("outside"); off = true; }
			if (p.inf) eng::label("infinite");
			if (p.mid) eng::label("midpoint");
			if (!p.outside) eng::label("inside");
			for (unsigned d = 0; d < f.dims(); d++) {
				if (f.user(d).n > 255) eng::label("hundreds of points in a dimension");
				if (f.user(d).n == 1) eng::label(std::isinf(p.x[d]) ? "one-point dimension, infinite" : "one-point dimension");
				else if (f.user(d).var && f.user(d).step < 0) eng::label("descending");
				else if (f.user(d).constant()) eng::label("constant coordinates");
				else if (!f.user(d).var) eng::label("no coordinate variable");
			}
			read(g, f, p, r, 0, "value");
			eng::stat("reads");
		}
		if (f.dims() > 1) eng::label("more than one dimension");
		if (off && f.cells() > 1) eng::nontrivial();
		close(g);
	});
}

// ---------------------------------------------------------------- C02
void runC02()
{
	if (eng::chance(1, 24)) { huge(); eng::nontrivial(); return; }
	FileOpts o = FileOpts::small(); o.maxCells = 900; o.longAxes = o.largeValues = true;
	File f = drawFile(drawSpec(o), o);
	int k = 2 + eng::pick(3);
	std::vector<Storage> st;
	for (int i = 0; i < k; i++) { st.push_back(drawStorage(f)); st.back().vertex = st[0].vertex; }
	eng::note("%s\n", f.describe().c_str());
	for (auto& s : st) eng::note("%s\n", s.describe(f.dims()).c_str());
	single([&] {
		std::vector<Grid*> g;
		for (auto& s : st) g.push_back(openOk(f, s, "open"));
		Walk w(f);
		int n = 10 + eng::pick(150);
		std::vector<std::set<size_t> > seen(k);
		for (int i = 0; i < n; i++) {
			Pos p = w.next();
			int r = drawRead(f, p);
			std::vector<unsigned char> first;
			std::vector<size_t> cells = p.cells(f);
			for (int j = 0; j < k; j++) {
				std::vector<unsigned char> v = readRaw(g[j], f, p, r, 0);
				bool ok = false;
				for (size_t c : cells) if (matches(f, c, r, v)) ok = true;
				if (!ok) read(g[j], f, p, r, 0, "value", (st[j].describe(f.dims()) + ": ").c_str());
				if (!ok) eng::fail("unstable", "reading %s again gives another value\n%s", p.describe(f.dims()).c_str(), st[j].describe(f.dims()).c_str());
				if (r == R_BUF) for (size_t b = 0; b < v.size(); b++) if (f.spec.kind != Spec::BASIC && !f.cover[b]) v[b] = 0;
				if (j == 0) first = v;
				else if (v != first)
					eng::fail("differs", "%s at %s: %s from [%s], %s from [%s]\n%s", readName(r), p.describe(f.dims()).c_str(), hex(first).c_str(), st[0].describe(f.dims()).c_str(),
						hex(v).c_str(), st[j].describe(f.dims()).c_str(), f.describe().c_str());
				seen[j].insert(st[j].blockOf(f, cells[0]));
			}
			eng::stat("reads");
		}
		bool evict = false, mixed = false;
		for (int j = 0; j < k; j++) {
			if (st[j].grid == "CACHE" && seen[j].size() > st[j].slots()) evict = true;
			if (st[j].grid != st[0].grid) mixed = true;
			if (st[j].timeDim >= 0 && st[j].timeDim < static_cast<int>(f.dims())) eng::label("time dimension");
			eng::label(st[j].grid.c_str());
		}
		if (evict) eng::label("cache eviction");
		if (mixed) eng::label("different grid types");
		if (mixed && evict) eng::nontrivial();
		for (Grid* x : g) close(x);
	});
}

// ---------------------------------------------------------------- C03
void runC03()
{
	FileOpts o; o.cheap = false; o.maxCells = 120; o.maxDims = 3; o.largeValues = true;
	File f = drawFile(drawSpec(o), o);
	Storage s = drawStorage(f);
	eng::note("%s\n%s\n", f.describe().c_str(), s.describe(f.dims()).c_str());
	single([&] {
		Grid* g = openOk(f, s, "open");
		unsigned size; { IN_LIB; size = g->getVarSize(); }
		if (size != f.valueSize()) eng::fail("size", "getVarSize() = %u, expected %zu\n%s", size, f.valueSize(), f.describe().c_str());
		bool conv = f.spec.kind != Spec::BASIC;
		int n = 6 + eng::pick(30);
		for (int i = 0; i < n; i++) {
			Pos p = posOf(f, eng::pick(f.cells()));
			int r = eng::pick(6);
			if (!readable(f, p.cells(f), r)) r = eng::pick(2) ? R_BUF : R_DOUBLE;
			static const int own[] = { R_BYTE, R_INT, R_LONG, R_FLOAT, R_DOUBLE };
			if (r != R_BUF && own[f.spec.elem] != r) conv = true;
			char l[64]; snprintf(l, sizeof l, "%s from %s", readName(r), f.spec.kind == Spec::BASIC ? typeName(f.spec.elem) : f.spec.kind == Spec::ARRAY ? "array" : "struct");
			eng::label(l);
			read(g, f, p, r, 0, "value");
			eng::stat("reads");
		}
		if (f.compound) eng::label("compound");
		if (f.elemSize > 255) eng::label(f.elemSize > 65535 ? "values of more than 65535 bytes" : "values of more than 255 bytes");
		if (f.spec.kind == Spec::ARRAY) eng::label(f.elemSize > sizeOf(f.spec.elem) ? "array with several elements" : "array with one element");
		if (conv) eng::nontrivial();
		close(g);
	});
}

// ---------------------------------------------------------------- C04
void runC04()
{
	FileOpts o = FileOpts::small(); o.longAxes = true;
	o.constants = false;
	File f = drawFile(drawSpec(o), o);
	if (eng::chance(1, 4)) {
		// larger offsets
		for (auto& a : f.axes) if (a.var && a.ctype == NC_DOUBLE) a.first = (eng::range(0, 20000) - 10000) * a.step;
		finish(f);
	}
	Storage s = drawStorage(f);
	s.vertex = eng::chance(1, 2);
	eng::note("%s\n%s\n", f.describe().c_str(), s.describe(f.dims()).c_str());
	single([&] {
		Grid* g = openOk(f, s, "open");
		checkMeta(g, f, s.vertex, 0, "metadata");
		eng::label(s.vertex ? "vertex-centred" : "cell-centred");
		bool interesting = f.dims() > 1;
		bool fine = true;	// the margin of the range is larger than the rounding of the coordinates
		for (auto& a : f.axes) if (a.n > 1 && a.step != 0 && std::fabs(a.first / a.step) > 1e4) fine = false;
		// corners and random points of the reported range
		for (int k = 0; k < 6; k++) {
			Pos p;
			for (int i = 0; i < MAXD; i++) p.x[i] = 0;
			for (unsigned d = 0; d < f.dims(); d++) {
				double mn, mx; { IN_LIB; mn = g->getMin(d); mx = g->getMax(d); }
				if (std::isinf(mn)) { p.x[d] = k & 1 ? INF : k & 2 ? -INF : k; continue; }
				uint32_t w = eng::pick(4);
				p.x[d] = w == 0 ? mn : w == 1 ? mx : mn + (mx - mn) * eng::pick(1025) / 1024.;
				if (p.x[d] > mx) p.x[d] = mx;
			}
			classify(f, p);
			lib::warnings();
			read(g, f, p, R_DOUBLE, 0, "value");
			unsigned long w = lib::warnings();
			if (w && fine) eng::fail("moved", "coordinate %s is inside the reported range but the library moved it to the border\n%s", p.describe(f.dims()).c_str(), f.describe().c_str());
		}
		for (auto& a : f.axes) {
			if (a.n == 1) eng::label("one-point dimension");
			else if (a.var && a.step < 0) { eng::label("descending"); interesting = true; }
		}
		if (interesting) eng::nontrivial();
		close(g);
	});
}

// ---------------------------------------------------------------- C05
namespace {
struct Opened { File f; Storage s; bool open; unsigned long reads; };
struct G5 { Grid* g; Storage gs; Spec spec; std::map<unsigned, Opened> levels; std::vector<File> planned; };
}
static std::string uniquePath() { static unsigned n = 0; return eng::scratch() + "/u" + std::to_string(n++ % 64) + ".nc"; }

void runC05()
{
	FileOpts o = FileOpts::small(); o.maxCells = 150;
	single([&] {
		std::vector<G5> gs;
		int ops = 10 + eng::pick(60), closed = 0;
		bool lateOpen = false;
		auto verify = [&](G5& x, unsigned lvl) {
			Opened& l = x.levels[lvl];
			Pos p = eng::chance(1, 2) ? posOf(l.f, eng::pick(l.f.cells())) : drawPos(l.f);
			read(x.g, l.f, p, drawRead(l.f, p), lvl, "value");
			l.reads++;
			eng::stat("reads");
		};
		for (int i = 0; i < ops; i++) {
			uint32_t op = eng::pick(12);
			if (gs.empty() || (op == 0 && gs.size() < 3)) {
				G5 x;
				x.spec = drawSpec(o);
				File f = drawFile(x.spec, o);
				f.path = uniquePath(); model::write(f);
				x.gs = drawStorage(f);
				x.planned.push_back(f);
				int lv = eng::pick(4);
				if (eng::chance(1, 40)) { lv = 4 + eng::pick(20); eng::label("more than four levels"); }
				for (int k = 0; k < lv; k++) { File b = drawSibling(f, o); b.path = uniquePath(); model::write(b); x.planned.push_back(b); }
				x.g = createGrid(lib::of(0), x.spec);
				applyGrid(x.g, x.gs);
				gs.push_back(x);
				eng::note("grid %zu: create %s\n", gs.size() - 1, x.gs.describe(f.dims()).c_str());
				continue;
			}
			G5& x = gs[eng::pick(gs.size())];
			if (op <= 3 && x.levels.size() < x.planned.size()) {
				// open one of the levels that are not open yet
				std::vector<unsigned> c;
				for (unsigned k = 0; k < x.planned.size(); k++) if (!x.levels.count(k)) c.push_back(k);
				unsigned lvl = c[eng::pick(c.size())];
				Opened n; n.f = x.planned[lvl]; n.s = drawStorage(n.f); n.s.grid = x.gs.grid; n.s.timeDim = x.gs.timeDim; n.s.vertex = x.gs.vertex; n.reads = 0; n.open = true;
				applyLevel(x.g, n.s, n.f, lvl);
				eng::note("grid %ld: open level %u: %s\n", &x - gs.data(), lvl, n.f.describe().c_str());
				for (auto& e : x.levels) if (e.second.reads) lateOpen = true;
				for (auto& e : x.levels) if (e.first > lvl) eng::label("levels opened out of order");
				GError e = open(x.g, n.f.path, lvl);
				if (e != Grid::SUCCESS) eng::fail("open", "open of level %u returned %s\n%s", lvl, lib::errName(e), n.f.describe().c_str());
				x.levels[lvl] = n;
				if (lvl == 0) checkMeta(x.g, n.f, x.gs.vertex, 0, "metadata");
				continue;
			}
			if (op == 4 && gs.size() > 1 && eng::chance(1, 2)) {
				size_t k = &x - gs.data();
				close(x.g);
				gs.erase(gs.begin() + k);
				eng::note("grid %zu: close\n", k);
				closed++;
				continue;
			}
			if (x.levels.empty()) continue;
			auto it = x.levels.begin();
			std::advance(it, eng::pick(x.levels.size()));
			if (op == 5) {
				for (auto& e : x.levels) {
					unsigned long c = counter(x.g, "accesses", e.first);
					if (c != e.second.reads) eng::fail("counter", "level %u: %lu accesses counted, %lu reads made", e.first, c, e.second.reads);
					for (unsigned d = 0; d < e.second.f.dims(); d++) {
						if (e.second.f.user(d).n == 1) continue;
						double dl, sc = std::fabs(e.second.f.user(d).scaling());
						{ IN_LIB; dl = x.g->getDelta(d, e.first); }
						if (std::fabs(dl - sc) > 1e-8 * sc) eng::fail("delta", "level %u: getDelta(%u) = %g, the file has %g", e.first, d, dl, sc);
					}
				}
				continue;
			}
			int n = 1 + eng::pick(6);
			for (int k = 0; k < n; k++) verify(x, it->first);
		}
		for (auto& x : gs) for (auto& e : x.levels) for (int k = 0; k < 3; k++) verify(x, e.first);
		bool several = false;
		for (auto& x : gs) {
			if (x.levels.size() > 1) several = true;
			for (auto& e : x.levels) {
				unsigned long c = counter(x.g, "accesses", e.first);
				if (c != e.second.reads) eng::fail("counter", "level %u: %lu accesses counted, %lu reads made", e.first, c, e.second.reads);
			}
		}
		if (several) eng::label("several levels");
		if (lateOpen) eng::label("level opened after reads of another one");
		if (gs.size() > 1 || closed) eng::label("several grids");
		if (closed) eng::label("a grid closed before others are read");
		if (lateOpen || closed) eng::nontrivial();
		while (!gs.empty()) { size_t k = eng::pick(gs.size()); close(gs[k].g); gs.erase(gs.begin() + k); }
	});
}

// ---------------------------------------------------------------- C06
namespace {

/** What libnetcdf says about a damaged file (asked in a child process: it may crash or hang itself) */
enum Probe { P_SKIP, P_NOTOPEN, P_NOVAR, P_DIMS, P_OK };
struct ProbeResult { int what; unsigned dims; size_t n[MAXD + 4]; size_t size; };

ProbeResult probe(const std::string& path, const std::string& var)
{
	ProbeResult res; memset(&res, 0, sizeof res);
	int fd[2];
	if (pipe(fd) != 0) return res;
	pid_t pid = fork();
	if (pid == 0) {
		ProbeResult r; memset(&r, 0, sizeof r);
		alarm(5);
		int null = ::open("/dev/null", O_WRONLY); dup2(null, 2);
		int id, v, nd = 0;
		if (nc_open(path.c_str(), NC_NOWRITE, &id) != NC_NOERR) r.what = P_NOTOPEN;
		else if (nc_inq_varid(id, var.c_str(), &v) != NC_NOERR) r.what = P_NOVAR;
		else if (nc_inq_varndims(id, v, &nd) != NC_NOERR) r.what = P_SKIP;
		else if (nd > maxDims || nd < 1) r.what = P_DIMS;
		else {
			int d[MAXD + 4]; nc_type t; size_t total = 1;
			r.what = P_OK; r.dims = nd;
			nc_inq_vardimid(id, v, d);
			for (int i = 0; i < nd; i++) {
				char name[NC_MAX_NAME + 1];
				if (nc_inq_dim(id, d[i], name, &r.n[i]) != NC_NOERR) r.what = P_SKIP;
				if (r.n[i] > 100000) r.what = P_SKIP; else total *= r.n[i];
				if (total > 100000) r.what = P_SKIP;
				int cv;
				if (nc_inq_varid(id, name, &cv) == NC_NOERR && r.what == P_OK && r.n[i] > 0) {
					double x[2]; size_t z[NC_MAX_VAR_DIMS]; memset(z, 0, sizeof z);
					nc_get_var1_double(id, cv, z, x); z[0] = r.n[i] - 1; nc_get_var1_double(id, cv, z, x);
				}
			}
			if (nc_inq_vartype(id, v, &t) != NC_NOERR || nc_inq_type(id, t, 0, &r.size) != NC_NOERR || r.size == 0 || r.size > 1000) r.what = P_SKIP;
			if (r.what == P_OK && total > 0) {
				std::vector<char> buf(total * (r.size > 16 ? r.size : 16));
				size_t z[MAXD + 4] = { 0 };
				nc_get_vara(id, v, z, r.n, buf.data());
				int ud, vn; nc_inq_unlimdim(id, &ud);
				nc_inq_nvars(id, &vn);
				ptrdiff_t im[8]; im[nd - 1] = 1;
				for (int i = nd - 2; i >= 0; i--) im[i] = im[i+1] * r.n[i+1];
				std::vector<double> db(total);
				nc_get_varm_double(id, v, z, r.n, 0, im, db.data());
				size_t one[8] = { 1, 1, 1, 1, 1, 1, 1, 1 };
				nc_get_varm_float(id, v, z, one, 0, im, reinterpret_cast<float*>(db.data()));
				nc_close(id);
			}
		}
		ssize_t w = ::write(fd[1], &r, sizeof r); (void) w;
		_exit(0);
	}
	::close(fd[1]);
	ssize_t n = ::read(fd[0], &res, sizeof res);
	::close(fd[0]);
	int st; waitpid(pid, &st, 0);
	if (n != static_cast<ssize_t>(sizeof res) || !WIFEXITED(st)) res.what = P_SKIP;
	return res;
}

void writeBytes(const std::string& path, const std::string& s)
{
	FILE* f = fopen(path.c_str(), "wb");
	if (!f) _exit(77);
	fwrite(s.data(), 1, s.size(), f);
	fclose(f);
}
std::string readBytes(const std::string& path)
{
	std::string s; char b[4096]; size_t n;
	FILE* f = fopen(path.c_str(), "rb");
	if (!f) return s;
	while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
	fclose(f);
	return s;
}

#define NC(x) do { int e_ = (x); if (e_ != NC_NOERR) { fprintf(stderr, "harness: %s: %s\n", #x, nc_strerror(e_)); _exit(77); } } while (0)

/** Valid but unusual files; `expect`: the documented error or -1 (anything but a crash) */
std::string oddFile(const std::string& path, int& expect, bool& array)
{
	int id, d[MAXD + 4], v, c;
	expect = -1; array = false;
	uint32_t kind = eng::pick(12);
	if (kind == 0) {
		NC(nc_create(path.c_str(), NC_CLOBBER, &id));
		NC(nc_def_var(id, "z", NC_FLOAT, 0, 0, &v));
		NC(nc_enddef(id)); float x = 1; NC(nc_put_var_float(id, v, &x)); NC(nc_close(id));
		expect = Grid::UNSUPPORTED_DIMENSIONS;
		return "variable without dimensions";
	}
	if (kind == 1) {
		int n = maxDims + 1 + eng::pick(3);
		NC(nc_create(path.c_str(), NC_CLOBBER, &id));
		for (int i = 0; i < n; i++) NC(nc_def_dim(id, ("d" + std::to_string(i)).c_str(), 1 + eng::pick(3), &d[i]));
		NC(nc_def_var(id, "z", NC_FLOAT, n, d, &v));
		NC(nc_enddef(id)); NC(nc_close(id));
		expect = Grid::UNSUPPORTED_DIMENSIONS;
		return "variable with " + std::to_string(n) + " dimensions";
	}
	if (kind == 2) {
		// unlimited dimension without records
		NC(nc_create(path.c_str(), NC_CLOBBER | (eng::pick(2) ? NC_NETCDF4 : 0), &id));
		NC(nc_def_dim(id, "t", NC_UNLIMITED, &d[0])); NC(nc_def_dim(id, "x", 4, &d[1]));
		bool coord = eng::pick(2);
		if (coord) NC(nc_def_var(id, "t", NC_DOUBLE, 1, d, &c));
		NC(nc_def_var(id, "z", NC_FLOAT, 1 + eng::pick(2), d, &v));
		NC(nc_enddef(id)); NC(nc_close(id));
		return "dimension of length 0";
	}
	if (kind == 3) {
		// record dimension with records
		NC(nc_create(path.c_str(), NC_CLOBBER | (eng::pick(2) ? NC_NETCDF4 : 0), &id));
		NC(nc_def_dim(id, "t", NC_UNLIMITED, &d[0])); NC(nc_def_dim(id, "x", 4, &d[1]));
		NC(nc_def_var(id, "z", NC_FLOAT, 2, d, &v));
		NC(nc_enddef(id));
		float x[12]; for (int i = 0; i < 12; i++) x[i] = i;
		size_t s[2] = { 0, 0 }, n[2] = { 3, 4 };
		NC(nc_put_vara_float(id, v, s, n, x)); NC(nc_close(id));
		expect = Grid::SUCCESS;
		return "unlimited dimension with records";
	}
	if (kind <= 6) {
		// strange coordinate variables
		NC(nc_create(path.c_str(), NC_CLOBBER, &id));
		NC(nc_def_dim(id, "y", 3, &d[0])); NC(nc_def_dim(id, "x", 4, &d[1]));
		NC(nc_def_dim(id, "other", 2, &d[2]));
		const char* what = "";
		int two[2] = { d[1], d[0] };
		if (kind == 4) { NC(nc_def_var(id, "x", NC_DOUBLE, 2, two, &c)); what = "two-dimensional coordinate variable"; }
		else if (kind == 5) { NC(nc_def_var(id, "x", NC_DOUBLE, eng::pick(2), &d[2], &c)); what = "coordinate variable of another dimension"; }
		else { NC(nc_def_var(id, "x", NC_CHAR, 1, &d[1], &c)); what = "coordinate variable of characters"; }
		NC(nc_def_var(id, "z", NC_FLOAT, 2, d, &v));
		NC(nc_enddef(id)); NC(nc_close(id));
		return what;
	}
	if (kind == 7) {
		NC(nc_create(path.c_str(), NC_CLOBBER, &id));
		NC(nc_def_dim(id, "x", 4, &d[0]));
		NC(nc_def_var(id, "z", NC_CHAR, 1, d, &v));
		NC(nc_enddef(id)); NC(nc_put_var_text(id, v, "abcd")); NC(nc_close(id));
		array = eng::pick(2);
		return "variable of characters";
	}
	if (kind == 8) {
		NC(nc_create(path.c_str(), NC_CLOBBER | NC_NETCDF4, &id));
		NC(nc_def_dim(id, "x", 4, &d[0]));
		NC(nc_def_var(id, "z", NC_STRING, 1, d, &v));
		NC(nc_enddef(id)); NC(nc_close(id));
		array = false;
		return "variable of strings";
	}
	if (kind == 9) {
		NC(nc_create(path.c_str(), NC_CLOBBER | NC_NETCDF4, &id));
		nc_type t;
		NC(nc_def_compound(id, 12, "c", &t));
		NC(nc_insert_compound(id, t, "a", 0, NC_INT)); NC(nc_insert_compound(id, t, "b", 4, NC_DOUBLE));
		NC(nc_def_dim(id, "x", 4, &d[0]));
		NC(nc_def_var(id, "z", t, 1, d, &v));
		NC(nc_enddef(id)); NC(nc_close(id));
		return "compound read as numbers";
	}
	if (kind == 10) {
		// coordinates that are not finite or not numbers
		NC(nc_create(path.c_str(), NC_CLOBBER, &id));
		NC(nc_def_dim(id, "x", 3, &d[0]));
		NC(nc_def_var(id, "x", NC_DOUBLE, 1, d, &c)); NC(nc_def_var(id, "z", NC_FLOAT, 1, d, &v));
		NC(nc_enddef(id));
		static const double bad[] = { NAN, INFINITY, -INFINITY, 1e308, 0, 1e-308 };
		double x[3] = { bad[eng::pick(6)], bad[eng::pick(6)], bad[eng::pick(6)] };
		NC(nc_put_var_double(id, c, x)); NC(nc_close(id));
		return "strange coordinates";
	}
	NC(nc_create(path.c_str(), NC_CLOBBER, &id));
	NC(nc_def_dim(id, "x", 3, &d[0]));
	NC(nc_def_var(id, "z", NC_SHORT, 1, d, &v));
	NC(nc_enddef(id)); NC(nc_close(id));
	array = true;	// of int
	expect = Grid::INVALID_VAR_SIZE;
	return "value size that is no multiple of the array element";
}

}

void runC06()
{
	FileOpts o = FileOpts::small(); o.maxCells = 60; o.cheap = true;
	Spec spec = drawSpec(o);
	File good = drawFile(spec, o);
	Storage s = drawStorage(good);
	std::string bad = eng::scratch() + "/bad.nc";
	unlink(bad.c_str());
	int expect = -1; bool array = false; bool readIt = true; unsigned badDims = 0;
	std::string what, var = good.var;
	uint32_t mode = eng::pick(12);
	std::string path = bad;
	bool useOther = false;	// the grid is not of type `spec`
	Spec otherSpec; otherSpec.kind = Spec::BASIC; otherSpec.elem = Grid::FLOAT;
	bool sizeClash = false;
	if (mode == 0) {
		static const char* p[] = { "/nonexistent/file.nc", "", "/dev/null", "/tmp", "missing.nc", "/" };
		uint32_t k = eng::pick(7);
		path = k < 6 ? std::string(p[k]) : std::string(eng::range(300, 5000), 'x');
		if (path == "missing.nc") path = eng::scratch() + "/missing.nc";
		what = "file '" + path.substr(0, 40) + "'"; expect = Grid::NOT_OPEN;
	} else if (mode == 1) {
		std::string b;
		uint32_t n = eng::pick(4) == 0 ? 0 : eng::pick(300);
		static const char* magic[] = { "", "CDF\x01", "CDF\x02", "CDF\x05", "\x89HDF\r\n\x1a\n", "CDF", "CDF\x09" };
		uint32_t m = eng::pick(7);
		b = magic[m];
		for (uint32_t i = 0; i < n; i++) b += static_cast<char>(eng::pick(256));
		writeBytes(bad, b);
		what = "random bytes";
		if (m == 0 || m >= 5) expect = Grid::NOT_OPEN; else expect = m == 4 ? -1 : -2;
	} else if (mode == 2) {
		path = good.path;
		static const char* v[] = { "unknown", "", "Z", "zz", "decoy ", "D0", "z ", "../z", "a very long variable name" };
		uint32_t k = eng::pick(10);
		var = k < 9 ? v[k] : std::string(eng::range(200, 2000), 'v');
		if (var == good.var) var += "x";
		what = "unknown variable '" + var.substr(0, 30) + "'"; expect = Grid::VAR_NOT_FOUND;
		if (var.find('/') != std::string::npos) expect = -1;
	} else if (mode <= 5) {
		what = oddFile(bad, expect, array);
		var = "z"; useOther = true;
		if (array) { otherSpec.kind = Spec::ARRAY; otherSpec.elem = Grid::INT; }
	} else if (mode == 6) {
		sizeClash = true;
		useOther = true;
		otherSpec.kind = Spec::ARRAY; otherSpec.elem = Grid::INT;
		what = "value size differs from the other level"; expect = Grid::WRONG_SIZE;
	} else {
		// HDF5 itself does not behave the same for every open of a damaged file
		File base = good;
		if (base.format == 3) {
			useOther = true;
			base = drawFile(otherSpec, o);
			if (base.format == 3) { base.format = 0; model::write(base); }
		}
		var = base.var;
		std::string b = readBytes(base.path);
		int muts = 1 + eng::pick(4);
		for (int i = 0; i < muts && !b.empty(); i++) {
			// mostly the header
			size_t pos = eng::chance(3, 4) ? eng::pick(std::min<size_t>(b.size(), 400)) : eng::pick(b.size());
			switch (eng::pick(6)) {
			case 0: b[pos] = static_cast<char>(eng::pick(256)); break;
			case 1: b[pos] ^= static_cast<char>(1u << eng::pick(8)); break;
			case 2: b.resize(pos); break;
			case 3: b[pos] = static_cast<char>(eng::pick(4)); break;
			case 4: b.erase(pos, 1 + eng::pick(8)); break;
			default: b.insert(pos, std::string(1 + eng::pick(8), static_cast<char>(eng::pick(3)))); break;
			}
		}
		writeBytes(bad, b);
		what = "damaged file";
		expect = -2;
	}
	if (expect == -2) {
		ProbeResult r = probe(bad, var);
		if (r.what == P_SKIP) { eng::label("skipped: libnetcdf itself fails or file too large"); return; }
		if (r.what == P_NOTOPEN) expect = Grid::NOT_OPEN;
		else if (r.what == P_NOVAR) expect = Grid::VAR_NOT_FOUND;
		else if (r.what == P_DIMS) expect = Grid::UNSUPPORTED_DIMENSIONS;
		else { expect = -1; badDims = r.dims; }
	}
	eng::note("%s, %s; then %s\n%s\n", what.c_str(), expect >= 0 ? lib::errName(expect) : "anything but a crash", good.describe().c_str(), s.describe(4).c_str());
	eng::label(what.substr(0, what.find('\'')).c_str());
	single([&] {
		if (sizeClash) {
			FileOpts a = o;
			if (eng::chance(1, 2)) { otherSpec.kind = Spec::STRUCT; otherSpec.fields.clear(); }
			for (int i = 0; i < 20; i++) {
				Spec d = drawSpec(a);
				if (d.kind == otherSpec.kind) { otherSpec = d; break; }
			}
			if (otherSpec.kind == Spec::STRUCT && otherSpec.fields.empty()) return;
			File f1 = drawFile(otherSpec, a), f2;
			GError wrong = Grid::WRONG_SIZE;
			if (otherSpec.kind == Spec::STRUCT) {
				// a field less, a field more, longer fields
				Spec other = otherSpec;
				uint32_t k = eng::pick(3);
				if (k == 0 && other.fields.size() > 1) other.fields.pop_back();
				else if (k == 1) other.fields[eng::pick(other.fields.size())].len++;
				else other.fields.push_back(other.fields[0]);
				size_t disp = 0;
				for (auto& c : other.fields) { size_t al = sizeOf(c.elem); c.disp = disp = (disp + al - 1) / al * al; disp += c.len * al; }
				f2 = drawFile(other, a);
				if (f2.elemSize == f1.elemSize) return;
			} else if (sizeOf(otherSpec.elem) > 1 && eng::chance(1, 4)) {
				Spec other; other.kind = Spec::ARRAY; other.elem = Grid::BYTE;
				int tries = 0;
				do { f2 = drawFile(other, a); } while (f2.elemSize % sizeOf(otherSpec.elem) == 0 && ++tries < 12);
				if (f2.elemSize % sizeOf(otherSpec.elem) == 0) return;
				wrong = Grid::INVALID_VAR_SIZE;
			} else {
				int tries = 0;
				do { f2 = drawFile(otherSpec, a); } while (f2.elemSize == f1.elemSize && ++tries < 12);
				if (f2.elemSize == f1.elemSize) return;
			}
			eng::label(otherSpec.kind == Spec::STRUCT ? "value size clash of structures" : wrong == Grid::WRONG_SIZE ? "value size clash of arrays" : "invalid value size of a second level");
			eng::label(f2.elemSize < f1.elemSize ? "second level with smaller values" : "second level with larger values");
			eng::nontrivial();
			Grid* g = createGrid(lib::of(0), otherSpec);
			applyGrid(g, s);
			applyLevel(g, s, f1, 0);
			GError e = open(g, f1.path, 0);
			if (e != Grid::SUCCESS) eng::fail("open", "open returned %s\n%s", lib::errName(e), f1.describe().c_str());
			Storage s2 = drawStorage(f2);
			setParam(g, "VARIABLE", f2.var, 1);
			e = open(g, f2.path, 1);
			if (e != wrong) eng::fail("error-code", "opening a level with a value size of %zu instead of %zu returned %s, expected %s", f2.elemSize, f1.elemSize, lib::errName(e), lib::errName(wrong));
			for (int i = 0; i < 5; i++) { Pos p = drawPos(f1); read(g, f1, p, drawRead(f1, p), 0, "value", "after a failed open of another level: "); }
			if (eng::pick(2)) {
				File f3 = drawSibling(f1, o);
				setParam(g, "VARIABLE", f3.var, 1);
				e = open(g, f3.path, 1);
				if (e != Grid::SUCCESS) eng::fail("reopen", "open after a failed open returned %s", lib::errName(e));
				for (int i = 0; i < 5; i++) { Pos p = drawPos(f3); read(g, f3, p, drawRead(f3, p), 1, "value", "opened after a failure: "); }
			}
			close(g);
			return;
		}
		Grid* g = createGrid(lib::of(0), useOther ? otherSpec : spec);
		applyGrid(g, s);
		setParam(g, "VARIABLE", var, 0);
		GError e = Grid::SUCCESS;
		int tries = 1 + eng::pick(2);
		for (int t = 0; t < tries && e == (t == 0 ? Grid::SUCCESS : e); t++) {
			e = open(g, path, 0);
			if (e == Grid::SUCCESS) break;
		}
		if (expect >= 0 && e != expect) eng::fail("error-code", "%s: open returned %s, expected %s", what.c_str(), lib::errName(e), lib::errName(expect));
		if (e < 0 || e > Grid::INVALID_VAR_SIZE) eng::fail("error-code", "%s: open returned %d", what.c_str(), e);
		if (e == Grid::SUCCESS && readIt) {
			eng::label("damaged or unusual file opened");
			unsigned d; { IN_LIB; d = g->getDimensions(); }
			if (badDims && d != badDims) eng::fail("dims", "getDimensions() = %u, the file has %u", d, badDims);
			unsigned vs; { IN_LIB; vs = g->getVarSize(); }
			std::vector<unsigned char> buf(vs);
			for (int i = 0; i < 6; i++) {
				double x[MAXD];
				for (int k = 0; k < maxDims; k++) { static const double c[] = { 0, 1, 2, -1, 1e9, -1e9, INFINITY, -INFINITY, 0.5 }; x[k] = c[eng::pick(9)]; }
				IN_LIB;
				g->getBuf(buf.data(), x, 0);
			}
		}
		if (e != Grid::SUCCESS) {
			eng::nontrivial();
			eng::label(lib::errName(e));
			if (!useOther && eng::pick(4)) {
				applyLevel(g, s, good, 0);
				setParam(g, "VARIABLE", good.var, 0);
				e = open(g, good.path, 0);
				if (e != Grid::SUCCESS) eng::fail("reopen", "open of a correct file after a failed open (%s) returned %s\n%s", what.c_str(), lib::errName(e), good.describe().c_str());
				checkMeta(g, good, s.vertex, 0, "metadata");
				for (int i = 0; i < 8; i++) { Pos p = drawPos(good); read(g, good, p, drawRead(good, p), 0, "value", "opened after a failure: "); }
				eng::label("opened successfully after a failure");
			}
		}
		close(g);
		for (int r = 0; r < 1; r++)
			if (sched::live(sched::RES_NCFILE, 0) != 0) eng::fail("file-left", "%s: %ld netCDF files are still open after closing the grid", what.c_str(), sched::live(sched::RES_NCFILE, 0));
	});
}

// ---------------------------------------------------------------- C07

static std::string boxText(const std::vector<size_t>& st, const std::vector<size_t>& c)
{
	std::string s;
	for (size_t i = 0; i < st.size(); i++) s += (i ? " x [" : "[") + std::to_string(st[i]) + ",+" + std::to_string(c[i]) + "]";
	return s;
}

void runC07()
{
	FileOpts o = FileOpts::small(); o.maxCells = 800;
	Spec spec = drawSpec(o);
	File f[3];
	f[0] = drawFile(spec, o);
	static const int more[] = { 1, 1, 1, 2, 2, 3 };
	int levels = more[eng::pick(6)];
	Storage s[3];
	s[0] = drawStorage(f[0]);
	for (int l = 1; l < levels; l++) {
		f[l] = drawSibling(f[0], o);
		bool plain = eng::chance(1, 3);	// nothing is set for this level
		if (plain || eng::chance(1, 3)) {
			f[l].var = plain ? "z" : f[0].var + "2";
			finish(f[l]);
		}
		if (!plain) s[l] = drawStorage(f[l]);
		else if (f[0].var != "z" || s[0].block[0] || s[0].cacheSize) eng::label("level with default parameters after others");
		s[l].grid = s[0].grid; s[l].timeDim = s[0].timeDim; s[l].vertex = s[0].vertex;
	}
	// variables whose names differ in case only must be kept apart
	single([&] {
		Grid* g = createGrid(lib::of(0), spec);
		struct P { std::string name, value; unsigned level; };
		std::vector<P> ps;
		auto gridName = [&]() -> std::string { return s[0].grid; };
		// final values
		std::vector<P> fin;
		if (s[0].grid != "FULL" || eng::pick(2)) fin.push_back({ "GRID", spell(gridName()), 0 });
		else if (eng::pick(2)) { fin.push_back({ "GRID", "unknown-type", 0 }); eng::label("unknown value"); }
		if (s[0].vertex) fin.push_back({ "VALUE_POSITION", spell("VERTEX_CENTERED"), 0 });
		else if (eng::chance(1, 4)) { fin.push_back({ "VALUE_POSITION", eng::pick(2) ? "somewhere" : spell("CELL_CENTERED"), 0 }); }
		if (s[0].timeDim >= 0) fin.push_back({ "TIME_DIMENSION", std::to_string(s[0].timeDim), 0 });
		else if (eng::chance(1, 3)) { fin.push_back({ "TIME_DIMENSION", "-1", 0 }); eng::label("negative time dimension"); }
		for (int l = 0; l < levels; l++) {
			bool plain = l > 0 && f[l].var == "z" && !std::any_of(s[l].block, s[l].block + maxDims, [](int b) { return b != 0; }) && !s[l].cacheSize && s[l].spread == -1;
			if (plain && eng::chance(3, 4)) continue;
			if (f[l].var != "z" || eng::pick(2)) fin.push_back({ "VARIABLE", f[l].var, static_cast<unsigned>(l) });
			for (int d = 0; d < maxDims; d++) {
				if (s[l].block[d] || eng::chance(1, 6)) fin.push_back({ "BLOCK_SIZE_" + std::to_string(d), std::to_string(s[l].block[d]), static_cast<unsigned>(l) });
				if (s[l].block[d] < 0) eng::label("negative block size");
			}
			if (s[l].cacheSize) fin.push_back({ "CACHE_SIZE", std::to_string(s[l].cacheSize), static_cast<unsigned>(l) });
			if (s[l].spread != -1 || eng::chance(1, 2)) {
				fin.push_back({ "CACHE_HAND_SPREAD", std::to_string(s[l].spread), static_cast<unsigned>(l) });
				if (s[l].spread < 0) eng::label("negative hand spread");
			}
		}
		// overwritten, unknown and foreign ones before
		int extra = eng::pick(4);
		for (int i = 0; i < extra; i++) {
			if (!fin.empty() && eng::pick(2)) {
				P p = fin[eng::pick(fin.size())];
				p.value = p.name == "VARIABLE" ? "other" : p.name == "GRID" ? "CACHE" : p.name == "VALUE_POSITION" ? "VERTEX_CENTERED" : std::to_string(1 + eng::pick(9));
				ps.push_back(p);
				eng::label("parameter set twice");
			} else {
				static const char* un[] = { "UNKNOWN", "", "BLOCK_SIZE", "GRID_TYPE", "VARIABLE ", "CACHE", "BLOCK_SIZE_9" };
				ps.push_back({ un[eng::pick(7)], std::to_string(eng::pick(5)), static_cast<unsigned>(eng::pick(3)) });
				eng::label("unknown parameter");
			}
		}
		// shuffle the final ones
		for (size_t i = fin.size(); i > 1; i--) std::swap(fin[i-1], fin[eng::pick(i)]);
		for (auto& p : fin) ps.push_back(p);
		for (auto& p : ps) {
			std::string n = spell(p.name);
			eng::note("setParam(\"%s\", \"%s\", %u)\n", n.c_str(), p.value.c_str(), p.level);
			setParam(g, n, p.value, p.level);
		}
		bool interesting = false;
		for (int l = 0; l < levels; l++) {
			const File& fl = f[l]; const Storage& sl = s[l];
			eng::note("level %d: %s\n%s\n", l, fl.describe().c_str(), sl.describe(fl.dims()).c_str());
			sched::resetNc();
			GError e = open(g, fl.path, l);
			if (e != Grid::SUCCESS) eng::fail("open", "open of level %d returned %s\n%s", l, lib::errName(e), fl.describe().c_str());
			if (l == 0) checkMeta(g, fl, sl.vertex, 0, "range");
			size_t blocks = sl.blocks(fl);
			if (blocks > 1) interesting = true;
			if (sl.grid == "FULL") {
				std::map<std::vector<size_t>, std::vector<size_t> > want;
				for (size_t c = 0; c < fl.cells(); c++) { std::vector<size_t> st, ct; blockBox(fl, sl, c, st, ct); want[st] = ct; }
				std::set<std::vector<size_t> > got;
				for (auto& x : wholeLoads(sched::nc.reads, fl, sl)) {
					auto it = want.find(x.start);
					if (it == want.end() || it->second != x.count)
						eng::fail("block-size", "level %d: the library loaded the block %s, which does not fit to the block size\n%s\n%s", l, boxText(x.start, x.count).c_str(), sl.describe(fl.dims()).c_str(), fl.describe().c_str());
					got.insert(x.start);
				}
				if (got.size() != want.size()) eng::fail("grid-type", "level %d: a fully loaded grid loaded %zu of %zu blocks", l, got.size(), want.size());
			}
			sched::nc.reads.clear();
			Walk w(fl);
			w.plainOnly = true;
			int n = 5 + eng::pick(60);
			std::set<size_t> requested, loadedOnce;
			for (int i = 0; i < n; i++) {
				Pos p = w.next();
				size_t cell = p.cells(fl)[0];
				sched::nc.reads.clear();
				read(g, fl, p, R_DOUBLE, l, "value");
				std::vector<sched::NcRead> r = wholeLoads(sched::nc.reads, fl, sl);
				if (sl.grid == "FULL") {
					if (!r.empty()) eng::fail("grid-type", "level %d: a fully loaded grid read from the file again", l);
				} else if (sl.grid == "PASS_THROUGH") {
					if (r.size() != 1) eng::fail("grid-type", "level %d: a pass-through grid made %zu file accesses for one read", l, r.size());
					for (size_t k = 0; k < r[0].count.size(); k++)
						if (r[0].count[k] != 1) eng::fail("grid-type", "level %d: a pass-through grid loaded %s for one value", l, boxText(r[0].start, r[0].count).c_str());
				} else {
					size_t b = sl.blockOf(fl, cell);
					bool first = requested.insert(b).second;
					if (first && r.size() != 1) eng::fail("grid-type", "level %d: %zu file accesses for a block that was never requested before", l, r.size());
					if (r.size() > 1) eng::fail("grid-type", "level %d: %zu file accesses for one read", l, r.size());
					if (!r.empty()) {
						std::vector<size_t> st, ct;
						blockBox(fl, sl, cell, st, ct);
						if (r[0].start != st || r[0].count != ct)
							eng::fail("block-size", "level %d: loaded %s, the block of cell %zu is %s\n%s\n%s", l, boxText(r[0].start, r[0].count).c_str(), cell, boxText(st, ct).c_str(), sl.describe(fl.dims()).c_str(), fl.describe().c_str());
						if (!first && requested.size() <= sl.slots())
							eng::fail("cache-size", "level %d: a block was loaded again although only %zu blocks were used and the cache has room for %zu", l, requested.size(), sl.slots());
						if (!first) eng::label("reload after eviction");
					}
				}
				eng::stat("reads");
			}
			if (sl.grid == "CACHE" && requested.size() > sl.slots()) {
				eng::label("more blocks than slots");
				// one round through all blocks cannot be free of loads
				sched::nc.reads.clear();
				std::vector<size_t> rep(requested.begin(), requested.end());
				std::map<size_t, size_t> cellOf;
				for (size_t c = 0; c < fl.cells(); c++) cellOf[sl.blockOf(fl, c)] = c;
				for (size_t b : rep) read(g, fl, posOf(fl, cellOf[b]), R_DOUBLE, l, "value");
				size_t loads = wholeLoads(sched::nc.reads, fl, sl).size();
				if (loads < requested.size() - sl.slots())
					eng::fail("cache-size", "level %d: %zu blocks were read with %zu loads although the cache is limited to %zu blocks", l, requested.size(), loads, sl.slots());
			}
		}
		// explicit default of the hand spread / time dimension behaves as if unset
		eng::label(s[0].grid.c_str());
		if (levels > 1) eng::label("two levels");
		if (s[0].timeDim >= 0 && s[0].timeDim < static_cast<int>(f[0].dims())) eng::label("time dimension");
		if (interesting && ps.size() > 2) eng::nontrivial();
		close(g);
		// the same reads with the default set explicitly
		if (s[0].grid == "CACHE" && eng::chance(1, 2)) {
			std::vector<std::string> logs;
			std::vector<size_t> cells;
			int n2 = 20 + eng::pick(60);
			for (int i = 0; i < n2; i++) cells.push_back(eng::pick(f[0].cells()));
			Storage x = s[0]; x.spread = -1; x.timeDim = -1; if (!x.cacheSize) x.cacheSize = 4;
			for (int k = 0; k < 2; k++) {
				Grid* h = createGrid(lib::of(0), spec);
				setParam(h, "GRID", "CACHE", 0);
				applyLevel(h, x, f[0], 0);
				if (k) { setParam(h, "cache-hand-spread", "-1", 0); setParam(h, "TIME-DIMENSION", "-1", 0); setParam(h, "value-position", "cell-centered", 0); }
				if (open(h, f[0].path, 0) != Grid::SUCCESS) eng::fail("open", "open failed");
				sched::nc.reads.clear();
				std::string log;
				for (size_t c : cells) {
					size_t before = sched::nc.reads.size();
					read(h, f[0], posOf(f[0], c), R_DOUBLE, 0, "value");
					log += sched::nc.reads.size() > before ? boxText(sched::nc.reads.back().start, sched::nc.reads.back().count) + ";" : ".";
				}
				logs.push_back(log);
				close(h);
			}
			eng::label("defaults set explicitly");
			if (logs[0] != logs[1]) eng::fail("default", "setting CACHE_HAND_SPREAD and TIME_DIMENSION to their default -1 changes the loads:\n%s\n%s\n%s", logs[0].substr(0, 300).c_str(), logs[1].substr(0, 300).c_str(), f[0].describe().c_str());
		}
	});
}

// ---------------------------------------------------------------- C09, observed through a cached grid

void runC09api()
{
	FileOpts o = FileOpts::small(); o.maxCells = 500; o.maxDims = 3;
	Spec spec = drawSpec(o);
	File f = drawFile(spec, o);
	StorageOpts so; so.full = so.passThrough = false;
	Storage s = drawStorage(f, so);
	for (int d = 0; d < maxDims; d++) if (s.block[d] <= 0 || s.block[d] > 7) s.block[d] = 1 + eng::pick(4);
	if (eng::chance(1, 3)) s.cacheSize = 1 + eng::pick(70);
	size_t blocks = s.blocks(f);
	// cells of each block
	std::vector<std::vector<size_t> > cellsOf(blocks);
	for (size_t c = 0; c < f.cells(); c++) cellsOf[s.blockOf(f, c)].push_back(c);
	uint32_t pattern = eng::pick(5);
	int n = 20 + eng::pick(120);
	std::vector<size_t> req;
	size_t window = std::max<size_t>(1, std::min<size_t>(blocks, s.slots() + eng::range(0, 4) - 1)), base = 0;
	for (int i = 0; i < n; i++) {
		size_t b;
		if (eng::chance(1, 8)) base = eng::pick(blocks);
		switch (pattern) {
		case 0: b = eng::pick(blocks); break;
		case 1: b = i; break;
		case 2: b = base + eng::pick(window); break;
		case 3: b = eng::chance(1, 2) ? base : eng::pick(blocks); break;
		default: b = !req.empty() && eng::chance(1, 2) ? req[req.size() - 1 - eng::pick(std::min<size_t>(req.size(), s.slots() + 1))] : eng::pick(blocks);
		}
		req.push_back(b % blocks);
	}
	eng::note("%s\n%s\n", f.describe().c_str(), s.describe(f.dims()).c_str());
	single([&] {
		Grid* g = createGrid(lib::of(0), spec);
		applyGrid(g, s);
		applyLevel(g, s, f, 0);
		GError e = open(g, f.path, 0);
		if (e != Grid::SUCCESS) eng::fail("open", "open returned %s", lib::errName(e));
		std::map<size_t, std::pair<int, int> > alive;	// block -> load, last use
		std::vector<std::pair<int, int> > lives;
		size_t misses = 0, reloads = 0, hits = 0;
		std::set<size_t> distinct;
		std::string trace;
		for (int i = 0; i < n; i++) {
			size_t b = req[i];
			Pos p = posOf(f, cellsOf[b][eng::pick(cellsOf[b].size())]);
			sched::nc.reads.clear();
			read(g, f, p, R_DOUBLE, 0, "value");
			std::vector<sched::NcRead> r = wholeLoads(sched::nc.reads, f, s);
			trace += " " + std::to_string(b) + (r.empty() ? "" : "*");
			if (r.size() > 1) eng::fail("loads", "%zu file accesses for one read;%s", r.size(), trace.c_str());
			bool seen = !distinct.insert(b).second;
			if (r.empty()) {
				hits++;
				if (!seen) eng::fail("not-loaded", "block %zu was not loaded at its first request;%s", b, trace.c_str());
				alive[b].second = i;
			} else {
				if (seen && i > 0 && req[i-1] == b) eng::fail("load-again", "block %zu was loaded again directly after it was requested;%s", b, trace.c_str());
				if (seen && distinct.size() <= s.slots()) eng::fail("evicted", "block %zu was loaded again although only %zu of %zu slots are needed;%s", b, distinct.size(), s.slots(), trace.c_str());
				if (seen) {
					reloads++;
					lives.push_back(alive[b]);
					// each load evicts at most one block, and only if there is no free slot
					if (misses < s.slots() || reloads > misses - s.slots()) eng::fail("evicted", "%zu blocks were loaded again after %zu loads with %zu slots;%s", reloads, misses, s.slots(), trace.c_str());
				}
				misses++;
				alive[b] = std::make_pair(i, i);
			}
			eng::stat("reads");
		}
		for (auto& a : alive) lives.push_back(a.second);
		// never more blocks than slots
		std::vector<int> d(n + 1, 0);
		for (auto& l : lives) { d[l.first]++; d[l.second]--; }	// [load, last use)
		int c = 0;
		for (int i = 0; i < n; i++) {
			c += d[i];
			if (c > static_cast<int>(s.slots())) eng::fail("too-many", "after request %d %d blocks are in the cache, which has %zu slots;%s", i, c, s.slots(), trace.c_str());
		}
		if (reloads) eng::label("blocks loaded again");
		if (distinct.size() > s.slots()) eng::label("more blocks than slots"); else eng::label("all blocks fit");
		if (hits && (reloads || distinct.size() <= s.slots())) eng::nontrivial();
		close(g);
	});
}
