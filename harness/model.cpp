#include "model.h"

#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <limits>
#include <unistd.h>

namespace model {

static bool sixDims() { const char* v = getenv("VERIF_VARIANT"); return v && !strcmp(v, "dims6"); }
const int maxDims = sixDims() ? 6 : 4;

static const double INF = std::numeric_limits<double>::infinity();

double Axis::coord(size_t i) const
{
	if (!var) return i;
	double c = first + i * step;
	if (ctype == NC_FLOAT) return static_cast<float>(c);
	if (ctype == NC_INT || ctype == NC_SHORT) return std::floor(c);
	return c;
}

double Axis::scaling() const
{
	if (n <= 1) return INF;
	if (!var) return 1;
	return (coord(n-1) - coord(0)) / (n - 1);
}

size_t sizeOf(GType t)
{
	switch (t) { case Grid::BYTE: return 1; case Grid::INT: return 4; case Grid::LONG: return 8; case Grid::FLOAT: return 4; default: return 8; }
}
const char* typeName(GType t)
{
	switch (t) { case Grid::BYTE: return "byte"; case Grid::INT: return "int"; case Grid::LONG: return "long"; case Grid::FLOAT: return "float"; default: return "double"; }
}
const char* readName(int r)
{
	static const char* n[] = { "getByte", "getInt", "getLong", "getFloat", "getDouble", "getBuf" };
	return n[r];
}

static nc_type ncOf(GType t)
{
	switch (t) { case Grid::BYTE: return NC_UBYTE; case Grid::INT: return NC_INT; case Grid::LONG: return NC_INT64; case Grid::FLOAT: return NC_FLOAT; default: return NC_DOUBLE; }
}
static size_t ncSize(nc_type t)
{
	switch (t) {
	case NC_BYTE: case NC_UBYTE: case NC_CHAR: return 1;
	case NC_SHORT: case NC_USHORT: return 2;
	case NC_INT: case NC_UINT: case NC_FLOAT: return 4;
	default: return 8;
	}
}
static const char* ncName(nc_type t)
{
	switch (t) {
	case NC_BYTE: return "NC_BYTE"; case NC_UBYTE: return "NC_UBYTE"; case NC_SHORT: return "NC_SHORT"; case NC_USHORT: return "NC_USHORT";
	case NC_INT: return "NC_INT"; case NC_UINT: return "NC_UINT"; case NC_FLOAT: return "NC_FLOAT"; case NC_DOUBLE: return "NC_DOUBLE";
	case NC_INT64: return "NC_INT64"; case NC_UINT64: return "NC_UINT64"; default: return "?";
	}
}

size_t File::valueSize() const { return spec.kind == Spec::BASIC ? sizeOf(spec.elem) : elemSize; }

size_t File::cell(const size_t* idx) const
{
	size_t c = 0;
	for (size_t i = 0; i < axes.size(); i++) c = c * axes[i].n + idx[i];
	return c;
}

std::string File::describe() const
{
	char b[400];
	std::string s = "grid ";
	s += spec.kind == Spec::BASIC ? "of " : spec.kind == Spec::ARRAY ? "of arrays of " : "of structs starting with ";
	s += typeName(spec.elem);
	snprintf(b, sizeof b, ", file (format %d) variable '%s' ", format, var.c_str()); s += b;
	if (compound) {
		s += "compound {";
		for (auto& f : cfields) { snprintf(b, sizeof b, " %s[%u]@%zu", typeName(f.elem), f.len, f.disp); s += b; }
		snprintf(b, sizeof b, " } size %zu", elemSize); s += b;
	} else s += ncName(vtype);
	s += " (";
	for (size_t i = 0; i < axes.size(); i++) {
		const Axis& a = axes[i];
		if (a.var) snprintf(b, sizeof b, "%sn=%zu from %.17g step %.17g%s", i ? "; " : "", a.n, a.first, a.step, a.ctype == NC_FLOAT ? " float" : a.ctype == NC_INT ? " int" : "");
		else snprintf(b, sizeof b, "%sn=%zu", i ? "; " : "", a.n);
		s += b;
	}
	return s + ")";
}

Spec drawSpec(const FileOpts& o)
{
	Spec s;
	uint32_t k = eng::pick(5);
	if (k >= 3 && (k == 3 ? o.array : o.strct).empty()) k = 0;
	s.kind = k < 3 ? Spec::BASIC : k == 3 ? Spec::ARRAY : Spec::STRUCT;
	const std::vector<GType>& l = s.kind == Spec::BASIC ? o.basic : s.kind == Spec::ARRAY ? o.array : o.strct;
	s.elem = l[eng::pick(l.size())];
	if (s.kind == Spec::STRUCT) {
		static const GType all[] = { Grid::DOUBLE, Grid::BYTE, Grid::INT, Grid::LONG, Grid::FLOAT };
		int n = 1 + eng::pick(4);
		if (eng::chance(1, 20)) n = 5 + eng::pick(14);
		size_t disp = 0;
		for (int i = 0; i < n; i++) {
			Field f;
			f.elem = i == 0 ? s.elem : all[eng::pick(5)];
			f.len = eng::chance(1, 4) ? (o.largeValues && eng::chance(1, 8) ? 300 : 2) + eng::pick(3) : 1;
			size_t al = sizeOf(f.elem);
			// only C layouts: libnetcdf converts others to these when reading
			disp = (disp + al - 1) / al * al;
			f.disp = disp;
			s.fields.push_back(f);
			disp += f.len * al;
		}
	}
	return s;
}

static Axis drawAxis(const FileOpts& o, size_t maxN)
{
	Axis a;
	if (maxN < o.minAxis) maxN = o.minAxis;
	uint32_t k = eng::pick(8);
	if (k == 0) a.n = 1 + eng::pick(3);
	else if (k == 1) a.n = 1;
	else if (k == 2) a.n = 63 + eng::pick(4);
	else a.n = 2 + eng::pick(12);
	a.n = std::max(o.minAxis, std::min(a.n, maxN));
	a.var = eng::chance(4, 5);
	a.ctype = NC_DOUBLE; a.first = 0; a.step = 1;
	if (a.var) {
		uint32_t t = eng::pick(6);
		a.ctype = t < 4 ? NC_DOUBLE : t == 4 ? NC_FLOAT : NC_INT;
		static const double steps[] = { 1, 0.5, 2, 0.25, 10, 0.1, 1./3, 1000, 1e-3, 0.75, 1e-6, 1e6 };
		a.step = a.ctype == NC_DOUBLE ? steps[eng::pick(12)] : a.ctype == NC_FLOAT ? steps[eng::pick(5)] : 1 + eng::pick(5);
		int off = eng::range(0, 40) - 20;
		a.first = off * a.step;
		if (a.ctype == NC_DOUBLE && eng::chance(1, 4)) a.first = (eng::range(0, 2000) - 1000) * a.step + 0.3 * a.step;
		if (a.ctype == NC_DOUBLE && eng::chance(1, 8)) {
			// Very fine, very coarse, and far away
			static const double rare[] = { 1e-9, 5e-12, 1e-15, 1e-100, 1e9, 1e15, 1e100, 1e-4 };
			uint32_t k = eng::pick(8);
			a.step = rare[k];
			static const double far[] = { 0, 1, -1, 1000, -1e6, 1e8 };
			a.first = far[eng::pick(6)] * a.step;
		}
		if (eng::chance(1, 3)) { a.step = -a.step; }
		if (o.constants && a.n > 1 && eng::chance(1, 10)) a.step = 0;
	}
	return a;
}

/** Hundreds or thousands of points, sometimes with coordinates that are not exact in the file */
static void drawLong(Axis& a)
{
	static const size_t sizes[] = { 300, 257, 1000, 2500, 4097, 70000 };
	a.n = sizes[eng::pick(eng::chance(1, 8) ? 6 : 5)] + eng::pick(3);
	a.var = eng::chance(7, 8);
	a.ctype = NC_DOUBLE; a.first = 0; a.step = 1;
	if (!a.var) return;
	a.ctype = eng::chance(1, 2) ? NC_FLOAT : NC_DOUBLE;
	static const double steps[] = { 0.1, 1, 0.01, 1./3, 30, 1e-3 };
	static const double off[] = { 1000, 0, -180, 12.3, -5000, 1 };
	a.step = steps[eng::pick(6)];
	a.first = off[eng::pick(6)] * (eng::chance(1, 2) ? 1 : a.step);
	// float coordinates must still differ clearly
	if (a.ctype == NC_FLOAT && std::fabs(a.first) > 2e4 * a.step) a.first = 1000 * a.step;
	if (eng::chance(1, 3)) a.step = -a.step;
}

static void drawAxes(File& f, const FileOpts& o)
{
	static const int order[] = { 2, 1, 3, 4, 5, 6 };
	int d = order[eng::pick(model::maxDims)];
	d = std::max(o.minDims, std::min(o.maxDims, d));
	f.axes.clear();
	size_t left = o.maxCells;
	// one very long axis (together with small ones)
	int lng = o.longAxes && eng::chance(1, 24) ? static_cast<int>(eng::pick(d)) : -1;
	for (int i = 0; i < d; i++) {
		Axis a = drawAxis(o, lng >= 0 ? 4 : left);
		if (i == lng) drawLong(a);
		if (lng >= 0) { f.axes.push_back(a); continue; }
		f.axes.push_back(a);
		left = std::max<size_t>(1, left / a.n);
	}
}

static void put(unsigned char* p, GType t, int64_t v)
{
	switch (t) {
	case Grid::BYTE: { unsigned char x = static_cast<unsigned char>(v & 127); memcpy(p, &x, 1); break; }
	case Grid::INT: { int x = static_cast<int>(v); memcpy(p, &x, 4); break; }
	case Grid::LONG: { long x = static_cast<long>(v) * (v % 2 ? 1000003l : 1000003l * 1000003l); memcpy(p, &x, 8); break; }
	case Grid::FLOAT: { float x = static_cast<float>(v) / 8; memcpy(p, &x, 4); break; }
	default: { double x = static_cast<double>(v) / 8; memcpy(p, &x, 8); break; }
	}
}

/** A number for a cell: neighbours differ, everything fits into 17 bits */
static int64_t number(const File& f, size_t cell, unsigned k)
{
	uint64_t x = cell + 1 + (f.salt % 1000) * 7 + k * 31;
	return static_cast<int64_t>((x * 40503u) % 65521u);
}

void finish(File& f)
{
	size_t cells = f.cells();
	const Spec& s = f.spec;
	f.cover.assign(f.elemSize, 1);
	f.raw.assign(cells * f.elemSize, 0xA5);
	if (f.compound) {
		f.cover.assign(f.elemSize, 0);
		for (auto& c : f.cfields) for (size_t i = 0; i < c.len * sizeOf(c.elem); i++) f.cover[c.disp + i] = 1;
	}
	bool nonneg = s.elem == Grid::BYTE || f.vtype == NC_UINT || f.vtype == NC_UINT64 || f.vtype == NC_USHORT || f.vtype == NC_UBYTE;
	for (size_t c = 0; c < cells; c++) {
		unsigned char* p = &f.raw[c * f.elemSize];
		if (f.compound) {
			unsigned k = 0;
			for (auto& cf : f.cfields)
				for (unsigned i = 0; i < cf.len; i++, k++) put(p + cf.disp + i * sizeOf(cf.elem), cf.elem, number(f, c, k) - 20000);
			continue;
		}
		if (s.kind != Spec::BASIC && ncOf(s.elem) != f.vtype) {
			// raw data, reinterpreted
			if (s.elem == Grid::BYTE || s.elem == Grid::INT || s.elem == Grid::LONG) {
				uint64_t h = (c + 1 + f.salt) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
				// keep floating point patterns normal
				h &= 0x0fffffff0fffffffull;
				memcpy(p, &h, f.elemSize);
				continue;
			}
		}
		int64_t v = number(f, c, 0);
		if (s.elem == Grid::BYTE) v &= 127;
		else if (!nonneg && f.vtype != NC_BYTE) v -= 20000;
		switch (f.vtype) {
		case NC_BYTE: { signed char x = static_cast<signed char>(s.elem == Grid::BYTE ? v : (v & 255) - 128); memcpy(p, &x, 1); break; }
		case NC_UBYTE: { unsigned char x = static_cast<unsigned char>(v); memcpy(p, &x, 1); break; }
		case NC_SHORT: { short x = static_cast<short>(v / 2); memcpy(p, &x, 2); break; }
		case NC_USHORT: { unsigned short x = static_cast<unsigned short>(v); memcpy(p, &x, 2); break; }
		case NC_INT: { int x = static_cast<int>(s.elem == Grid::BYTE ? v : v * 1009); memcpy(p, &x, 4); break; }
		case NC_UINT: { unsigned x = static_cast<unsigned>(v); memcpy(p, &x, 4); break; }
		// some values do not fit into the 53 bits of a double
		case NC_INT64: { int64_t x = s.elem == Grid::LONG && v % 2 ? v * 100003 * 1000000007l + 1 : s.elem == Grid::LONG || s.elem == Grid::DOUBLE || s.elem == Grid::FLOAT ? v * 1000003 * 1009 : v; memcpy(p, &x, 8); break; }
		case NC_UINT64: { uint64_t x = s.elem == Grid::LONG && v % 2 ? v * 100003 * 1000000007l + 1 : v; memcpy(p, &x, 8); break; }
		case NC_FLOAT: { float x = s.elem == Grid::BYTE ? v + 0.75f : v / 8.f; memcpy(p, &x, 4); break; }
		default: { double x = s.elem == Grid::BYTE ? v + 0.75 : v / 8. + (s.elem == Grid::DOUBLE || s.elem == Grid::FLOAT ? 1e-7 : 0); memcpy(p, &x, 8); break; }
		}
	}
	write(f);
}

#define NC(x) do { int e_ = (x); if (e_ != NC_NOERR) { fprintf(stderr, "harness: %s: %s\n", #x, nc_strerror(e_)); _exit(77); } } while (0)

void write(const File& f)
{
	int id, mode = f.format == 0 ? NC_64BIT_DATA : f.format == 1 ? 0 : f.format == 2 ? NC_64BIT_OFFSET : NC_NETCDF4;
	NC(nc_create(f.path.c_str(), NC_CLOBBER | mode, &id));
	int dims[8], coord[8], var;
	for (size_t i = 0; i < f.axes.size(); i++) {
		std::string n = "d" + std::to_string(i);
		NC(nc_def_dim(id, n.c_str(), f.axes[i].n, &dims[i]));
		coord[i] = -1;
		if (f.axes[i].var) NC(nc_def_var(id, n.c_str(), f.axes[i].ctype, 1, &dims[i], &coord[i]));
	}
	// a decoy, so that the variable is not the only one of its shape
	int decoy;
	NC(nc_def_var(id, f.var == "decoy" ? "decoy2" : "decoy", NC_INT, f.axes.size(), dims, &decoy));
	nc_type t = f.vtype;
	if (f.compound) {
		NC(nc_def_compound(id, f.elemSize, "cell_t", &t));
		for (size_t i = 0; i < f.cfields.size(); i++) {
			const Field& c = f.cfields[i];
			std::string n = "f" + std::to_string(i);
			if (c.len == 1) NC(nc_insert_compound(id, t, n.c_str(), c.disp, ncOf(c.elem)));
			else { int l = c.len; NC(nc_insert_array_compound(id, t, n.c_str(), c.disp, ncOf(c.elem), 1, &l)); }
		}
	}
	NC(nc_def_var(id, f.var.c_str(), t, f.axes.size(), dims, &var));
	// HDF5 cannot store fill values of more than 64 kB
	if (f.compound && f.elemSize > 60000) NC(nc_def_var_fill(id, var, 1, 0L));
	NC(nc_enddef(id));
	for (size_t i = 0; i < f.axes.size(); i++) {
		if (coord[i] < 0) continue;
		std::vector<double> x(f.axes[i].n);
		for (size_t j = 0; j < x.size(); j++) x[j] = f.axes[i].coord(j);
		NC(nc_put_var_double(id, coord[i], x.data()));
	}
	NC(nc_put_var(id, var, f.raw.data()));
	NC(nc_close(id));
}

static std::string newPath()
{
	static unsigned n = 0;
	return eng::scratch() + "/f" + std::to_string(n++ % 16) + ".nc";
}

static const char* varNames[] = { "z", "elevation", "Mixed-Name_X", "BLOCK_SIZE_0", "variable", "z1", "a-b" };

/** Length of the arrays in the file: usually small, sometimes more than 255 or 65535 bytes */
static unsigned drawLength(const File& f, const FileOpts& o)
{
	if (o.largeValues && eng::chance(1, 6)) {
		static const unsigned l[] = { 64, 31, 100, 257, 300, 4096, 9000, 33000 };
		unsigned n = l[eng::pick(eng::chance(1, 2) ? 8 : 6)] + eng::pick(3);
		return std::max<size_t>(2, std::min<size_t>(n, 300000 / f.cells()));
	}
	return 2 + eng::pick(5);
}

static void drawLayout(File& f, const FileOpts& o)
{
	const Spec& s = f.spec;
	f.compound = false; f.cfields.clear();
	f.vtype = ncOf(s.elem);
	if (s.kind == Spec::BASIC) {
		if (eng::chance(1, 2)) {
			static const nc_type ts[] = { NC_DOUBLE, NC_FLOAT, NC_INT, NC_SHORT, NC_BYTE, NC_UBYTE, NC_USHORT, NC_UINT, NC_INT64, NC_UINT64 };
			f.vtype = ts[eng::pick(10)];
		}
		f.elemSize = ncSize(f.vtype);
	} else if (s.kind == Spec::ARRAY) {
		uint32_t k = eng::pick(o.cheap ? 8 : 4);
		if (k == 1) {
			f.compound = true;
			Field c; c.elem = s.elem; c.len = drawLength(f, o); c.disp = 0;
			f.cfields.push_back(c);
			f.elemSize = c.len * sizeOf(c.elem);
		} else if (k == 2) {
			f.compound = true;
			int n = 2 + eng::pick(5);
			for (int i = 0; i < n; i++) { Field c; c.elem = s.elem; c.len = 1; c.disp = i * sizeOf(c.elem); f.cfields.push_back(c); }
			f.elemSize = n * sizeOf(s.elem);
		} else {
			if (k >= 3 && s.elem == Grid::BYTE) { static const nc_type ts[] = { NC_INT, NC_SHORT, NC_INT64, NC_DOUBLE }; f.vtype = ts[eng::pick(4)]; }
			else if (k >= 3 && s.elem == Grid::INT) { static const nc_type ts[] = { NC_INT64, NC_DOUBLE }; f.vtype = ts[eng::pick(2)]; }
			f.elemSize = ncSize(f.vtype);
		}
	} else {
		f.compound = true;
		f.cfields = s.fields;
		size_t end = 0, al = 1;
		for (auto& c : f.cfields) { end = std::max(end, c.disp + c.len * sizeOf(c.elem)); al = std::max(al, sizeOf(c.elem)); }
		f.elemSize = (end + al - 1) / al * al;
		if (f.cfields.size() == 1 && f.cfields[0].len == 1 && f.elemSize == sizeOf(s.elem) && eng::chance(1, 2)) { f.compound = false; }
	}
	if (f.compound) f.format = 3;
	else {
		uint32_t k = eng::pick(o.cheap ? 12 : 5);
		f.format = k == 1 ? 3 : 0;
		bool classic = f.vtype == NC_DOUBLE || f.vtype == NC_FLOAT || f.vtype == NC_INT || f.vtype == NC_SHORT || f.vtype == NC_BYTE;
		if (classic && k >= 2 && k <= 3) f.format = k - 1;
	}
}

File drawFile(const Spec& spec, const FileOpts& o)
{
	File f;
	f.spec = spec;
	f.path = newPath();
	f.var = varNames[eng::chance(1, 4) ? eng::pick(7) : 0];
	drawAxes(f, o);
	drawLayout(f, o);
	f.salt = eng::pick(1000);
	finish(f);
	return f;
}

File drawSibling(const File& like, const FileOpts& o)
{
	File f = like;
	f.path = newPath();
	if (eng::chance(1, 2)) drawAxes(f, o);
	FileOpts same = o; same.minDims = same.maxDims = like.dims();
	if (f.dims() != like.dims()) drawAxes(f, same);
	if (f.spec.kind == Spec::BASIC && eng::chance(1, 2)) drawLayout(f, o);
	f.salt = eng::pick(1000) + 1000;
	finish(f);
	return f;
}

Grid* createGrid(const Lib& l, const Spec& s)
{
	if (s.kind != Spec::STRUCT) { IN_LIB; return lib::create(l, s.elem, s.kind == Spec::ARRAY); }
	// (of the exact size, and gone afterwards)
	std::vector<unsigned int> len; std::vector<unsigned long> disp; std::vector<GType> t;
	for (auto& f : s.fields) { len.push_back(f.len); disp.push_back(f.disp); t.push_back(f.elem); }
	len.shrink_to_fit(); disp.shrink_to_fit(); t.shrink_to_fit();
	IN_LIB;
	return lib::create(l, s.fields.size(), len.data(), disp.data(), t.data());
}

void classify(const File& f, Pos& p)
{
	p.outside = p.mid = p.inf = false;
	for (unsigned d = 0; d < f.dims(); d++) {
		const Axis& a = f.user(d);
		p.ok[d].clear();
		if (std::isinf(p.x[d])) p.inf = true;
		if (a.n == 1) { p.ok[d].push_back(0); continue; }
		if (a.constant()) { for (size_t i = 0; i < a.n; i++) p.ok[d].push_back(i); continue; }
		double off = a.offset(), sc = a.scaling();
		if (std::isinf(p.x[d])) { p.ok[d].push_back((p.x[d] > 0) == (sc > 0) ? a.n - 1 : 0); p.outside = true; continue; }
		long double t = (static_cast<long double>(p.x[d]) - off) / sc;
		if (t < -0.5L || t > a.n - 0.5L) p.outside = true;
		if (t <= 0) { p.ok[d].push_back(0); continue; }
		if (t >= a.n - 1) { p.ok[d].push_back(a.n - 1); continue; }
		long double fl = std::floor(t), fr = t - fl;
		size_t i = static_cast<size_t>(fl);
		// rounding of the coordinates stored in the file and of the arithmetic
		long double tol = 1e-7L + 8 * std::fabs(off / sc) * (a.ctype == NC_FLOAT ? 1.2e-7L : 2.3e-16L) + (a.ctype == NC_FLOAT ? 8 * a.n * 1.2e-7L : 0);
		if (fr < 0.5L + tol) p.ok[d].push_back(i);
		if (fr > 0.5L - tol) p.ok[d].push_back(i + 1);
		if (p.ok[d].size() > 1) p.mid = true;
	}
}

std::vector<size_t> Pos::cells(const File& f) const
{
	std::vector<size_t> res(1, 0);
	// file order
	for (unsigned i = 0; i < f.dims(); i++) {
		const std::vector<size_t>& o = ok[f.dims() - 1 - i];
		std::vector<size_t> n;
		for (size_t r : res) for (size_t k : o) n.push_back(r * f.axes[i].n + k);
		res = n;
	}
	return res;
}

std::string Pos::describe(unsigned dims) const
{
	std::string s = "(";
	for (unsigned i = 0; i < dims; i++) { char b[64]; snprintf(b, sizeof b, "%s%.17g", i ? ", " : "", x[i]); s += b; }
	return s + ")";
}

Pos drawPos(const File& f)
{
	Pos p;
	for (int i = 0; i < MAXD; i++) p.x[i] = std::numeric_limits<double>::quiet_NaN();	// must not be used
	for (unsigned d = 0; d < f.dims(); d++) {
		const Axis& a = f.user(d);
		double off = a.offset(), sc = a.n > 1 ? a.scaling() : a.var && a.step != 0 ? a.step : 1;
		uint32_t where = eng::pick(16);
		double t;
		if (where < 13) {
			static const double fr[] = { 0, 0.25, -0.25, 0.4, -0.4, 0.49, -0.49, 0.499, -0.499, 0.5, -0.5, 0.125, 0 };
			t = eng::pick(a.n) + fr[eng::pick(13)];
			p.x[d] = off + t * sc;
		} else if (where == 13) {
			static const double far[] = { 0.51, 1, 1.5, 3, 100, 1e6, 1e12 };
			double o = far[eng::pick(7)];
			t = eng::chance(1, 2) ? -o : a.n - 1 + o;
			p.x[d] = off + t * sc;
		} else if (where == 14) {
			static const double big[] = { 1e100, -1e100, 1.7976931348623157e308, -1.7976931348623157e308, 1e-300, -0.0, 9.3e18, -9.3e18, 1.9e19, 4.3e9 };
			p.x[d] = big[eng::pick(10)];
		} else
			p.x[d] = eng::chance(1, 2) ? -INF : INF;
	}
	classify(f, p);
	return p;
}

Pos posOf(const File& f, size_t cell)
{
	Pos p;
	for (int i = 0; i < MAXD; i++) p.x[i] = std::numeric_limits<double>::quiet_NaN();
	for (unsigned d = 0; d < f.dims(); d++) {
		const Axis& a = f.user(d);
		size_t i = cell % a.n; cell /= a.n;
		p.x[d] = a.n > 1 ? a.offset() + i * a.scaling() : a.offset();
	}
	classify(f, p);
	return p;
}

// ---------------------------------------------------------------- values

template<typename T> static T as(const unsigned char* p) { T x; memcpy(&x, p, sizeof x); return x; }

/** Value of type S converted to each type */
template<typename S> static bool fits(S v, int r)
{
	double d = static_cast<double>(v);
	if (std::is_integral<S>::value) return true;
	if (d != d) return r == R_FLOAT || r == R_DOUBLE || r == R_BUF;
	switch (r) {
	case R_BYTE: return d > -1 && d < 256;
	case R_INT: return d > -2147483649.0 && d < 2147483648.0;
	case R_LONG: return d > -9.2e18 && d < 9.2e18;
	default: return true;
	}
}
template<typename S> static std::vector<unsigned char> conv(S v, int r)
{
	std::vector<unsigned char> o;
	auto add = [&](auto x) { o.resize(sizeof x); memcpy(o.data(), &x, sizeof x); };
	switch (r) {
	case R_BYTE: add(static_cast<unsigned char>(v)); break;
	case R_INT: add(static_cast<int>(v)); break;
	case R_LONG: add(static_cast<long>(v)); break;
	case R_FLOAT: add(static_cast<float>(v)); break;
	case R_DOUBLE: add(static_cast<double>(v)); break;
	default: add(v);
	}
	return o;
}

template<typename F> static void withElem(GType t, const unsigned char* p, F f)
{
	switch (t) {
	case Grid::BYTE: f(as<unsigned char>(p)); break;
	case Grid::INT: f(as<int>(p)); break;
	case Grid::LONG: f(as<long>(p)); break;
	case Grid::FLOAT: f(as<float>(p)); break;
	default: f(as<double>(p));
	}
}
template<typename F> static void withNc(nc_type t, const unsigned char* p, F f)
{
	switch (t) {
	case NC_BYTE: f(as<signed char>(p)); break; case NC_UBYTE: f(as<unsigned char>(p)); break;
	case NC_SHORT: f(as<short>(p)); break; case NC_USHORT: f(as<unsigned short>(p)); break;
	case NC_INT: f(as<int>(p)); break; case NC_UINT: f(as<unsigned>(p)); break;
	case NC_INT64: f(as<long>(p)); break; case NC_UINT64: f(as<unsigned long>(p)); break;
	case NC_FLOAT: f(as<float>(p)); break; default: f(as<double>(p));
	}
}

/** The first element of the grid's value (in the element type) */
template<typename F> static void element(const File& f, size_t cell, F fn)
{
	const unsigned char* p = &f.raw[cell * f.elemSize];
	if (f.spec.kind != Spec::BASIC) { withElem(f.spec.elem, p, fn); return; }
	GType e = f.spec.elem;
	withNc(f.vtype, p, [&](auto v) {
		switch (e) {
		case Grid::BYTE: fn(static_cast<unsigned char>(v)); break;
		case Grid::INT: fn(static_cast<int>(v)); break;
		case Grid::LONG: fn(static_cast<long>(v)); break;
		case Grid::FLOAT: fn(static_cast<float>(v)); break;
		default: fn(static_cast<double>(v));
		}
	});
}

std::vector<unsigned char> expected(const File& f, size_t cell, int r)
{
	if (r == R_BUF && f.spec.kind != Spec::BASIC)
		return std::vector<unsigned char>(f.raw.begin() + cell * f.elemSize, f.raw.begin() + (cell + 1) * f.elemSize);
	std::vector<unsigned char> o;
	element(f, cell, [&](auto v) { o = conv(v, r); });
	return o;
}

bool matches(const File& f, size_t cell, int r, const std::vector<unsigned char>& res)
{
	std::vector<unsigned char> e = expected(f, cell, r);
	if (e.size() != res.size()) return false;
	for (size_t i = 0; i < e.size(); i++)
		if (e[i] != res[i] && (r != R_BUF || f.spec.kind == Spec::BASIC || f.cover[i])) return false;
	return true;
}

bool readable(const File& f, const std::vector<size_t>& cells, int r)
{
	bool ok = true;
	for (size_t c : cells) element(f, c, [&](auto v) { if (!fits(v, r)) ok = false; });
	return ok;
}

int drawRead(const File& f, const Pos& p)
{
	static const int order[] = { R_DOUBLE, R_BUF, R_FLOAT, R_INT, R_LONG, R_BYTE };
	int r = order[eng::pick(6)];
	if (!readable(f, p.cells(f), r)) r = R_DOUBLE;
	return r;
}

std::vector<unsigned char> readRaw(Grid* g, const File& f, const Pos& p, int r, unsigned level)
{
	// exact heap copies: reads and writes beyond the end are seen by AddressSanitizer
	std::unique_ptr<double[]> x(new double[f.dims()]);
	for (unsigned i = 0; i < f.dims(); i++) x[i] = p.x[i];
	std::vector<unsigned char> o;
	auto add = [&](auto v) { o.resize(sizeof v); memcpy(o.data(), &v, sizeof v); };
	switch (r) {
	case R_BYTE: { unsigned char v; { IN_LIB; v = g->getByte(x.get(), level); } add(v); break; }
	case R_INT: { int v; { IN_LIB; v = g->getInt(x.get(), level); } add(v); break; }
	case R_LONG: { long v; { IN_LIB; v = g->getLong(x.get(), level); } add(v); break; }
	case R_FLOAT: { float v; { IN_LIB; v = g->getFloat(x.get(), level); } add(v); break; }
	case R_DOUBLE: { double v; { IN_LIB; v = g->getDouble(x.get(), level); } add(v); break; }
	default: {
		size_t n = f.valueSize();
		std::unique_ptr<unsigned char[]> b(new unsigned char[n]);
		memset(b.get(), 0x5A, n);
		{ IN_LIB; g->getBuf(b.get(), x.get(), level); }
		o.assign(b.get(), b.get() + n);
	}
	}
	return o;
}

std::string hex(const std::vector<unsigned char>& v)
{
	std::string s;
	for (size_t i = 0; i < v.size() && i < 64; i++) { char b[4]; snprintf(b, sizeof b, "%02x", v[i]); s += b; }
	return s;
}

void read(Grid* g, const File& f, const Pos& p, int r, unsigned level, const char* key, const char* context)
{
	std::vector<unsigned char> res = readRaw(g, f, p, r, level);
	std::vector<size_t> cells = p.cells(f);
	for (size_t c : cells) if (matches(f, c, r, res)) return;
	// which cell is it?
	std::string also;
	for (size_t c = 0; c < f.cells(); c++) if (matches(f, c, r, res)) { also = " (this is the value of cell " + std::to_string(c) + ")"; break; }
	eng::fail(key, "%s%s at %s level %u returned bytes %s%s, expected %s (cell %zu%s)\n%s", context, readName(r), p.describe(f.dims()).c_str(), level,
		hex(res).c_str(), also.c_str(), hex(expected(f, cells[0], r)).c_str(), cells[0], cells.size() > 1 ? " or a neighbour" : "", f.describe().c_str());
}

static bool close(double a, double b, double scale)
{
	if (std::isinf(a) || std::isinf(b)) return a == b;
	return std::fabs(a - b) <= 1e-8 * scale + 4e-15 * std::max(std::fabs(a), std::fabs(b));
}

void checkMeta(Grid* g, const File& f, bool vertex, unsigned level, const char* key)
{
	unsigned dims, size;
	{ IN_LIB; dims = g->getDimensions(); size = g->getVarSize(); }
	if (dims != f.dims()) eng::fail(key, "getDimensions() = %u, the variable has %u\n%s", dims, f.dims(), f.describe().c_str());
	if (size != f.valueSize()) eng::fail(key, "getVarSize() = %u, should be %zu\n%s", size, f.valueSize(), f.describe().c_str());
	for (unsigned d = 0; d < dims; d++) {
		const Axis& a = f.user(d);
		double mn, mx, dl;
		{ IN_LIB; mn = g->getMin(d); mx = g->getMax(d); dl = g->getDelta(d, level); }
		if (a.n == 1) {
			if (level == 0 && (mn != -INF || mx != INF)) eng::fail(key, "range of one-point dimension %u is [%g,%g]\n%s", d, mn, mx, f.describe().c_str());
			if (!(dl >= 0)) eng::fail(key, "spacing of one-point dimension %u is %g\n%s", d, dl, f.describe().c_str());
			continue;
		}
		double sc = std::fabs(a.scaling());
		if (!(dl >= 0) || !close(dl, sc, sc)) eng::fail(key, "getDelta(%u, level %u) = %.17g, spacing in the file is %.17g\n%s", d, level, dl, sc, f.describe().c_str());
		if (level != 0) continue;
		double lo = std::min(a.coord(0), a.coord(a.n-1)), hi = std::max(a.coord(0), a.coord(a.n-1));
		if (!vertex) { lo -= sc / 2; hi += sc / 2; }
		if (!close(mn, lo, sc) || !close(mx, hi, sc))
			eng::fail(key, "range of dimension %u is [%.17g,%.17g], should be [%.17g,%.17g]\n%s", d, mn, mx, lo, hi, f.describe().c_str());
	}
}

}
