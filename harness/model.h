// Files, coordinates, values: the reference model the library is compared with
#ifndef VERIF_MODEL_H
#define VERIF_MODEL_H

#include "lib.h"
#include <cstdlib>

#include <map>
#include <memory>
#include <netcdf.h>

namespace model {

/** One dimension; `var`: it has a coordinate variable */
struct Axis {
	size_t n;
	bool var;
	nc_type ctype;
	double first, step;	// coordinate of cell i: first + i*step
	double coord(size_t i) const;	// as stored in the file
	double offset() const { return coord(0); }
	double scaling() const;		// signed distance of two cells
	bool constant() const { return n > 1 && var && step == 0; }
};

struct Field { GType elem; unsigned int len; size_t disp; };

/** The type of the values of the grid */
struct Spec {
	enum Kind { BASIC, ARRAY, STRUCT } kind;
	GType elem;			// element type (structs: of the first field)
	std::vector<Field> fields;	// structs only
};

enum Read { R_BYTE, R_INT, R_LONG, R_FLOAT, R_DOUBLE, R_BUF };

/** A file with one variable */
struct File {
	std::string path, var;
	int format;		// 0: CDF5, 1: classic, 2: 64-bit offset, 3: netCDF4
	std::vector<Axis> axes;	// in the order of the declaration
	nc_type vtype;		// type of the variable if it is no compound
	bool compound;
	std::vector<Field> cfields;	// fields of the compound
	size_t elemSize;	// bytes per value in the file
	std::vector<unsigned char> raw;	// the values
	std::vector<unsigned char> cover;	// bytes of a value that are not padding
	Spec spec;
	uint64_t salt;

	size_t cells() const { size_t c = 1; for (auto& a : axes) c *= a.n; return c; }
	unsigned dims() const { return axes.size(); }
	/** axis in the order of the user interface */
	const Axis& user(unsigned d) const { return axes[axes.size() - 1 - d]; }
	/** bytes per value in the grid */
	size_t valueSize() const;
	/** index of a cell */
	size_t cell(const size_t* idxFileOrder) const;
	std::string describe() const;
};

size_t sizeOf(GType t);
const char* typeName(GType t);
const char* readName(int r);

/** What to generate */
/** MAX_DIMENSIONS of the library (all variants but one: 4) */
extern const int maxDims;
enum { MAXD = 6 };

struct FileOpts {
	int minDims, maxDims;
	size_t maxCells;
	bool constants;		// axes with spacing 0
	bool cheap;		// no netCDF4 unless necessary
	bool padding;		// structs with gaps
	std::vector<GType> basic, array, strct;	// element types to be used
	size_t minAxis;
	bool longAxes;		// axes with thousands of points
	bool largeValues;	// arrays and structures of more than 255 or 65535 bytes
	FileOpts() : minDims(1), maxDims(model::maxDims), maxCells(600), constants(false), cheap(true), padding(true), minAxis(1), longAxes(false), largeValues(false)
	{
		basic = { Grid::FLOAT, Grid::BYTE, Grid::INT, Grid::LONG, Grid::DOUBLE };
		array = strct = { Grid::INT, Grid::BYTE, Grid::LONG, Grid::FLOAT, Grid::DOUBLE };
		if (getenv("VERIF_SMALL")) reduce();
	}
	void reduce() { basic = { Grid::FLOAT, Grid::INT, Grid::DOUBLE, Grid::BYTE, Grid::LONG }; array = { Grid::INT }; strct = { Grid::INT }; }
	/** element types of the library variants with a reduced type list */
	static FileOpts small()
	{
		FileOpts o;
		o.reduce();
		return o;
	}
};
Spec drawSpec(const FileOpts& o);
/** Generates a file for a grid of the given type and writes it */
File drawFile(const Spec& spec, const FileOpts& o);
/** As `like`, with other values, sizes and axes (the value type fits the same grid) */
File drawSibling(const File& like, const FileOpts& o);
/** Fills values and writes the file */
void finish(File& f);
/** Only writes */
void write(const File& f);

Grid* createGrid(const Lib& l, const Spec& s);

/** A coordinate with the set of cells that may be returned */
struct Pos {
	double x[MAXD];			// user order
	std::vector<size_t> ok[MAXD];	// acceptable indices, user order
	std::vector<size_t> cells(const File& f) const;
	std::string describe(unsigned dims) const;
	bool outside, mid, inf;
};
Pos drawPos(const File& f);
/** The centre of a cell */
Pos posOf(const File& f, size_t cell);
/** Fills the acceptable indices for x[] */
void classify(const File& f, Pos& p);

/** Can the value be read as r without undefined conversions? */
bool readable(const File& f, const std::vector<size_t>& cells, int r);
int drawRead(const File& f, const Pos& p);
/** Reads with the library and compares with the file; fails with `key` */
void read(Grid* g, const File& f, const Pos& p, int r, unsigned level, const char* key, const char* context = "");
/** Only reads: bytes of the result */
std::vector<unsigned char> readRaw(Grid* g, const File& f, const Pos& p, int r, unsigned level);
/** Does the result fit to one of the cells? */
bool matches(const File& f, size_t cell, int r, const std::vector<unsigned char>& res);
std::string hex(const std::vector<unsigned char>& v);
/** Expected result of reading a cell */
std::vector<unsigned char> expected(const File& f, size_t cell, int r);

/** Checks dimensions, range, spacing and value size */
void checkMeta(Grid* g, const File& f, bool vertex, unsigned level, const char* key);

}

#endif
