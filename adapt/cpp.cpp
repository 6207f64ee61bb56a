#include "asagi.h"
#include "adapt/api.h"
using asagi::Grid;
#define G static_cast<Grid*>(g)
#define T static_cast<Grid::Type>
static void* create(int t, int o) { return o ? Grid::create() : Grid::create(T(t)); }
static void* createArray(int t, int o) { return o ? Grid::createArray() : Grid::createArray(T(t)); }
static void* createStruct(unsigned int n, unsigned int* len, unsigned long* disp, const int* types)
{
	Grid::Type* t = new Grid::Type[n + 1];
	for (unsigned int i = 0; i < n; i++) t[i] = T(types[i]);
	void* r = Grid::createStruct(n, len, disp, t);
	delete [] t;
	return r;
}
static void setThreads(void* g, unsigned int n) { G->setThreads(n); }
static void setParam(void* g, const char* n, const char* v, unsigned int l, int o) { if (o) G->setParam(n, v); else G->setParam(n, v, l); }
static int open_(void* g, const char* f, unsigned int l, int o) { return o ? G->open(f) : G->open(f, l); }
static unsigned int dims(void* g) { return G->getDimensions(); }
static double min_(void* g, unsigned int n) { return G->getMin(n); }
static double max_(void* g, unsigned int n) { return G->getMax(n); }
static double delta(void* g, unsigned int n, unsigned int l, int o) { return o ? G->getDelta(n) : G->getDelta(n, l); }
static unsigned int varSize(void* g) { return G->getVarSize(); }
static unsigned char getByte(void* g, const double* p, unsigned int l, int o) { return o ? G->getByte(p) : G->getByte(p, l); }
static int getInt(void* g, const double* p, unsigned int l, int o) { return o ? G->getInt(p) : G->getInt(p, l); }
static long getLong(void* g, const double* p, unsigned int l, int o) { return o ? G->getLong(p) : G->getLong(p, l); }
static float getFloat(void* g, const double* p, unsigned int l, int o) { return o ? G->getFloat(p) : G->getFloat(p, l); }
static double getDouble(void* g, const double* p, unsigned int l, int o) { return o ? G->getDouble(p) : G->getDouble(p, l); }
static void getBuf(void* g, void* b, const double* p, unsigned int l, int o) { if (o) G->getBuf(b, p); else G->getBuf(b, p, l); }
static unsigned long counter(void* g, const char* n, unsigned int l, int o) { return o ? G->getCounter(n) : G->getCounter(n, l); }
static void close_(void* g) { Grid::close(G); }
#ifndef ASAGI_NOMPI
static int setComm(void* g, void* c) { return G->setComm(static_cast<MPI_Comm>(c)); }
static int startComm(int cpu, void* c) { return Grid::startCommThread(cpu, static_cast<MPI_Comm>(c)); }
static void stopComm() { Grid::stopCommThread(); }
static int nodeLocalRank(void* c) { return Grid::nodeLocalRank(static_cast<MPI_Comm>(c)); }
static const int hasMpi = 1;
#else
static int setComm(void*, void*) { return -2; }
static int startComm(int, void*) { return -2; }
static void stopComm() { }
static int nodeLocalRank(void*) { return -2; }
static const int hasMpi = 0;
#endif
extern "C" const verif_api verif_api_cpp = { "C++",
	{ Grid::BYTE, Grid::INT, Grid::LONG, Grid::FLOAT, Grid::DOUBLE },
	{ Grid::SUCCESS, Grid::MPI_ERROR, Grid::THREAD_ERROR, Grid::NUMA_ERROR, Grid::UNKNOWN_PARAM, Grid::INVALID_VALUE, Grid::NOT_INITIALIZED,
		Grid::ALREADY_INITIALIZED, Grid::NOT_OPEN, Grid::VAR_NOT_FOUND, Grid::WRONG_SIZE, Grid::UNSUPPORTED_DIMENSIONS, Grid::INVALID_VAR_SIZE },
	0, hasMpi, create, createArray, createStruct, setThreads, setComm, setParam, open_, dims, min_, max_, delta, varSize,
	getByte, getInt, getLong, getFloat, getDouble, getBuf, counter, close_, startComm, stopComm, nodeLocalRank };
