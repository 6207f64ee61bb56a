#include "asagi.h"
#include "adapt/api.h"
#include <stdlib.h>
static void* create(int t, int o) { return asagi_grid_create((asagi_type) t); }
static void* createArray(int t, int o) { return asagi_grid_create_array((asagi_type) t); }
static void* createStruct(unsigned int n, unsigned int* len, unsigned long* disp, const int* types)
{
	asagi_type* t = malloc((n + 1) * sizeof(asagi_type));
	unsigned int i;
	void* r;
	for (i = 0; i < n; i++) t[i] = (asagi_type) types[i];
	r = asagi_grid_create_struct(n, len, disp, t);
	free(t);
	return r;
}
static void setThreads(void* g, unsigned int n) { asagi_grid_set_threads(g, n); }
static void setParam(void* g, const char* n, const char* v, unsigned int l, int o) { asagi_grid_set_param(g, n, v, l); }
static int open_(void* g, const char* f, unsigned int l, int o) { return asagi_grid_open(g, f, l); }
static unsigned int dims(void* g) { return asagi_grid_dimensions(g); }
static double min_(void* g, unsigned int n) { return asagi_grid_min(g, n); }
static double max_(void* g, unsigned int n) { return asagi_grid_max(g, n); }
static double delta(void* g, unsigned int n, unsigned int l, int o) { return asagi_grid_delta(g, n, l); }
static unsigned int varSize(void* g) { return asagi_grid_var_size(g); }
static unsigned char getByte(void* g, const double* p, unsigned int l, int o) { return asagi_grid_get_byte(g, p, l); }
static int getInt(void* g, const double* p, unsigned int l, int o) { return asagi_grid_get_int(g, p, l); }
static long getLong(void* g, const double* p, unsigned int l, int o) { return asagi_grid_get_long(g, p, l); }
static float getFloat(void* g, const double* p, unsigned int l, int o) { return asagi_grid_get_float(g, p, l); }
static double getDouble(void* g, const double* p, unsigned int l, int o) { return asagi_grid_get_double(g, p, l); }
static void getBuf(void* g, void* b, const double* p, unsigned int l, int o) { asagi_grid_get_buf(g, b, p, l); }
static void close_(void* g) { asagi_grid_close(g); }
#ifndef ASAGI_NOMPI
static int setComm(void* g, void* c) { asagi_grid_set_comm(g, (MPI_Comm) c); return -1; }
static int startComm(int cpu, void* c) { return asagi_start_comm_thread(cpu, (MPI_Comm) c); }
static void stopComm(void) { asagi_stop_comm_thread(); }
static int nodeLocalRank(void* c) { return asagi_node_local_rank((MPI_Comm) c); }
#define HAS_MPI 1
#else
static int setComm(void* g, void* c) { return -2; }
static int startComm(int cpu, void* c) { return -2; }
static void stopComm(void) { }
static int nodeLocalRank(void* c) { return -2; }
#define HAS_MPI 0
#endif
const struct verif_api verif_api_c = { "C",
	{ ASAGI_BYTE, ASAGI_INT, ASAGI_LONG, ASAGI_FLOAT, ASAGI_DOUBLE },
	{ ASAGI_SUCCESS, ASAGI_MPI_ERROR, ASAGI_THREAD_ERROR, ASAGI_NUMA_ERROR, ASAGI_UNKNOWN_PARAM, ASAGI_INVALID_VALUE, ASAGI_NOT_INITIALIZED,
		ASAGI_ALREADY_INITIALIZED, ASAGI_NOT_OPEN, ASAGI_VAR_NOT_FOUND, ASAGI_WRONG_SIZE, ASAGI_UNSUPPORTED_DIMENSIONS, ASAGI_INVALID_VAR_SIZE },
	0, HAS_MPI, create, createArray, createStruct, setThreads, setComm, setParam, open_, dims, min_, max_, delta, varSize,
	getByte, getInt, getLong, getFloat, getDouble, getBuf, 0, close_, startComm, stopComm, nodeLocalRank };
