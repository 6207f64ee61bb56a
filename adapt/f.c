#include "adapt/api.h"
#include <stdint.h>
#include <string.h>
#ifndef ASAGI_NOMPI
#include "mpi.h"
static int fcomm(void* c) { return MPI_Comm_c2f((MPI_Comm) c); }
#define HAS_MPI 1
#else
static int fcomm(void* c) { return 0; }
#define HAS_MPI 0
#endif
#define G ((int) (intptr_t) g)
#define H(x) ((void*) (intptr_t) (x))
void vf_constants(int*, int*);
int vf_create(int, int); int vf_create_array(int, int); int vf_create_struct(int, const int*, const long*, const int*);
void vf_set_threads(int, int); void vf_set_comm(int, int);
void vf_set_param(int, const char*, int, const char*, int, int, int);
int vf_open(int, const char*, int, int, int); int vf_dims(int); double vf_min(int, int); double vf_max(int, int); double vf_delta(int, int, int, int); int vf_var_size(int);
char vf_get_byte(int, const double*, int, int); int vf_get_int(int, const double*, int, int); long vf_get_long(int, const double*, int, int);
float vf_get_float(int, const double*, int, int); double vf_get_double(int, const double*, int, int); void vf_get_buf(int, void*, const double*, int, int);
void vf_close(int); int vf_start_comm(int, int); void vf_stop_comm(void); int vf_node_local_rank(int);

static void* create(int t, int o) { return H(vf_create(t, o)); }
static void* createArray(int t, int o) { return H(vf_create_array(t, o)); }
static void* createStruct(unsigned int n, unsigned int* len, unsigned long* disp, const int* types) { return H(vf_create_struct(n, (int*) len, (long*) disp, types)); }
static void setThreads(void* g, unsigned int n) { vf_set_threads(G, n); }
static int setComm(void* g, void* c) { vf_set_comm(G, fcomm(c)); return -1; }
static void setParam(void* g, const char* n, const char* v, unsigned int l, int o) { vf_set_param(G, n, strlen(n), v, strlen(v), l, o); }
static int open_(void* g, const char* f, unsigned int l, int o) { return vf_open(G, f, strlen(f), l, o); }
static unsigned int dims(void* g) { return vf_dims(G); }
static double min_(void* g, unsigned int n) { return vf_min(G, n); }
static double max_(void* g, unsigned int n) { return vf_max(G, n); }
static double delta(void* g, unsigned int n, unsigned int l, int o) { return vf_delta(G, n, l, o); }
static unsigned int varSize(void* g) { return vf_var_size(G); }
static unsigned char getByte(void* g, const double* p, unsigned int l, int o) { return vf_get_byte(G, p, l, o); }
static int getInt(void* g, const double* p, unsigned int l, int o) { return vf_get_int(G, p, l, o); }
static long getLong(void* g, const double* p, unsigned int l, int o) { return vf_get_long(G, p, l, o); }
static float getFloat(void* g, const double* p, unsigned int l, int o) { return vf_get_float(G, p, l, o); }
static double getDouble(void* g, const double* p, unsigned int l, int o) { return vf_get_double(G, p, l, o); }
static void getBuf(void* g, void* b, const double* p, unsigned int l, int o) { vf_get_buf(G, b, p, l, o); }
static void close_(void* g) { vf_close(G); }
static int startComm(int cpu, void* c) { return vf_start_comm(cpu, fcomm(c)); }
static void stopComm(void) { vf_stop_comm(); }
static int nodeLocalRank(void* c) { return vf_node_local_rank(fcomm(c)); }
struct verif_api verif_api_f = { "Fortran", { 0 }, { 0 },
	1, HAS_MPI, create, createArray, createStruct, setThreads, setComm, setParam, open_, dims, min_, max_, delta, varSize,
	getByte, getInt, getLong, getFloat, getDouble, getBuf, 0, close_, startComm, stopComm, nodeLocalRank };
__attribute__((constructor)) static void constants(void) { vf_constants(verif_api_f.types, verif_api_f.errors); }
