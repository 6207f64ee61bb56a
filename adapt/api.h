/* The interface of the library in one language and build variant, as a table (compiled into the library under test) */
#ifndef VERIF_API_H
#define VERIF_API_H
#ifdef __cplusplus
extern "C" {
#endif
struct verif_api {
	const char* name;
	int types[5], errors[13];	/* values of the named constants */
	int handles;			/* grids are identified by numbers */
	int hasMpi;
	void* (*create)(int type, int omit);
	void* (*createArray)(int type, int omit);
	void* (*createStruct)(unsigned int n, unsigned int* len, unsigned long* disp, const int* types);
	void (*setThreads)(void* g, unsigned int n);
	int (*setComm)(void* g, void* comm);	/* -1: no result */
	void (*setParam)(void* g, const char* name, const char* value, unsigned int level, int omit);
	int (*open)(void* g, const char* file, unsigned int level, int omit);
	unsigned int (*dims)(void* g);
	double (*min)(void* g, unsigned int n);
	double (*max)(void* g, unsigned int n);
	double (*delta)(void* g, unsigned int n, unsigned int level, int omit);
	unsigned int (*varSize)(void* g);
	unsigned char (*getByte)(void* g, const double* pos, unsigned int level, int omit);
	int (*getInt)(void* g, const double* pos, unsigned int level, int omit);
	long (*getLong)(void* g, const double* pos, unsigned int level, int omit);
	float (*getFloat)(void* g, const double* pos, unsigned int level, int omit);
	double (*getDouble)(void* g, const double* pos, unsigned int level, int omit);
	void (*getBuf)(void* g, void* buf, const double* pos, unsigned int level, int omit);
	unsigned long (*counter)(void* g, const char* name, unsigned int level, int omit);	/* may be missing */
	void (*close)(void* g);
	int (*startComm)(int cpu, void* comm);
	void (*stopComm)(void);
	int (*nodeLocalRank)(void* comm);
};
#ifdef __cplusplus
}
#endif
#endif
