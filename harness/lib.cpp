#include "lib.h"

#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <set>
#include <unistd.h>

static std::vector<Lib*> libs;
static unsigned long warnCount = 0;

extern "C" void verif_log(int level) { if (level == 2) warnCount++; }

void* Lib::sym(const char* name, bool need) const
{
	void* p = dlsym(handle, name);
	if (!p && need) { fprintf(stderr, "symbol %s is missing\n", name); exit(2); }
	return p;
}

namespace lib {

unsigned long warnings() { unsigned long w = warnCount; warnCount = 0; return w; }

Lib* loadOther(const char* file)
{
	static int n = 0;
	std::string copy = eng::scratch() + "/lib" + std::to_string(n++) + ".so";
	{
		std::ifstream in(file, std::ios::binary);
		std::ofstream out(copy, std::ios::binary);
		out << in.rdbuf();
		if (!in || !out) { fprintf(stderr, "cannot copy %s\n", file); exit(2); }
	}
	Lib* l = new Lib();
	l->handle = dlopen(copy.c_str(), RTLD_NOW | RTLD_LOCAL);
	if (!l->handle) { fprintf(stderr, "%s\n", dlerror()); exit(2); }
#define SYM(f, name) l->f = reinterpret_cast<decltype(l->f)>(l->sym(name, false))
	SYM(create, "_ZN5asagi4Grid6createENS0_4TypeE");
	SYM(createArray, "_ZN5asagi4Grid11createArrayENS0_4TypeE");
	SYM(createStruct, "_ZN5asagi4Grid12createStructEjPjPmPNS0_4TypeE");
	SYM(startCommThread, "_ZN5asagi4Grid15startCommThreadEiP9fmpi_comm");
	SYM(stopCommThread, "_ZN5asagi4Grid14stopCommThreadEv");
	SYM(nodeLocalRank, "_ZN5asagi4Grid13nodeLocalRankEP9fmpi_comm");
	l->api[0] = static_cast<const verif_api*>(l->sym("verif_api_cpp", false));
	l->api[1] = static_cast<const verif_api*>(l->sym("verif_api_c", false));
	l->api[2] = static_cast<const verif_api*>(l->sym("verif_api_f", false));
	SYM(fromHandle, "_ZN4grid4Grid3f2cEi");
	if (!l->create || !l->createArray || !l->createStruct) { fprintf(stderr, "library entry points are missing\n"); exit(2); }
	return l;
}

static const char* loadEnv = "VERIF_LIB";

void need(int n) { if (static_cast<int>(libs.size()) < n) load(n, loadEnv); }

void load(int n, const char* env)
{
	loadEnv = env;
	const char* file = getenv(env);
	if (!file) { fprintf(stderr, "%s is not set\n", env); exit(2); }
	while (static_cast<int>(libs.size()) < n) {
		sched::setRank(libs.size());
		libs.push_back(loadOther(file));
	}
	sched::setRank(0);
}

Lib& of(int rank) { return *libs.at(rank); }

// ---------------------------------------------------------------- languages
static bool langOn;
static unsigned langSalt, langGrids, langCalls;
static std::map<const Lib*, std::set<int> > liveHandles;

Languages::Languages(unsigned salt) { langOn = true; langSalt = salt; langGrids = langCalls = 0; liveHandles.clear(); }
Languages::~Languages() { langOn = false; }
static unsigned hashOf(unsigned a, unsigned b)
{
	unsigned h = a * 2654435761u ^ (b + 0x9e3779b9u) * 40503u;
	h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; h *= 3266489917u; h ^= h >> 16;
	return h;
}
static GError toError(const verif_api* a, int v, const char* fn)
{
	for (int i = 0; i < 13; i++) if (a->errors[i] == v) return static_cast<GError>(i);
	eng::fail("language-error", "%s of the %s interface returned %d, which is none of its error constants", fn, a->name, v);
}

/** A grid that is used through the interface of one or several languages */
class Proxy : public asagi::Grid {
	const Lib& l;
	const verif_api* fixed;
	void* h;
	const verif_api* api() const { return fixed ? fixed : l.api[hashOf(langSalt, langCalls++) & 1]; }
	static int omit(unsigned level) { return level == 0 && (hashOf(langSalt, langCalls++) & 1); }
public:
	Proxy(const Lib& lib, const verif_api* a, void* handle) : l(lib), fixed(a && a->handles ? a : 0), h(handle) {}
	~Proxy()
	{
		if (fixed && fixed->handles) liveHandles[&l].erase(static_cast<int>(reinterpret_cast<intptr_t>(h)));
		api()->close(h);
	}
	GError setComm(MPI_Comm c)
	{
		const verif_api* a = api();
		int e = a->setComm(h, c);
		return e == -1 ? SUCCESS : toError(a, e, "set_comm");
	}
	GError setThreads(unsigned n) { api()->setThreads(h, n); return SUCCESS; }
	void setParam(const char* n, const char* v, unsigned level) { api()->setParam(h, n, v, level, omit(level)); }
	GError open(const char* f, unsigned level) { const verif_api* a = api(); return toError(a, a->open(h, f, level, omit(level)), "open"); }
	unsigned getDimensions() const { return api()->dims(h); }
	double getMin(unsigned n) const { return api()->min(h, n); }
	double getMax(unsigned n) const { return api()->max(h, n); }
	double getDelta(unsigned n, unsigned level) const { return api()->delta(h, n, level, omit(level)); }
	unsigned getVarSize() const { return api()->varSize(h); }
	unsigned char getByte(const double* p, unsigned level) { return api()->getByte(h, p, level, omit(level)); }
	int getInt(const double* p, unsigned level) { return api()->getInt(h, p, level, omit(level)); }
	long getLong(const double* p, unsigned level) { return api()->getLong(h, p, level, omit(level)); }
	float getFloat(const double* p, unsigned level) { return api()->getFloat(h, p, level, omit(level)); }
	double getDouble(const double* p, unsigned level) { return api()->getDouble(h, p, level, omit(level)); }
	void getBuf(void* b, const double* p, unsigned level) { api()->getBuf(h, b, p, level, omit(level)); }
	/** (not part of the interfaces for C and Fortran) */
	unsigned long getCounter(const char* n, unsigned level)
	{
		if (!fixed) return l.api[0]->counter(h, n, level, omit(level));
		Grid* g = l.fromHandle(static_cast<int>(reinterpret_cast<intptr_t>(h)));
		if (!g) eng::fail("handle", "the number of a live grid does not lead to a grid");
		return l.api[0]->counter(g, n, level, omit(level));
	}
};
static const verif_api* pickApi(const Lib& l)
{
	unsigned k = hashOf(langSalt, 77777 + langGrids++) % 5;
	return l.api[k < 2 && l.fromHandle ? 2 : k & 1];
}
static Grid* wrap(const Lib& l, const verif_api* a, void* h)
{
	if (a->handles) {
		int id = static_cast<int>(reinterpret_cast<intptr_t>(h));
		if (!liveHandles[&l].insert(id).second) eng::fail("handle", "a new grid got the number %d of another grid that is not closed", id);
		eng::stat("grids used by Fortran");
	} else {
		if (!h) eng::fail("create", "create of the %s interface returned a null pointer", a->name);
		eng::stat("grids used by C and C++");
	}
	return new Proxy(l, a, h);
}
Grid* create(const Lib& l, GType t, bool array)
{
	if (!langOn) return array ? l.createArray(t) : l.create(t);
	const verif_api* a = pickApi(l);
	bool o = t == Grid::FLOAT && (langGrids & 1);
	return wrap(l, a, array ? a->createArray(a->types[t], o) : a->create(a->types[t], o));
}
Grid* create(const Lib& l, unsigned n, unsigned* len, unsigned long* disp, GType* types)
{
	if (!langOn) return l.createStruct(n, len, disp, types);
	const verif_api* a = pickApi(l);
	std::vector<int> t;
	for (unsigned i = 0; i < n; i++) t.push_back(a->types[types[i]]);
	return wrap(l, a, a->createStruct(n, len, disp, t.data()));
}
GError startCommThread(const Lib& l, int cpu, MPI_Comm c)
{
	if (!langOn) return l.startCommThread(cpu, c);
	const verif_api* a = pickApi(l);
	return toError(a, a->startComm(cpu, c), "start_comm_thread");
}
void stopCommThread(const Lib& l) { if (langOn) pickApi(l)->stopComm(); else l.stopCommThread(); }
int nodeLocalRank(const Lib& l, MPI_Comm c) { return langOn ? pickApi(l)->nodeLocalRank(c) : l.nodeLocalRank(c); }
void checkConstants(const Lib& l)
{
	for (int k = 0; k < 3; k++) {
		for (int i = 0; i < 5; i++)
			if (l.api[k]->types[i] != i) eng::fail("constants", "type constant number %d has the value %d in the %s interface", i, l.api[k]->types[i], l.api[k]->name);
		for (int i = 0; i < 13; i++)
			if (l.api[k]->errors[i] != i) eng::fail("constants", "%s has the value %d in the %s interface, %d in C++", errName(i), l.api[k]->errors[i], l.api[k]->name, i);
	}
}

const char* errName(int e)
{
	static const char* n[] = { "SUCCESS", "MPI_ERROR", "THREAD_ERROR", "NUMA_ERROR", "UNKNOWN_PARAM", "INVALID_VALUE", "NOT_INITIALIZED",
		"ALREADY_INITIALIZED", "NOT_OPEN", "VAR_NOT_FOUND", "WRONG_SIZE", "UNSUPPORTED_DIMENSIONS", "INVALID_VAR_SIZE" };
	return e >= 0 && e < 13 ? n[e] : "?";
}

}
