// Access to the library under test: every simulated process loads its own copy
#ifndef VERIF_LIB_H
#define VERIF_LIB_H

#include "asagi.h"
#include "engine/engine.h"
#include "engine/sched.h"
#include "fakempi/fakempi.h"
#include "adapt/api.h"

#include <string>
#include <vector>

typedef asagi::Grid Grid;
typedef asagi::Grid::Type GType;
typedef asagi::Grid::Error GError;

struct Lib {
	void* handle;
	// C++
	Grid* (*create)(GType);
	Grid* (*createArray)(GType);
	Grid* (*createStruct)(unsigned int, unsigned int*, unsigned long*, GType*);
	GError (*startCommThread)(int, MPI_Comm);
	void (*stopCommThread)();
	int (*nodeLocalRank)(MPI_Comm);
	// the interfaces of the languages
	const verif_api* api[3];
	Grid* (*fromHandle)(int);
	void* sym(const char* name, bool need = true) const;
};

namespace lib {
/** The copy of process `rank` */
Lib& of(int rank);
/** Loads `n` copies of $VERIF_LIB (or of the file in the given environment variable) */
void load(int n, const char* env = "VERIF_LIB");
/** At least `n` copies of the file given to load() */
void need(int n);
/** A separate library (build variant) */
Lib* loadOther(const char* file);
const char* errName(int e);
/** While this exists grids are created and used through the interfaces of all languages; `salt` selects them.
 * Default: the C++ interface of this build */
struct Languages { Languages(unsigned salt); ~Languages(); };
Grid* create(const Lib& l, GType t, bool array);
Grid* create(const Lib& l, unsigned n, unsigned* len, unsigned long* disp, GType* types);
GError startCommThread(const Lib& l, int cpu, MPI_Comm c);
void stopCommThread(const Lib& l);
int nodeLocalRank(const Lib& l, MPI_Comm c);
/** Error and type constants of the languages are the same */
void checkConstants(const Lib& l);
/** Number of warnings logged since the last call */
unsigned long warnings();
}

/** Calls of the library are made inside of this */
#define IN_LIB sched::LibScope inLibScope

#endif
