// Entry points of the parts that call MPI without other processes (compiled with the library's sources)
#include "allocator/mpialloc.h"
#include "io/netcdfreader.h"
#include "mpi/mpicomm.h"
#include "types/arraytype.h"
#include "types/structtype.h"

#include <mutex>

namespace {
struct Any {
	virtual ~Any() {}
	virtual int check(const io::NetCdfReader& f) = 0;
	virtual const types::Type& type() = 0;
};
template<typename T> struct Array : Any {
	types::ArrayType<T> t;
	int check(const io::NetCdfReader& f) { return t.check(f); }
	const types::Type& type() { return t; }
};
struct Struct : Any {
	types::StructType<int>* t;
	Struct(unsigned n, unsigned* len, unsigned long* disp, asagi::Grid::Type* ty) : t(static_cast<types::StructType<int>*>(types::createStruct(n, len, disp, ty))) {}
	~Struct() { delete t; }
	int check(const io::NetCdfReader& f) { return t->check(f); }
	const types::Type& type() { return *t; }
};
}

extern "C" {

void* sp_file(const char* path) { return new io::NetCdfReader(path, 0); }
int sp_fileOpen(void* f, const char* var) { return static_cast<io::NetCdfReader*>(f)->open(var); }
void sp_fileDelete(void* f) { delete static_cast<io::NetCdfReader*>(f); }
void* sp_array() { return static_cast<Any*>(new Array<int>()); }
void* sp_struct(unsigned n, unsigned* len, unsigned long* disp, asagi::Grid::Type* ty) { return static_cast<Any*>(new Struct(n, len, disp, ty)); }
int sp_check(void* t, void* f) { return static_cast<Any*>(t)->check(*static_cast<io::NetCdfReader*>(f)); }
unsigned sp_size(void* t) { return static_cast<Any*>(t)->type().size(); }
/** Packs one value: the type must be ready */
int sp_pack(void* t, void* value, void* buf, int size, MPI_Comm comm)
{
	MPI_Datatype d = static_cast<Any*>(t)->type().getMPIType();
	std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
	return MPI_Sendrecv(value, 1, d, 0, 0, buf, size, MPI_BYTE, 0, 0, comm, MPI_STATUS_IGNORE);
}
void sp_delete(void* t) { delete static_cast<Any*>(t); }
void* sp_comm() { return new mpi::MPIComm(); }
int sp_commInit(void* c, MPI_Comm comm) { return static_cast<mpi::MPIComm*>(c)->init(comm); }
int sp_commSize(void* c) { return static_cast<mpi::MPIComm*>(c)->size(); }
void sp_commDelete(void* c) { delete static_cast<mpi::MPIComm*>(c); }
int sp_alloc(unsigned long n, unsigned char** p) { return allocator::MPIAlloc::allocate(n, *p); }
void sp_free(unsigned char* p) { allocator::MPIAlloc::free(p); }
void sp_other(MPI_Comm comm)
{
	std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
	int r; MPI_Comm_rank(comm, &r);
}

}
