// In-process MPI stand-in (see DESIGN.md). Handles are opaque pointers; predefined ones are small constants.
#ifndef MPI_INCLUDED
#define MPI_INCLUDED
#define VERIF_FAKE_MPI 1
#define OMPI_MAJOR_VERSION 4
#define OMPI_MINOR_VERSION 1
#define OMPI_RELEASE_VERSION 6
#define MPI_VERSION 3
#define MPI_SUBVERSION 1

#include <stddef.h>

#ifdef __cplusplus
extern "C" {
#endif

typedef struct fmpi_comm* MPI_Comm;
typedef struct fmpi_group* MPI_Group;
typedef struct fmpi_type* MPI_Datatype;
typedef struct fmpi_win* MPI_Win;
typedef struct fmpi_req* MPI_Request;
typedef struct fmpi_op* MPI_Op;
typedef struct fmpi_info* MPI_Info;
typedef ptrdiff_t MPI_Aint;
typedef long long MPI_Offset;
typedef long long MPI_Count;
typedef int MPI_Fint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR, bytes; } MPI_Status;

#define FMPI_C(T, n) ((T) (size_t) (n))
#define MPI_COMM_NULL FMPI_C(MPI_Comm, 0)
#define MPI_COMM_WORLD FMPI_C(MPI_Comm, 1)
#define MPI_COMM_SELF FMPI_C(MPI_Comm, 2)
#define MPI_GROUP_NULL FMPI_C(MPI_Group, 0)
#define MPI_GROUP_EMPTY FMPI_C(MPI_Group, 1)
#define MPI_WIN_NULL FMPI_C(MPI_Win, 0)
#define MPI_REQUEST_NULL FMPI_C(MPI_Request, 0)
#define MPI_INFO_NULL FMPI_C(MPI_Info, 0)
#define MPI_DATATYPE_NULL FMPI_C(MPI_Datatype, 0)
#define MPI_BYTE FMPI_C(MPI_Datatype, 1)
#define MPI_CHAR FMPI_C(MPI_Datatype, 2)
#define MPI_INT FMPI_C(MPI_Datatype, 3)
#define MPI_LONG FMPI_C(MPI_Datatype, 4)
#define MPI_FLOAT FMPI_C(MPI_Datatype, 5)
#define MPI_DOUBLE FMPI_C(MPI_Datatype, 6)
#define MPI_UNSIGNED_LONG FMPI_C(MPI_Datatype, 7)
#define MPI_UNSIGNED FMPI_C(MPI_Datatype, 8)
#define MPI_UNSIGNED_CHAR FMPI_C(MPI_Datatype, 9)
#define MPI_SHORT FMPI_C(MPI_Datatype, 10)
#define MPI_LONG_LONG FMPI_C(MPI_Datatype, 11)
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_UINT64_T FMPI_C(MPI_Datatype, 12)
#define MPI_INT64_T FMPI_C(MPI_Datatype, 13)
#define MPI_AINT FMPI_C(MPI_Datatype, 14)
#define MPI_UINT32_T FMPI_C(MPI_Datatype, 15)
#define MPI_INT32_T FMPI_C(MPI_Datatype, 16)
#define MPI_UINT8_T FMPI_C(MPI_Datatype, 17)
#define MPI_SIGNED_CHAR FMPI_C(MPI_Datatype, 18)
#define MPI_C_BOOL FMPI_C(MPI_Datatype, 19)
#define MPI_OP_NULL FMPI_C(MPI_Op, 0)
#define MPI_MAX FMPI_C(MPI_Op, 1)
#define MPI_MIN FMPI_C(MPI_Op, 2)
#define MPI_SUM FMPI_C(MPI_Op, 3)
#define MPI_LOR FMPI_C(MPI_Op, 4)
#define MPI_LAND FMPI_C(MPI_Op, 5)
#define MPI_REPLACE FMPI_C(MPI_Op, 6)
#define MPI_NO_OP FMPI_C(MPI_Op, 7)
#define MPI_BOR FMPI_C(MPI_Op, 8)
#define MPI_BAND FMPI_C(MPI_Op, 9)
#define MPI_PROD FMPI_C(MPI_Op, 10)
#define MPI_IN_PLACE ((void*) 1)
#define MPI_BOTTOM ((void*) 0)
#define MPI_STATUS_IGNORE ((MPI_Status*) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status*) 0)
#define MPI_ANY_SOURCE (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ANY_TAG (-1)
#define MPI_UNDEFINED (-32766)
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING 256
#define MPI_LOCK_EXCLUSIVE 1
#define MPI_LOCK_SHARED 2
#define MPI_MODE_NOCHECK 1
#define MPI_MODE_NOSTORE 4
#define MPI_MODE_NOPUT 8
#define MPI_MODE_NOPRECEDE 2
#define MPI_MODE_NOSUCCEED 16
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_COMM_TYPE_SHARED 1

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Query_thread(int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_group(MPI_Comm, MPI_Group*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm*);
int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm*);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*);
MPI_Comm MPI_Comm_f2c(MPI_Fint);
MPI_Fint MPI_Comm_c2f(MPI_Comm);
int MPI_Group_size(MPI_Group, int*);
int MPI_Group_rank(MPI_Group, int*);
int MPI_Group_translate_ranks(MPI_Group, int, const int*, MPI_Group, int*);
int MPI_Group_free(MPI_Group*);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Barrier(MPI_Comm);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Bsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Request_free(MPI_Request*);
int MPI_Cancel(MPI_Request*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Win_create(void*, MPI_Aint, int, MPI_Info, MPI_Comm, MPI_Win*);
int MPI_Win_allocate(MPI_Aint, int, MPI_Info, MPI_Comm, void*, MPI_Win*);
int MPI_Win_free(MPI_Win*);
int MPI_Win_lock(int, int, int, MPI_Win);
int MPI_Win_unlock(int, MPI_Win);
int MPI_Win_lock_all(int, MPI_Win);
int MPI_Win_unlock_all(MPI_Win);
int MPI_Win_flush(int, MPI_Win);
int MPI_Win_flush_local(int, MPI_Win);
int MPI_Win_flush_all(MPI_Win);
int MPI_Win_flush_local_all(MPI_Win);
int MPI_Win_sync(MPI_Win);
int MPI_Win_fence(int, MPI_Win);
int MPI_Get(void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Put(const void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Accumulate(const void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Get_accumulate(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Fetch_and_op(const void*, void*, MPI_Datatype, int, MPI_Aint, MPI_Op, MPI_Win);
int MPI_Compare_and_swap(const void*, const void*, void*, MPI_Datatype, int, MPI_Aint, MPI_Win);
int MPI_Alloc_mem(MPI_Aint, MPI_Info, void*);
int MPI_Free_mem(void*);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_struct(int, const int*, const MPI_Aint*, const MPI_Datatype*, MPI_Datatype*);
int MPI_Type_create_resized(MPI_Datatype, MPI_Aint, MPI_Aint, MPI_Datatype*);
int MPI_Type_dup(MPI_Datatype, MPI_Datatype*);
int MPI_Type_commit(MPI_Datatype*);
int MPI_Type_free(MPI_Datatype*);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Type_get_extent(MPI_Datatype, MPI_Aint*, MPI_Aint*);
int MPI_Get_address(const void*, MPI_Aint*);
int MPI_Get_processor_name(char*, int*);
int MPI_Error_string(int, char*, int*);

#ifdef __cplusplus
}
#endif
#endif
