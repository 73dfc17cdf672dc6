// Stub MPI interface.  Under the symbolic executor the functions are models
// with virtual ranks; under native replay they are implemented in
// harness/rt_native.cc (ranks = forked processes over shared memory).
#ifndef VERIF_MPI_H
#define VERIF_MPI_H
#include <cstddef>
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
typedef int MPI_Info;
typedef long MPI_Aint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int count_bytes; } MPI_Status;
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_INFO_NULL 0
#define MPI_SUCCESS 0
#define MPI_IN_PLACE ((void *)-1)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_REQUEST_NULL 0
#define MPI_ANY_SOURCE -1
#define MPI_ANY_TAG -2
#define MPI_MAX_ERROR_STRING 256
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_MULTIPLE 3
// datatype = kind*256 + size ; kind 0 bytes, 1 signed, 2 unsigned, 3 float
#define MPI_BYTE (0 * 256 + 1)
#define MPI_CHAR (1 * 256 + 1)
#define MPI_SIGNED_CHAR (1 * 256 + 1)
#define MPI_UNSIGNED_CHAR (2 * 256 + 1)
#define MPI_C_BOOL (2 * 256 + 1)
#define MPI_SHORT (1 * 256 + 2)
#define MPI_UNSIGNED_SHORT (2 * 256 + 2)
#define MPI_INT (1 * 256 + 4)
#define MPI_INT32_T MPI_INT
#define MPI_UNSIGNED (2 * 256 + 4)
#define MPI_UINT32_T MPI_UNSIGNED
#define MPI_LONG (1 * 256 + 8)
#define MPI_LONG_LONG MPI_LONG
#define MPI_LONG_LONG_INT MPI_LONG
#define MPI_INT64_T (1 * 256 + 8)
#define MPI_UNSIGNED_LONG (2 * 256 + 8)
#define MPI_UNSIGNED_LONG_LONG (2 * 256 + 8)
#define MPI_UINT64_T (2 * 256 + 8)
#define MPI_INT8_T MPI_SIGNED_CHAR
#define MPI_UINT8_T MPI_UNSIGNED_CHAR
#define MPI_INT16_T MPI_SHORT
#define MPI_UINT16_T MPI_UNSIGNED_SHORT
#define MPI_FLOAT (3 * 256 + 4)
#define MPI_DOUBLE (3 * 256 + 8)
#define MPI_SUM 1
#define MPI_MIN 2
#define MPI_MAX 3
#define MPI_LAND 4
#define MPI_LOR 5
#define MPI_PROD 6
extern "C" {
int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Exscan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void *, const int *, const int *, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Issend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request *, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Probe(int, int, MPI_Comm, MPI_Status *);
int MPI_Iprobe(int, int, MPI_Comm, int *, MPI_Status *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_commit(MPI_Datatype *);
int MPI_Type_free(MPI_Datatype *);
int MPI_Type_size(MPI_Datatype, int *);
double MPI_Wtime(void);
}
#endif
