// Stand-in for MPI.  Normally exactly one process: what a run without mpirun sees.
// With VF_MPI_MULTI: several processes, see harness/mpi.cpp.
// A message sent is a message to oneself; the library never sends one then.
#pragma once
#include <cstdio>
#include <cstdlib>
using MPI_Comm = int; using MPI_Datatype = int; using MPI_Op = int; using MPI_Request = int;
struct MPI_Status { int MPI_SOURCE = 0, MPI_TAG = 0, MPI_ERROR = 0; unsigned long bytes = 0; };
#define MPI_COMM_WORLD 0
#define MPI_ANY_SOURCE (-1)
#define MPI_STATUS_IGNORE (static_cast<MPI_Status*>(nullptr))
#define MPI_INT 4
#define MPI_LONG 8
#define MPI_MIN 0
#define MPI_MAX 1
#define MPI_SUM 2
#define MPI_BYTE 1
#define MPI_UNSIGNED MPI_INT
#define MPI_UINT32_T MPI_INT
#define MPI_INT32_T MPI_INT
#define MPI_UNSIGNED_LONG MPI_LONG
#define MPI_UINT64_T MPI_LONG
#define MPI_INT64_T MPI_LONG
#define MPI_LONG_LONG MPI_LONG
#define MPI_UNSIGNED_LONG_LONG MPI_LONG
#define MPI_STATUSES_IGNORE MPI_STATUS_IGNORE
#define MPI_REQUEST_NULL (-1)
#define MPI_SUCCESS 0
#ifdef VF_MPI_MULTI
int MPI_Init(int*, char***);
int MPI_Finalize();
int MPI_Comm_size(MPI_Comm, int* s);
int MPI_Comm_rank(MPI_Comm, int* r);
int MPI_Iprobe(int src, int tag, MPI_Comm, int* flag, MPI_Status*);
int MPI_Send(const void*, int n, MPI_Datatype, int dst, int tag, MPI_Comm);
int MPI_Recv(void*, int n, MPI_Datatype, int src, int tag, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int n, MPI_Datatype, int dst, int tag, MPI_Comm, MPI_Request*);
int MPI_Ibarrier(MPI_Comm, MPI_Request*);
int MPI_Test(MPI_Request*, int* flag, MPI_Status*);
int MPI_Allreduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op, MPI_Comm);
int MPI_Bcast(void*, int n, MPI_Datatype, int root, MPI_Comm);
int MPI_Probe(int src, int tag, MPI_Comm, MPI_Status*);
int MPI_Barrier(MPI_Comm);
int MPI_Wait(MPI_Request*, MPI_Status*);
inline int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { *n = static_cast<int>(s->bytes / static_cast<unsigned long>(t)); return 0; }
inline double MPI_Wtime() { return 0; }
#else
inline int MPI_Init(int*, char***) { return 0; }
inline int MPI_Finalize() { return 0; }
inline int MPI_Comm_size(MPI_Comm, int* s) { *s = 1; return 0; }
inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = 0; return 0; }
inline int MPI_Iprobe(int, int, MPI_Comm, int* flag, MPI_Status*) { *flag = 0; return 0; }
inline int mpistub_unexpected(const char* f) { fprintf(stderr, "MPI stub: unexpected %s with one process\n", f); abort(); }
inline int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm) { return mpistub_unexpected("MPI_Send"); }
inline int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*) { return mpistub_unexpected("MPI_Recv"); }
inline int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*) { return mpistub_unexpected("MPI_Isend"); }
inline int MPI_Ibarrier(MPI_Comm, MPI_Request*) { return 0; }
inline int MPI_Test(MPI_Request*, int* flag, MPI_Status*) { *flag = 1; return 0; }
inline int MPI_Allreduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op, MPI_Comm) { __builtin_memcpy(b, a, static_cast<size_t>(n) * t); return 0; }
inline int MPI_Bcast(void*, int, MPI_Datatype, int root, MPI_Comm) {
    if (root != 0) { fprintf(stderr, "MPI stub: broadcast from process %d, which does not exist\n", root); abort(); }
    return 0;
}
inline int MPI_Probe(int, int, MPI_Comm, MPI_Status*) { return mpistub_unexpected("MPI_Probe"); }
inline int MPI_Barrier(MPI_Comm) { return 0; }
inline int MPI_Wait(MPI_Request*, MPI_Status*) { return 0; }
inline int MPI_Get_count(const MPI_Status*, MPI_Datatype, int* n) { *n = 0; return 0; }
inline double MPI_Wtime() { return 0; }
#endif
