/* MPI shim: the subset of the interface the library may use, implemented by models/mpi.c */
#ifndef VM_MPI_H
#define VM_MPI_H
#include <stddef.h>
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Request; typedef int MPI_Info; typedef int MPI_Group;
typedef long MPI_Aint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t bytes_; } MPI_Status;
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_COMM_WORLD ((MPI_Comm)1)
#define MPI_COMM_SELF ((MPI_Comm)2)
#define MPI_SUCCESS 0
#define MPI_ERR_TRUNCATE 15
#define MPI_PROC_NULL (-2)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_ROOT (-3)
#define MPI_UNDEFINED (-32766)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_IN_PLACE ((void *)-1)
#define MPI_BYTE 1
#define MPI_CHAR 2
#define MPI_INT 3
#define MPI_UNSIGNED 4
#define MPI_LONG 5
#define MPI_UNSIGNED_LONG 6
#define MPI_LONG_LONG 7
#define MPI_LONG_LONG_INT 7
#define MPI_UNSIGNED_LONG_LONG 8
#define MPI_DOUBLE 9
#define MPI_UNSIGNED_CHAR 10
#define MPI_SHORT 11
#define MPI_UINT64_T 6
#define MPI_INT64_T 5
#define MPI_UINT32_T 4
#define MPI_INT32_T 3
#define MPI_UINT8_T 10
#define MPI_C_BOOL 10
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_LAND 4
#define MPI_LOR 5
#define MPI_BAND 6
#define MPI_BOR 7
#define MPI_PROD 8
#define MPI_MAX_PROCESSOR_NAME 256
int MPI_Init(int *, char ***); int MPI_Finalize(void); int MPI_Initialized(int *); int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int *); int MPI_Comm_size(MPI_Comm, int *); int MPI_Comm_dup(MPI_Comm, MPI_Comm *); int MPI_Comm_free(MPI_Comm *);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *); int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Wait(MPI_Request *, MPI_Status *); int MPI_Waitall(int, MPI_Request *, MPI_Status *); int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Waitany(int, MPI_Request *, int *, MPI_Status *);
int MPI_Issend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Waitsome(int, MPI_Request *, int *, int *, MPI_Status *); int MPI_Testsome(int, MPI_Request *, int *, int *, MPI_Status *); int MPI_Testany(int, MPI_Request *, int *, int *, MPI_Status *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *); int MPI_Probe(int, int, MPI_Comm, MPI_Status *);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm); int MPI_Barrier(MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Exscan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm);
int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Scatterv(const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoallv(const void *, const int *, const int *, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Sendrecv_replace(void *, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status *);
int MPI_Iprobe(int, int, MPI_Comm, int *, MPI_Status *); int MPI_Testall(int, MPI_Request *, int *, MPI_Status *);
int MPI_Type_size(MPI_Datatype, int *); double MPI_Wtime(void); int MPI_Get_processor_name(char *, int *);
#endif
