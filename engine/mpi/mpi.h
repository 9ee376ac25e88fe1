// Stand-in for an MPI library: message passing between the ranks of one explored execution (mpi.cpp).
#pragma once
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Request;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR, bytes; } MPI_Status;
enum { MPI_COMM_WORLD = 91, MPI_SUCCESS = 0, MPI_ANY_SOURCE = -2, MPI_ANY_TAG = -1, MPI_REQUEST_NULL = -1 };
enum { MPI_BYTE = 1, MPI_CHAR = 2, MPI_SHORT = 3, MPI_INT = 4, MPI_LONG = 5, MPI_LONG_LONG = 6, MPI_UNSIGNED_LONG = 7, MPI_INT16_T = 8, MPI_INT32_T = 9, MPI_INT64_T = 10, MPI_UINT64_T = 11, MPI_LONG_LONG_INT = 6 };
enum { MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };
#define MPI_STATUS_IGNORE (static_cast<MPI_Status*>(nullptr))
#define MPI_STATUSES_IGNORE (static_cast<MPI_Status*>(nullptr))
extern "C" {
int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize();
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Barrier(MPI_Comm);
}
