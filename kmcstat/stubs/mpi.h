/* Declarations only: lets clang parse the RUNMPI == true variant. */
#ifndef KMCSTAT_MPI_STUB
#define KMCSTAT_MPI_STUB
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op;
extern MPI_Comm MPI_COMM_WORLD;
extern MPI_Datatype MPI_INT; extern MPI_Datatype MPI_DOUBLE;
extern MPI_Datatype MPI_CHAR; extern MPI_Datatype MPI_LONG; extern MPI_Datatype MPI_UNSIGNED_LONG;
extern MPI_Op MPI_SUM; extern MPI_Op MPI_MAX; extern MPI_Op MPI_MIN;
#define MPI_IN_PLACE ((void*)1)
#define MPI_SUCCESS 0
extern "C" {
int MPI_Init(int*, char***); int MPI_Finalize(); int MPI_Initialized(int*); int MPI_Finalized(int*);
int MPI_Comm_rank(MPI_Comm, int*); int MPI_Comm_size(MPI_Comm, int*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Abort(MPI_Comm, int);
}
#endif
