/*
 * A simulated MPI library: every collective call is sent to the simulator,
 * which decides when each process goes on and what it gets (sim/mpi.py).
 * Before kmcsim_mpi_setup() there is one process and the calls are local.
 */
#ifndef KMCSIM_MPI_H
#define KMCSIM_MPI_H

#ifdef __cplusplus
extern "C" {
#endif

typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; } MPI_Status;

#define MPI_COMM_WORLD 91
#define MPI_COMM_SELF 92
#define MPI_COMM_NULL 0
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_IN_PLACE ((void *) -1)
#define MPI_STATUS_IGNORE ((MPI_Status *) 0)

#define MPI_CHAR 1
#define MPI_BYTE 2
#define MPI_INT 3
#define MPI_UNSIGNED 4
#define MPI_LONG 5
#define MPI_UNSIGNED_LONG 6
#define MPI_LONG_LONG 7
#define MPI_LONG_LONG_INT 7
#define MPI_FLOAT 8
#define MPI_DOUBLE 9
#define MPI_SHORT 10
#define MPI_UNSIGNED_CHAR 11
#define MPI_UNSIGNED_LONG_LONG 12
#define MPI_C_BOOL 13

#define MPI_SUM 1
#define MPI_PROD 2
#define MPI_MAX 3
#define MPI_MIN 4
#define MPI_LAND 5
#define MPI_LOR 6
#define MPI_BAND 7
#define MPI_BOR 8

int MPI_Init(int * argc, char *** argv);
int MPI_Initialized(int * flag);
int MPI_Finalize(void);
int MPI_Finalized(int * flag);
int MPI_Abort(MPI_Comm comm, int code);
double MPI_Wtime(void);
int MPI_Comm_rank(MPI_Comm comm, int * rank);
int MPI_Comm_size(MPI_Comm comm, int * size);
int MPI_Barrier(MPI_Comm comm);
int MPI_Bcast(void * buffer, int count, MPI_Datatype type, int root, MPI_Comm comm);
int MPI_Reduce(const void * send, void * recv, int count, MPI_Datatype type, MPI_Op op, int root, MPI_Comm comm);
int MPI_Allreduce(const void * send, void * recv, int count, MPI_Datatype type, MPI_Op op, MPI_Comm comm);
int MPI_Gather(const void * send, int n_send, MPI_Datatype t_send, void * recv, int n_recv, MPI_Datatype t_recv, int root, MPI_Comm comm);
int MPI_Allgather(const void * send, int n_send, MPI_Datatype t_send, void * recv, int n_recv, MPI_Datatype t_recv, MPI_Comm comm);
int MPI_Gatherv(const void * send, int n_send, MPI_Datatype t_send, void * recv, const int * n_recv, const int * at,
                MPI_Datatype t_recv, int root, MPI_Comm comm);
int MPI_Allgatherv(const void * send, int n_send, MPI_Datatype t_send, void * recv, const int * n_recv, const int * at,
                   MPI_Datatype t_recv, MPI_Comm comm);

#ifdef __cplusplus
}
#endif

#endif
