// The process side of the simulated MPI library.
//
// A collective call sends one message (header and data) to the simulator and
// waits for its answer, which is where the simulator stops and starts the
// process. There is no other communication.
#include "mpi.h"

#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <errno.h>
#include <time.h>
#include <unistd.h>

namespace {
int g_rank = 0;
int g_size = 1;
int g_fd = -1;
bool g_inited = false;
bool g_finalized = false;

enum { BARRIER = 1, BCAST = 2, REDUCE = 3, ALLREDUCE = 4, GATHER = 5, ALLGATHER = 6, FINALIZE = 7, ABORT = 8, BAD = 9 };

int64_t width(MPI_Datatype t)
{
    switch (t)
    {
    case MPI_CHAR: case MPI_BYTE: case MPI_UNSIGNED_CHAR: case MPI_C_BOOL: return 1;
    case MPI_SHORT: return 2;
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: return 4;
    default: return 8;
    }
}

void put(const void * p, size_t n)
{
    const char * c = static_cast<const char *>(p);
    while (n > 0)
    {
        const ssize_t k = write(g_fd, c, n);
        if (k < 0) { if (errno == EINTR) { continue; } _exit(78); }
        c += k;
        n -= static_cast<size_t>(k);
    }
}

void get(void * p, size_t n)
{
    char * c = static_cast<char *>(p);
    while (n > 0)
    {
        const ssize_t k = read(g_fd, c, n);
        if (k < 0 && errno == EINTR) { continue; }
        if (k <= 0) { _exit(78); }
        c += k;
        n -= static_cast<size_t>(k);
    }
}

// Header: operation, count, type, reduction, root, communicator, bytes.
void call(int64_t op, int64_t count, int64_t type, int64_t red, int64_t root, int64_t comm,
          const void * data, int64_t bytes, std::vector<char> & answer)
{
    if (!g_inited || g_finalized || comm != MPI_COMM_WORLD) { op = BAD; }
    const int64_t head[7] = { op, count, type, red, root, comm, bytes };
    put(head, sizeof(head));
    put(data, static_cast<size_t>(bytes));
    int64_t n = 0;
    get(&n, sizeof(n));
    answer.resize(static_cast<size_t>(n));
    if (n > 0) { get(&answer[0], static_cast<size_t>(n)); }
}

bool alone() { return g_fd < 0; }

int gather(int64_t op, const void * send, int n_send, MPI_Datatype t_send, void * recv, const int * n_recv, const int * at,
           MPI_Datatype t_recv, int root, MPI_Comm comm)
{
    std::vector<char> a;
    const bool to_me = op == ALLGATHER || g_rank == root;
    if (send == MPI_IN_PLACE)
    {
        send = static_cast<const char *>(recv) + at[g_rank] * width(t_recv);
        n_send = n_recv[g_rank];
        t_send = t_recv;
    }
    if (alone())
    {
        memmove(static_cast<char *>(recv) + at[0] * width(t_recv), send, n_send * width(t_send));
        return MPI_SUCCESS;
    }
    call(op, 0, t_send, 0, root, comm, send, n_send * width(t_send), a);
    if (!to_me) { return MPI_SUCCESS; }
    size_t pos = 0;
    for (int r = 0; r < g_size; ++r)
    {
        int64_t n;
        memcpy(&n, &a[pos], sizeof(n));
        pos += sizeof(n);
        const int64_t room = n_recv[r] * width(t_recv);
        memcpy(static_cast<char *>(recv) + at[r] * width(t_recv), a.data() + pos, static_cast<size_t>(n < room ? n : room));
        pos += static_cast<size_t>(n);
    }
    return MPI_SUCCESS;
}

int gather_even(int64_t op, const void * send, int n_send, MPI_Datatype t_send, void * recv, int n_recv, MPI_Datatype t_recv,
                int root, MPI_Comm comm)
{
    std::vector<int> n(g_size, n_recv), at(g_size);
    for (int r = 0; r < g_size; ++r) { at[r] = r * n_recv; }
    return gather(op, send, n_send, t_send, recv, &n[0], &at[0], t_recv, root, comm);
}

int reduce(int64_t op, const void * send, void * recv, int count, MPI_Datatype type, MPI_Op red, int root, MPI_Comm comm)
{
    if (send == MPI_IN_PLACE) { send = recv; }
    if (alone())
    {
        if (count > 0) { memmove(recv, send, count * width(type)); }
        return MPI_SUCCESS;
    }
    std::vector<char> a;
    call(op, count, type, red, root, comm, send, count * width(type), a);
    if (op == ALLREDUCE || g_rank == root) { if (!a.empty()) { memcpy(recv, &a[0], a.size()); } }
    return MPI_SUCCESS;
}
}

extern "C" {

// From now on this is process rank of size; fd leads to the simulator (or -1).
void kmcsim_mpi_setup(int rank, int size, int fd)
{
    g_rank = rank;
    g_size = size;
    g_fd = fd;
}

int MPI_Init(int *, char ***) { g_inited = true; return MPI_SUCCESS; }
int MPI_Initialized(int * flag) { *flag = g_inited; return MPI_SUCCESS; }
int MPI_Finalized(int * flag) { *flag = g_finalized; return MPI_SUCCESS; }

int MPI_Finalize(void)
{
    g_finalized = true;
    return MPI_SUCCESS;
}

int MPI_Abort(MPI_Comm comm, int code)
{
    std::vector<char> a;
    if (!alone()) { call(ABORT, code, 0, 0, 0, comm, NULL, 0, a); }
    _exit(code);
}

double MPI_Wtime(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

int MPI_Comm_rank(MPI_Comm, int * rank) { *rank = g_rank; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm, int * size) { *size = g_size; return MPI_SUCCESS; }

int MPI_Barrier(MPI_Comm comm)
{
    if (alone()) { return MPI_SUCCESS; }
    std::vector<char> a;
    call(BARRIER, 0, 0, 0, 0, comm, NULL, 0, a);
    return MPI_SUCCESS;
}

int MPI_Bcast(void * buffer, int count, MPI_Datatype type, int root, MPI_Comm comm)
{
    if (alone()) { return MPI_SUCCESS; }
    std::vector<char> a;
    call(BCAST, count, type, 0, root, comm, buffer, g_rank == root ? count * width(type) : 0, a);
    if (g_rank != root && !a.empty()) { memcpy(buffer, &a[0], a.size()); }
    return MPI_SUCCESS;
}

int MPI_Reduce(const void * send, void * recv, int count, MPI_Datatype type, MPI_Op op, int root, MPI_Comm comm)
{
    return reduce(REDUCE, send, recv, count, type, op, root, comm);
}

int MPI_Allreduce(const void * send, void * recv, int count, MPI_Datatype type, MPI_Op op, MPI_Comm comm)
{
    return reduce(ALLREDUCE, send, recv, count, type, op, 0, comm);
}

int MPI_Gather(const void * send, int n_send, MPI_Datatype t_send, void * recv, int n_recv, MPI_Datatype t_recv, int root, MPI_Comm comm)
{
    return gather_even(GATHER, send, n_send, t_send, recv, n_recv, t_recv, root, comm);
}

int MPI_Allgather(const void * send, int n_send, MPI_Datatype t_send, void * recv, int n_recv, MPI_Datatype t_recv, MPI_Comm comm)
{
    return gather_even(ALLGATHER, send, n_send, t_send, recv, n_recv, t_recv, 0, comm);
}

int MPI_Gatherv(const void * send, int n_send, MPI_Datatype t_send, void * recv, const int * n_recv, const int * at,
                MPI_Datatype t_recv, int root, MPI_Comm comm)
{
    return gather(GATHER, send, n_send, t_send, recv, n_recv, at, t_recv, root, comm);
}

int MPI_Allgatherv(const void * send, int n_send, MPI_Datatype t_send, void * recv, const int * n_recv, const int * at,
                   MPI_Datatype t_recv, MPI_Comm comm)
{
    return gather(ALLGATHER, send, n_send, t_send, recv, n_recv, at, t_recv, 0, comm);
}

}
