"""Reference model: MPI routines and chunk partition."""


@code('determineChunks')
def _chunks(mpi_size, vector_size):
    take = idiv(vector_size, mpi_size)
    rest = vector_size % mpi_size
    out = filled(mpi_size, pair(0, 0))
    start = 0
    for i in range(mpi_size):
        n = take + 1 if i < rest else take
        out[i] = pair(start, n)
        start += n
    return out


@code('splitOverProcesses')
def _split(vec, comm):
    mine = determineChunks(comm_size(comm), len(vec))[comm_rank(comm)]
    return table(mine.second, lambda i: vec[mine.first + i])


@code('joinOverProcesses')
def _join(local, comm):
    n = len(local)
    sumOverProcesses(n, comm)
    out = filled(n, 0)
    mine = determineChunks(comm_size(comm), n)[comm_rank(comm)]
    for i in range(mine.second):
        out[mine.first + i] = local[i]
    sumOverProcesses(out, comm)
    return out


@code('distributeToAll', mpi=True)
def _bcast(data, comm):
    MPI_Bcast(data, 1, MPI_INT, 0, comm)


@code('distributeToAll', mpi=False)
def _bcast1(data, comm):
    pass


@code('sumOverProcesses', mpi=False)
def _sum0(data, comm):
    pass


@code('sumOverProcesses', mpi=True, sig='(int &')
def _sum1(data, comm):
    send = data
    MPI_Allreduce(send, data, 1, MPI_INT, MPI_SUM, comm)


@code('sumOverProcesses', mpi=True, sig='vector<int>')
def _sum2(data, comm):
    send = data
    MPI_Allreduce(send, data, len(data), MPI_INT, MPI_SUM, comm)


@code('sumOverProcesses', mpi=True, sig='vector<double>')
def _sum3(data, comm):
    send = data
    MPI_Allreduce(send, data, len(data), MPI_DOUBLE, MPI_SUM, comm)


@code('MPICommons::myRank')
def _rank(comm):
    return comm_rank(comm)


@code('MPICommons::size')
def _size(comm):
    return comm_size(comm)


@code('MPICommons::isMaster')
def _master(comm):
    return comm_rank(comm) == 0


@code('MPICommons::barrier', mpi=True)
def _barrier(comm):
    MPI_Barrier(comm)
