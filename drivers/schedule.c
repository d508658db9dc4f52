/* Loaded into the processes of the tracking program: the waiting times the program inserts for
   tidy console output are replaced by no delay or by pseudo-random short delays, and every
   collective operation is entered and left after such a delay, so that the processes drift
   against each other differently in every run. */
#define _GNU_SOURCE
#include <unistd.h>
#include <stdlib.h>
#include <time.h>
#include <mpi.h>
static unsigned long state;
static int mode = -1;
static void delay(void)
{
    if (mode < 0)
    {
        char *e = getenv("VERIF_SCHED"), *r = getenv("OMPI_COMM_WORLD_RANK");
        mode = e ? atoi(e) : 0;
        state = mode * 2654435761ul + (r ? atoi(r) + 1 : 1) * 40503ul;
    }
    if (!mode) return;
    state = state * 6364136223846793005ul + 1442695040888963407ul;
    if ((state >> 20) % 4) return;
    struct timespec t = {0, (state >> 33) % 1200000};
    nanosleep(&t, 0);
}
int usleep(useconds_t u) { delay(); return 0; }
#define WRAP(decl, call) decl { delay(); int r = P##call; delay(); return r; }
WRAP(int MPI_Barrier(MPI_Comm c), MPI_Barrier(c))
WRAP(int MPI_Bcast(void *b, int n, MPI_Datatype t, int r0, MPI_Comm c), MPI_Bcast(b, n, t, r0, c))
WRAP(int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *q, int m, MPI_Datatype u, MPI_Comm c), MPI_Allgather(s, n, t, q, m, u, c))
WRAP(int MPI_Reduce(const void *s, void *q, int n, MPI_Datatype t, MPI_Op o, int r0, MPI_Comm c), MPI_Reduce(s, q, n, t, o, r0, c))
