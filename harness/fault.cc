// Linked into sweep.x: limits the size of files this process may write from the moment the output file is opened.
#include <mpi.h>
#include <signal.h>
#include <cstdlib>
#include <sys/resource.h>
extern "C" int MPI_File_open(MPI_Comm comm, const char *name, int mode, MPI_Info info, MPI_File *fh)
{
    const char *s = getenv("VT_FSIZE");
    if (s != NULL && (mode & (MPI_MODE_WRONLY | MPI_MODE_RDWR))) {
        struct rlimit r;
        getrlimit(RLIMIT_FSIZE, &r);
        r.rlim_cur = strtoull(s, NULL, 10);
        signal(SIGXFSZ, SIG_IGN);
        setrlimit(RLIMIT_FSIZE, &r);
    }
    return PMPI_File_open(comm, name, mode, info, fh);
}
