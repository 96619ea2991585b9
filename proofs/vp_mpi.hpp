// vp_mpi.hpp -- stand-in for the MPI library: the assumed contract of the external functions the serial
// parts of OpenVSIP reach.  One communicator of vp_np processes, of which this one has rank vp_rank;
// nothing is transmitted (no contract that communicates is claimed).
#ifndef VP_MPI_HPP
#define VP_MPI_HPP
#include <mpi.h>
static int vp_np = 1, vp_rank = 0;
extern "C" {
int MPI_Initialized(int *f) { *f = 1; return 0;}
int MPI_Finalized(int *f) { *f = 0; return 0;}
int MPI_Init(int *, char ***) { return 0;}
int MPI_Finalize() { return 0;}
int MPI_Buffer_attach(void *, int) { return 0;}
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0;}
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype *n) { *n = 0; return 0;}
int MPI_Type_commit(MPI_Datatype *) { return 0;}
int MPI_Comm_rank(MPI_Comm, int *r) { *r = vp_rank; return 0;}
int MPI_Comm_size(MPI_Comm, int *s) { *s = vp_np; return 0;}
int MPI_Comm_free(MPI_Comm *) { return 0;}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *d) { *d = c; return 0;}
int MPI_Comm_create(MPI_Comm c, MPI_Group, MPI_Comm *d) { *d = c; return 0;}
int MPI_Comm_group(MPI_Comm, MPI_Group *g) { *g = (MPI_Group)&vp_np; return 0;}
int MPI_Group_incl(MPI_Group, int, int const *, MPI_Group *g) { *g = (MPI_Group)&vp_np; return 0;}
int MPI_Group_free(MPI_Group *) { return 0;}
int MPI_Barrier(MPI_Comm) { return 0;}
}
#include <ovxx/mpi/communicator.cpp>
#include <ovxx/mpi/group.cpp>
#include <ovxx/mpi/service.cpp>
#endif
