/* Compatibility layer: apt's libsc 2.3.6 lacks a handful of names that the pinned libsc f8c5099
 * provides. Each one is a plain alias of (or a thin wrapper around) the MPI function of the same
 * name, exactly as upstream libsc defines it in its MPI configuration. */
#ifndef VP_SHIM_SC_MPI_H
#define VP_SHIM_SC_MPI_H
#include_next <sc_mpi.h>
#ifndef sc_MPI_Pack
#define sc_MPI_Pack MPI_Pack
#define sc_MPI_Unpack MPI_Unpack
#define sc_MPI_Pack_size MPI_Pack_size
#define sc_MPI_PACKED MPI_PACKED
#endif
#ifndef sc_MPI_INT8_T
#define sc_MPI_INT8_T MPI_INT8_T
#endif
#ifdef __cplusplus
extern "C" {
#endif
int sc_get_package_id (void);
int sc_mpi_comm_get_and_attach (sc_MPI_Comm comm);
#ifdef __cplusplus
}
#endif
#endif
