/* helpers of the demonstration programs */
#pragma once
#include <t8.h>
#include <sc_shmem.h>
#include <t8_cmesh/t8_cmesh.h>
#include <t8_cmesh/t8_cmesh_examples.h>
#include <t8_forest/t8_forest_general.h>
#include <t8_forest/t8_forest_types.h>
#include <t8_forest/t8_forest_partition.h>
#include <t8_forest/t8_forest_private.h>
#include <t8_schemes/t8_default/t8_default.hxx>
#include <t8_schemes/t8_standalone/t8_standalone.hxx>
#include <functional>
#include <string>
#include <vector>
extern "C" int
sc_mpi_comm_get_and_attach (sc_MPI_Comm comm)
{
  sc_MPI_Comm intra, inter;
  int n = 0;
  sc_mpi_comm_get_node_comms (comm, &intra, &inter);
  if (intra == sc_MPI_COMM_NULL) {
    sc_mpi_comm_attach_node_comms (comm, 0);
    sc_mpi_comm_get_node_comms (comm, &intra, &inter);
  }
  if (intra != sc_MPI_COMM_NULL)
    sc_MPI_Comm_size (intra, &n);
  return n;
}
static sc_MPI_Comm COMM = sc_MPI_COMM_WORLD;
static int RANK, SIZE;
#define EXPECT(c, ...)                                                        \
  do {                                                                        \
    if (!(c)) {                                                               \
      fprintf (stderr, "FAILED at line %d: %s ", __LINE__, #c);              \
      fprintf (stderr, " " __VA_ARGS__);                                      \
      fprintf (stderr, "\n");                                                 \
      fflush (NULL);                                                          \
      MPI_Abort (MPI_COMM_WORLD, 1);                                          \
      _exit (1);                                                              \
    }                                                                         \
  } while (0)
static void
start (int *argc, char ***argv)
{
  sc_MPI_Init (argc, argv);
  sc_init (COMM, 1, 0, NULL, SC_LP_SILENT);
  t8_init (SC_LP_SILENT);
  sc_MPI_Comm_rank (COMM, &RANK);
  sc_MPI_Comm_size (COMM, &SIZE);
}
static int
finish ()
{
  sc_finalize ();
  sc_MPI_Finalize ();
  return 0;
}
/* adapt with a lambda: (tree, local element id, is_family, elements) -> verdict */
typedef std::function<int (t8_forest_t, t8_locidx_t, t8_locidx_t, int, int, t8_element_t *const *)> Verdict;
static int
verdict_cb (t8_forest_t f, t8_forest_t from, t8_locidx_t lt, t8_eclass_t, t8_locidx_t le, const t8_scheme *, int fam, int n, t8_element_t *elems[])
{
  return (*(Verdict *) t8_forest_get_user_data (f)) (from, lt, le, fam, n, elems);
}
static t8_forest_t
adapt (t8_forest_t from, Verdict v, bool recursive = false)
{
  t8_forest_t f;
  t8_forest_init (&f);
  t8_forest_set_user_data (f, &v);
  t8_forest_set_adapt (f, from, verdict_cb, recursive);
  t8_forest_commit (f);
  return f;
}
