/* vmpi: a virtual MPI. N ranks run as fibers of one process under a deterministic scheduler; every
 * nondeterministic answer of MPI (which sender a wildcard matches, whether a probe or test already
 * sees a message) is a choice of the explorer. */
#ifndef VMPI_HXX
#define VMPI_HXX
#include <functional>
#include <string>
namespace vmpi
{
struct Config {
  bool rendezvous = false;  /* sends complete only when matched, their buffer is read at the match */
  bool lazy_recv = false;   /* received data appears in the buffer only at completion */
  bool nonsync = false;     /* rooted and prefix collectives do not synchronise */
  bool descending = false;  /* scheduling priority of the ranks */
  int ppn = 0;              /* ranks per shared-memory node, 0: all on one node */
  bool explore = false;     /* wildcard matches and probe answers are explored (else: first sender) */
  int delays = 0;           /* so many times a process leaving a collective may fall behind all others */
};
/* Run fn(rank) on n ranks; returns when all have finished. Fails the execution on deadlock, livelock,
 * collective mismatch, message truncation, leftover messages or unfreed requests. */
void run (int n, const Config &cfg, const std::function<void (int)> &fn);
/* Configuration from a small set of legal MPI behaviours (explored as an input choice). */
Config choose_config (int nconfigs);
int rank ();         /* current fiber's world rank, -1 outside run() */
int size ();
int live_comms ();   /* communicators created by dup/split and not yet freed, on all ranks */
int live_wins ();
}  // namespace vmpi
#endif
