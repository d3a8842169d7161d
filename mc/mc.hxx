/* Bounded exhaustive explorer: stateless enumeration of choice trees.
 *
 * A check is a deterministic function body() that asks mc::choose() for every input, every
 * configuration and (through vmpi) every scheduling decision. The explorer runs body() once for
 * every leaf of the resulting choice tree: 8 forked workers share the tree by handing over untried
 * subtrees. Scheduling deviations (choose_dev) are bounded; inputs (choose) are enumerated in full.
 * A violated oracle, an abort, a crash or a hang is replayed alone in a fresh process and then
 * reported with its choice list. */
#ifndef MC_HXX
#define MC_HXX
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <functional>

namespace mc
{
/* Enumerated choice 0..n-1. */
int choose (int n, const char *label);
/* Bounded deviation: 0 is the default answer, everything else costs one deviation. */
int choose_dev (int n, const char *label);
template <class T>
inline const T &
pick (const std::vector<T> &v, const char *label)
{
  return v[choose ((int) v.size (), label)];
}
/* The property is violated in this execution; does not return. */
[[noreturn]] void fail (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
/* This execution lies outside the space (an infeasible combination); does not return. */
[[noreturn]] void prune ();
/* Bookkeeping for the evidence. */
void state (uint64_t h);                   /* a canonical state was reached and judged */
void transition (uint64_t n = 1);          /* a step of the implementation was executed */
void checked (const char *what, uint64_t n = 1); /* n comparisons with the oracle named what */
void note (const char *fmt, ...);          /* printed only when replaying */
void sample (const std::string &s);        /* a written-out case for the evidence */
bool thorough ();
bool replaying ();
inline int
q (int quick, int thor)
{
  return thorough () ? thor : quick;
}
std::string describe ();                   /* the choices made so far, label=value */
bool known (const char *finding_id);       /* is this finding listed as open? */
void report_known (const char *finding_id, const char *what); /* KNOWN-FINDING line at the end */

struct Options {
  const char *property;
  const char *bounds;       /* text for the evidence */
  int dev_bound_quick = 1, dev_bound_thorough = 2;
  double cap_quick = 300, cap_thorough = 3300; /* s of exploration */
  double hang_s = 60;
};
int main (int argc, char **argv, const Options &opt, std::function<void ()> body);

inline uint64_t
mix (uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}
inline uint64_t
hash_bytes (const void *p, size_t n, uint64_t h = 1469598103934665603ull)
{
  const unsigned char *c = (const unsigned char *) p;
  for (size_t i = 0; i < n; i++) {
    h ^= c[i];
    h *= 1099511628211ull;
  }
  return mix (h, n);
}
inline uint64_t
hash_str (const std::string &s)
{
  return hash_bytes (s.data (), s.size ());
}
}  // namespace mc

#define MC_CHECK(cond, ...)        \
  do {                             \
    if (!(cond))                   \
      mc::fail (__VA_ARGS__);      \
  } while (0)
#endif
