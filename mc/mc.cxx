#include "mc.hxx"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <csignal>
#include <ctime>
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <fcntl.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc
{
static const int MAXLEN = 6000;   /* choices per execution */
static const int JOBLEN = 1200;   /* choices of a shared prefix */
static const int QCAP = 256;
static const int MAXW = 16;
static const size_t HASHCAP = 1ull << 25;
static const int EXIT_FAIL = 77;

static double
now ()
{
  timespec t;
  clock_gettime (CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

struct Job {
  int len;           /* prefix length; the last choice ranges over [lo,hi) */
  int lo, hi;
  uint16_t c[JOBLEN];
};
struct Slot {
  volatile int len;
  volatile int active;
  volatile double start;
  uint16_t c[MAXLEN];
  char failmsg[4096];
  volatile int failed;
};
struct Counter {
  char name[56];
  std::atomic<uint64_t> n;
};
struct Shared {
  pthread_mutex_t mu;
  int qn;
  Job q[QCAP];
  int idle;
  int nworkers;
  volatile int stop;      /* 1: finished, 2: cap hit, 3: violation */
  std::atomic<uint64_t> execs, pruned, transitions, states, points, devs_used[8], maxlen, hash_full;
  Counter counters[64];
  std::atomic<int> ncounters;
  char samples[24][1500];
  std::atomic<int> nsamples;
  char knownhits[32][300];
  int nknown;
  std::atomic<uint64_t> prof_us[8][64], prof_n[8][64]; /* by the first two choices, for tuning bounds */
  Slot slot[MAXW];
};
static Shared *S;
static std::atomic<uint64_t> *HS;
static Options O;
static bool g_thorough, g_replay;
static int g_devbound;
static Slot *mySlot;
static std::set<std::string> g_open_findings;

struct Point {
  uint16_t c, n;
  bool dev;
};
static std::vector<Point> stack;         /* current execution's points */
static std::vector<const char *> labels; /* parallel */
static size_t pos;
static size_t fixed_len;                 /* choices that must be replayed */
static int devs;
struct Pruned {};

bool thorough () { return g_thorough; }
bool replaying () { return g_replay; }

static void
die_fail (const char *msg)
{
  snprintf (mySlot->failmsg, sizeof mySlot->failmsg, "%s", msg);
  mySlot->failed = 1;
  if (g_replay)
    fprintf (stdout, "FAIL: %s\n", msg), fflush (stdout);
  _exit (EXIT_FAIL);
}

void
fail (const char *fmt, ...)
{
  char buf[3000];
  va_list ap;
  va_start (ap, fmt);
  vsnprintf (buf, sizeof buf, fmt, ap);
  va_end (ap);
  std::string m = buf;
  m += " | case: " + describe ();
  die_fail (m.c_str ());
  _exit (EXIT_FAIL);
}

void
note (const char *fmt, ...)
{
  if (!g_replay)
    return;
  va_list ap;
  va_start (ap, fmt);
  vprintf (fmt, ap);
  va_end (ap);
  printf ("\n");
  fflush (stdout);
}

std::string
describe ()
{
  std::string s;
  for (size_t i = 0; i < pos && i < stack.size (); i++) {
    char b[128];
    snprintf (b, sizeof b, "%s%s=%d/%d", i ? " " : "", labels[i], (int) stack[i].c, (int) stack[i].n);
    s += b;
    if (s.size () > 1800) {
      s += " ...";
      break;
    }
  }
  return s;
}

static int
choose_impl (int n, const char *label, bool dev)
{
  if (n <= 0) {
    fprintf (stderr, "mc: empty choice %s\n", label);
    fail ("harness: empty choice %s", label);
  }
  if (n > 65535)
    fail ("harness: choice %s too wide (%d)", label, n);
  if (dev && devs >= g_devbound)
    n = 1;
  if (pos >= (size_t) MAXLEN)
    fail ("harness or livelock: more than %d choices in one execution", MAXLEN);
  int c;
  if (pos < stack.size ()) {
    Point &p = stack[pos];
    if (pos < fixed_len && p.n == 0) { /* prefix of a job: width not yet known */
      p.n = n;
      p.dev = dev;
    }
    if (p.n != n || p.c >= n) {
      labels.resize (pos + 1);
      labels[pos] = label;
      fail ("nondeterminism: replayed prefix diverges at point %zu (%s): recorded width %d, now %d", pos, label,
            (int) p.n, n);
    }
    c = p.c;
  }
  else {
    c = 0;
    stack.push_back (Point { 0, (uint16_t) n, dev });
  }
  if (labels.size () <= pos)
    labels.resize (pos + 1);
  labels[pos] = label;
  if (dev && c)
    devs++;
  mySlot->c[pos] = (uint16_t) c;
  pos++;
  mySlot->len = (int) pos;
  if (g_replay)
    printf ("  choice %zu: %s = %d of %d\n", pos - 1, label, c, n);
  return c;
}
int choose (int n, const char *label) { return choose_impl (n, label, false); }
int choose_dev (int n, const char *label) { return choose_impl (n, label, true); }
void prune () { throw Pruned (); }

void
state (uint64_t h)
{
  if (h == 0)
    h = 1;
  size_t i = (h * 0x9e3779b97f4a7c15ull) >> (64 - 25);
  for (int probe = 0; probe < 4096; probe++, i = (i + 1) & (HASHCAP - 1)) {
    uint64_t cur = HS[i].load (std::memory_order_relaxed);
    if (cur == h)
      return;
    if (cur == 0) {
      if (HS[i].compare_exchange_strong (cur, h)) {
        S->states++;
        return;
      }
      if (cur == h)
        return;
    }
  }
  S->hash_full++;
}
static uint64_t l_trans, l_points;
void transition (uint64_t n) { l_trans += n; }

static std::map<const char *, uint64_t> l_counts;
void checked (const char *what, uint64_t n) { l_counts[what] += n; }
static void
flush_counts ()
{
  S->transitions += l_trans;
  l_trans = 0;
  S->points += l_points;
  l_points = 0;
  for (auto &kv : l_counts) {
    if (!kv.second)
      continue;
    int i, m;
    bool done = false;
    for (;;) {
      m = S->ncounters.load ();
      for (i = 0; i < m; i++)
        if (!strncmp (S->counters[i].name, kv.first, 55)) {
          S->counters[i].n += kv.second;
          done = true;
          break;
        }
      if (done || m >= 64)
        break;
      pthread_mutex_lock (&S->mu);
      if (S->ncounters.load () == m) {
        snprintf (S->counters[m].name, 56, "%s", kv.first);
        S->ncounters.store (m + 1);
      }
      pthread_mutex_unlock (&S->mu);
    }
    kv.second = 0;
  }
}
static int l_samples;
void
sample (const std::string &s)
{
  if (l_samples >= 2 || S->nsamples >= 16)
    return;
  int i = S->nsamples++;
  if (i < 24)
    snprintf (S->samples[i], sizeof S->samples[i], "%s", s.c_str ());
  l_samples++;
}
bool known (const char *id) { return g_open_findings.count (id) > 0; }
void
report_known (const char *id, const char *what)
{
  if (!known (id))
    fail ("%s: %s", id, what);
  pthread_mutex_lock (&S->mu);
  bool seen = false;
  for (int i = 0; i < S->nknown; i++)
    seen = seen || !strncmp (S->knownhits[i], id, strlen (id));
  if (!seen && S->nknown < 32)
    snprintf (S->knownhits[S->nknown++], 300, "%s %s", id, what);
  pthread_mutex_unlock (&S->mu);
}

/* run body once with the current stack as prefix */
static std::function<void ()> *g_body;
static void
run_once ()
{
  pos = 0;
  devs = 0;
  mySlot->len = 0;
  mySlot->start = now ();
  mySlot->active = 1;
  try {
    (*g_body) ();
    S->execs++;
  } catch (Pruned &) {
    S->pruned++;
  }
  mySlot->active = 0;
  if (pos >= 2 && stack[0].c < 8 && stack[1].c < 64) {
    S->prof_us[stack[0].c][stack[1].c] += (uint64_t) ((now () - mySlot->start) * 1e6);
    S->prof_n[stack[0].c][stack[1].c]++;
  }
  if (pos < fixed_len || pos < stack.size ()) {
    fail ("nondeterminism: execution ended after %zu choices, replayed prefix has %zu", pos, stack.size ());
  }
  l_points += pos;
  uint64_t ml = S->maxlen;
  if (pos > ml)
    S->maxlen = pos;
  S->devs_used[devs < 7 ? devs : 7]++;
}

static std::vector<int> g_limit;

static void
run_job (const Job &j)
{
  stack.clear ();
  g_limit.clear ();
  for (int i = 0; i + 1 < j.len; i++) {
    stack.push_back (Point { j.c[i], 0, false });
    g_limit.push_back (j.c[i] + 1);
  }
  if (j.len > 0) {
    stack.push_back (Point { (uint16_t) j.lo, 0, false });
    g_limit.push_back (j.hi);
  }
  size_t base = j.len > 0 ? j.len - 1 : 0;
  uint64_t cnt = 0;
  for (;;) {
    if (S->stop)
      return;
    fixed_len = stack.size ();
    run_once ();
    for (size_t i = g_limit.size (); i < stack.size (); i++)
      g_limit.push_back (stack[i].n);
    cnt++;
    if (S->idle > 0) {
      /* donate */
      for (size_t i = base; i < stack.size (); i++) {
        if (i + 1 >= (size_t) JOBLEN)
          break;
        int lo = stack[i].c + 1, hi = g_limit[i];
        if (lo < hi) {
          pthread_mutex_lock (&S->mu);
          int want = S->idle - S->qn;
          if (want > 0 && S->qn + want < QCAP) {
            int pieces = std::max (1, std::min (hi - lo, want));
            int start = lo;
            for (int k = 0; k < pieces; k++) {
              int end = lo + (int) ((int64_t) (hi - lo) * (k + 1) / pieces);
              Job &q = S->q[S->qn++];
              q.len = (int) i + 1;
              q.lo = start;
              q.hi = end;
              for (size_t m = 0; m < i; m++)
                q.c[m] = stack[m].c;
              start = end;
            }
            g_limit[i] = lo;
          }
          pthread_mutex_unlock (&S->mu);
          break;
        }
      }
    }
    if ((cnt & 63) == 0)
      flush_counts ();
    /* next leaf */
    while (stack.size () > base) {
      Point &p = stack.back ();
      if (p.c + 1 < g_limit[stack.size () - 1]) {
        p.c++;
        break;
      }
      stack.pop_back ();
      g_limit.pop_back ();
    }
    if (stack.size () <= base) {
      flush_counts ();
      return;
    }
  }
}

static void
redirect ()
{
  int fd = open ("/dev/null", O_WRONLY);
  if (fd >= 0 && !getenv ("MC_VERBOSE")) {
    dup2 (fd, 2);
    dup2 (fd, 1);
  }
}

static void
worker (int w)
{
  mySlot = &S->slot[w];
  redirect ();
  bool was_idle = false;
  for (;;) {
    Job j;
    bool got = false;
    pthread_mutex_lock (&S->mu);
    if (S->qn > 0) {
      j = S->q[--S->qn];
      got = true;
      if (was_idle) {
        S->idle--;
        was_idle = false;
      }
    }
    else if (!was_idle) {
      S->idle++;
      was_idle = true;
    }
    if (!got && S->idle == S->nworkers && S->qn == 0 && !S->stop)
      S->stop = 1;
    pthread_mutex_unlock (&S->mu);
    if (S->stop) {
      flush_counts ();
      _exit (0);
    }
    if (!got) {
      usleep (200);
      continue;
    }
    run_job (j);
  }
}

static std::string
json_escape (const std::string &s)
{
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    }
    else if (c == '\n')
      o += "\\n";
    else if (c < 32)
      o += ' ';
    else
      o += c;
  }
  return o;
}

/* run one given choice list in a fresh child; returns 0 ok, 1 violation (msg set), 2 hang */
static int
run_alone (const std::vector<uint16_t> &c, double limit, std::string &msg)
{
  Slot *sl = &S->slot[MAXW - 1];
  memset ((void *) sl, 0, sizeof *sl);
  pid_t p = fork ();
  if (p == 0) {
    mySlot = sl;
    redirect ();
    g_replay = false;
    stack.clear ();
    for (uint16_t x : c)
      stack.push_back (Point { x, 0, false });
    fixed_len = stack.size ();
    run_once ();
    _exit (0);
  }
  double t0 = now ();
  int st;
  for (;;) {
    pid_t r = waitpid (p, &st, WNOHANG);
    if (r == p)
      break;
    if (now () - t0 > limit) {
      kill (p, SIGKILL);
      waitpid (p, &st, 0);
      msg = "hang: the execution did not finish within the limit";
      return 2;
    }
    usleep (5000);
  }
  if (WIFEXITED (st) && WEXITSTATUS (st) == 0)
    return 0;
  if (sl->failed)
    msg = sl->failmsg;
  else if (WIFSIGNALED (st)) {
    char b[100];
    snprintf (b, sizeof b, "crash: signal %d", WTERMSIG (st));
    msg = b;
  }
  else {
    char b[100];
    snprintf (b, sizeof b, "abnormal exit %d", WEXITSTATUS (st));
    msg = b;
  }
  return 1;
}

int
main (int argc, char **argv, const Options &opt, std::function<void ()> body)
{
  O = opt;
  if (!getenv ("MC_NOASLR")) {
    setenv ("MC_NOASLR", "1", 1);
    setenv ("MALLOC_PERTURB_", "165", 0);
    if (personality (ADDR_NO_RANDOMIZE) != -1 || true)
      execv ("/proc/self/exe", argv);
  }
  std::string tier = getenv ("VERIF_TIER") ? getenv ("VERIF_TIER") : "quick";
  std::string out = "", replay, variant = "", findings = "";
  std::string replay_out = "";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&] () -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--tier")
      tier = val ();
    else if (a == "--out")
      out = val ();
    else if (a == "--replay")
      replay = val ();
    else if (a == "--replay-out")
      replay_out = val ();
    else if (a == "--findings")
      findings = val ();
  }
  g_thorough = tier == "thorough";
  g_devbound = g_thorough ? O.dev_bound_thorough : O.dev_bound_quick;
  if (getenv ("MC_DEV"))
    g_devbound = atoi (getenv ("MC_DEV"));
  g_body = &body;
  if (!findings.empty ()) {
    std::ifstream f (findings);
    std::string line;
    while (std::getline (f, line)) {
      std::istringstream is (line);
      std::string kind, prop, id;
      is >> kind >> prop >> id;
      if (kind == "open:" && prop == std::string ("property=") + O.property)
        g_open_findings.insert (id);
    }
  }
  S = (Shared *) mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  HS = (std::atomic<uint64_t> *) mmap (nullptr, HASHCAP * 8, PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED || (void *) HS == MAP_FAILED) {
    perror ("mmap");
    return 2;
  }
  pthread_mutexattr_t ma;
  pthread_mutexattr_init (&ma);
  pthread_mutexattr_setpshared (&ma, PTHREAD_PROCESS_SHARED);
  pthread_mutex_init (&S->mu, &ma);

  if (!replay.empty ()) {
    std::ifstream f (replay);
    std::string line;
    std::vector<uint16_t> c;
    while (std::getline (f, line))
      if (line.rfind ("choices:", 0) == 0) {
        std::istringstream is (line.substr (8));
        int x;
        while (is >> x)
          c.push_back ((uint16_t) x);
      }
    g_replay = true;
    mySlot = &S->slot[0];
    for (uint16_t x : c)
      stack.push_back (Point { x, 0, false });
    fixed_len = stack.size ();
    run_once ();
    printf ("replay: property holds on this execution\n");
    return 0;
  }

  double t0 = now ();
  int nw = 8;
  if (getenv ("MC_WORKERS"))
    nw = atoi (getenv ("MC_WORKERS"));
  if (nw > MAXW - 1)
    nw = MAXW - 1;
  S->nworkers = nw;
  S->q[0].len = 0;
  S->qn = 1;
  std::vector<pid_t> pid (nw);
  for (int w = 0; w < nw; w++) {
    pid_t p = fork ();
    if (p == 0)
      worker (w);
    pid[w] = p;
  }
  double cap = g_thorough ? O.cap_thorough : O.cap_quick;
  if (getenv ("MC_CAP"))
    cap = atof (getenv ("MC_CAP"));
  int live = nw;
  bool capped = false, violated = false, error = false;
  std::string vmsg;
  std::vector<uint16_t> vch;
  while (live > 0) {
    for (int w = 0; w < nw; w++) {
      if (pid[w] == 0)
        continue;
      int st;
      bool bad = false, hang = false;
      pid_t r = waitpid (pid[w], &st, WNOHANG);
      if (r == pid[w]) {
        pid[w] = 0;
        live--;
        bad = !(WIFEXITED (st) && WEXITSTATUS (st) == 0);
      }
      else if (S->slot[w].active && now () - S->slot[w].start > O.hang_s && !S->stop) {
        kill (pid[w], SIGKILL);
        waitpid (pid[w], &st, 0);
        pid[w] = 0;
        live--;
        bad = hang = true;
      }
      if (bad && !violated) {
        S->stop = 3;
        Slot &sl = S->slot[w];
        std::vector<uint16_t> c (sl.c, sl.c + sl.len);
        std::string first = sl.failed ? sl.failmsg : hang ? "hang" : "crash";
        if (!sl.failed && !hang && WIFSIGNALED (st)) {
          char b[64];
          snprintf (b, sizeof b, "crash: signal %d", WTERMSIG (st));
          first = b;
          if (WTERMSIG (st) == SIGKILL) {
            fprintf (stderr, "mc: a worker was killed from outside\n");
            error = true;
            continue;
          }
        }
        std::string msg;
        int rr = run_alone (c, O.hang_s * 3, msg);
        violated = true;
        vch = c;
        if (rr == 0)
          vmsg = first + " [only in the sequence of executions of one process, not when run alone]";
        else
          vmsg = msg;
        if (hang && rr == 0) {
          fprintf (stderr, "mc: slow execution, not a hang\n");
          error = true;
          violated = false;
        }
        if (first.find ("harness:") == 0) {
          fprintf (stderr, "mc: %s\n", first.c_str ());
          error = true;
          violated = false;
        }
      }
    }
    if (!S->stop && now () - t0 > cap) {
      S->stop = 2;
      capped = true;
    }
    usleep (3000);
  }
  double wall = now () - t0;
  if (getenv ("MC_PROF"))
    for (int a = 0; a < 8; a++)
      for (int b = 0; b < 64; b++)
        if (S->prof_n[a][b])
          fprintf (stderr, "prof %d %d: %llu executions %.2f cpu s\n", a, b, (unsigned long long) S->prof_n[a][b], S->prof_us[a][b] * 1e-6);
  std::ostringstream js;
  js << "{\"states\": " << S->states << ", \"transitions\": " << S->transitions
     << ", \"traces_validated_against_impl\": " << S->execs << ", \"infeasible_pruned\": " << S->pruned
     << ", \"choice_points\": " << S->points << ", \"max_choices_per_execution\": " << S->maxlen
     << ", \"deviation_bound\": " << g_devbound << ", \"executions_by_deviations\": [";
  for (int i = 0; i < 8; i++)
    js << (i ? ", " : "") << S->devs_used[i];
  js << "], \"oracle_comparisons\": {";
  for (int i = 0; i < S->ncounters; i++)
    js << (i ? ", " : "") << "\"" << json_escape (S->counters[i].name) << "\": " << S->counters[i].n;
  js << "}, \"exhaustive\": " << (!capped && !violated && !error ? "true" : "false")
     << ", \"state_table_overflow\": " << S->hash_full << ", \"cap_hit\": " << (capped ? "true" : "false")
     << ", \"bounds\": \"" << json_escape (O.bounds) << "\", \"samples\": [";
  int ns = std::min<int> (S->nsamples, 24);
  for (int i = 0; i < ns; i++)
    js << (i ? ", " : "") << "\"" << json_escape (S->samples[i]) << "\"";
  js << "], \"explore_wall_s\": " << wall << ", \"violation\": " << (violated ? "true" : "false")
     << ", \"message\": \"" << json_escape (vmsg) << "\", \"known\": [";
  for (int i = 0; i < S->nknown; i++)
    js << (i ? ", " : "") << "\"" << json_escape (S->knownhits[i]) << "\"";
  js << "]}\n";
  if (!out.empty ()) {
    std::ofstream f (out);
    f << js.str ();
  }
  else
    fputs (js.str ().c_str (), stdout);
  if (violated) {
    std::string path = replay_out.empty () ? "replay.txt" : replay_out;
    std::ofstream f (path);
    f << "property: " << O.property << "\nmessage: " << vmsg << "\nchoices:";
    for (uint16_t x : vch)
      f << " " << x;
    f << "\n";
    fprintf (stderr, "violation: %s\n", vmsg.c_str ());
    return 1;
  }
  if (error)
    return 2;
  return 0;
}
}  // namespace mc
