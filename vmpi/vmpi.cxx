#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include <cstdarg>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <sys/mman.h>
#include "vmpi.hxx"
#include "../mc/mc.hxx"

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#endif

namespace vmpi
{
/* ---------------------------------------------------------------- fibers */
extern "C" void vmpi_switch (void **save_sp, void *load_sp);
__asm__(".text\n.globl vmpi_switch\n.type vmpi_switch,@function\nvmpi_switch:\n"
        "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
        "  subq $8,%rsp\n  stmxcsr (%rsp)\n  fnstcw 4(%rsp)\n"
        "  movq %rsp,(%rdi)\n  movq %rsi,%rsp\n"
        "  ldmxcsr (%rsp)\n  fldcw 4(%rsp)\n  addq $8,%rsp\n"
        "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
        ".size vmpi_switch,.-vmpi_switch\n");

static const size_t STACK = 2u << 20;
struct Fiber {
  void *sp = nullptr;
  char *stack = nullptr;
  void *fake = nullptr;
  int rank = -1;
  bool done = false, started = false;
  const char *where = "start";
  std::function<bool ()> ready;    /* blocked until this holds; empty: runnable */
  std::function<bool ()> resolve;  /* at quiescence: try to resolve a nondeterministic wait */
  bool spin = false;               /* a polling call (Iprobe/Test) */
  bool low = false;                /* delayed: runs when nothing else can */
};
static std::vector<char *> stack_pool;
static std::vector<std::unique_ptr<Fiber>> fibers;
static void *main_sp, *main_fake;
static const void *main_stack_b;
static size_t main_stack_n;
static Fiber *cur;
static const std::function<void (int)> *g_fn;
static Config cfg;
static int N;
static int delays_left;
static uint64_t progress;  /* bumped whenever a message is sent/matched or a collective entered */

int rank () { return cur ? cur->rank : -1; }
int size () { return N; }

static void
to_main ()
{
  Fiber *f = cur;
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_start_switch_fiber (f->done ? nullptr : &f->fake, main_stack_b, main_stack_n);
#endif
  vmpi_switch (&f->sp, main_sp);
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_finish_switch_fiber (f->fake, &main_stack_b, &main_stack_n);
#endif
}
static void drop_predefined_attrs (int rank);
static void
fiber_entry ()
{
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_finish_switch_fiber (nullptr, &main_stack_b, &main_stack_n);
#endif
  Fiber *f = cur;
  (*g_fn) (f->rank);
  drop_predefined_attrs (f->rank);
  f->done = true;
  to_main ();
  abort ();
}
static void
to_fiber (Fiber *f)
{
  cur = f;
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_start_switch_fiber (&main_fake, f->stack, STACK);
#endif
  vmpi_switch (&main_sp, f->sp);
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_finish_switch_fiber (main_fake, nullptr, nullptr);
#endif
  cur = nullptr;
}
static void
block (const char *where, std::function<bool ()> ready)
{
  if (ready ())
    return;
  cur->where = where;
  cur->ready = std::move (ready);
  to_main ();
  cur->ready = nullptr;
}
/* the process may fall behind here until all others wait for it */
static void
maybe_delay ()
{
  if (!cur || delays_left <= 0 || !mc::choose_dev (2, "delay"))
    return;
  delays_left--;
  cur->where = "delayed";
  cur->low = true;
  to_main ();
}
/* wait for quiescence, then let the scheduler resolve */
static void
block_quiesce (const char *where, std::function<bool ()> resolve, bool spin)
{
  bool *done = new bool (false);
  cur->where = where;
  cur->spin = spin;
  cur->resolve = [=] () {
    if (resolve ()) {
      *done = true;
      return true;
    }
    return false;
  };
  cur->ready = [=] () { return *done; };
  to_main ();
  cur->ready = nullptr;
  cur->resolve = nullptr;
  cur->spin = false;
  delete done;
}

/* ---------------------------------------------------------------- objects */
struct CollArg {
  bool arrived = false, left = false;
  std::vector<char> data;
  std::vector<int> counts;
};
struct Coll {
  std::string kind;
  int root = 0;
  const void *op = nullptr;
  size_t bytes = 0;
  bool check_bytes = false;
  std::vector<CollArg> a;
  int narr = 0, nleft = 0;
  std::map<int, void *> result; /* per color (split) or 0 */
  bool computed = false;
};
struct Comm {
  uint64_t magic = 0xC033;
  int id;
  std::vector<int> members;
  std::vector<int> seq;                        /* collectives entered, per member */
  std::map<int, std::unique_ptr<Coll>> colls;  /* by sequence number */
  std::vector<std::map<int, void *>> attrs;
  std::vector<bool> freed;
  int nfreed = 0;
  bool predefined = false;
};
struct Msg {
  Comm *comm;
  int src, dst, tag; /* comm ranks of src/dst, world rank in wdst */
  int wsrc, wdst;
  std::vector<char> data;
  const void *buf = nullptr;
  size_t len = 0;
  struct Req *sreq = nullptr;
  bool matched = false;
};
struct Req {
  uint64_t magic = 0x4E0;
  bool is_send = false, complete = false;
  int wrank = -1;
  Comm *comm = nullptr;
  void *buf = nullptr;
  size_t cap = 0;
  int src = 0, tag = 0;
  std::vector<char> stage;
  bool staged = false;
  int st_src = 0, st_tag = 0;
  size_t st_len = 0;
  bool ibarrier = false;
};
struct Group {
  std::vector<int> m;
};
struct Win {
  std::vector<char *> mem;
  std::vector<size_t> sz;
  Comm *comm;
  int nfreed = 0;
  char *block = nullptr;
};
struct Type {
  uint64_t magic = 0x7199;
  size_t size;
};
struct UOp {
  uint64_t magic = 0x0B0B;
  MPI_User_function *fn;
};
struct Keyval {
  MPI_Comm_copy_attr_function *copy;
  MPI_Comm_delete_attr_function *del;
  void *extra;
};

static std::vector<Comm *> comms;
static Comm *world;
static std::vector<Comm *> selfs;
static std::vector<std::deque<Msg *>> mq;   /* per world dst */
static std::vector<std::list<Req *>> posted; /* per world dst */
static int n_live_reqs, n_live_comms, n_live_wins;
static int next_comm_id;
static std::map<int, Keyval> keyvals;
static int next_keyval = 1000;
static std::set<Type *> types;

int live_comms () { return n_live_comms; }
int live_wins () { return n_live_wins; }

[[noreturn]] static void
vfail (const char *fmt, ...)
{
  char b[1500];
  va_list ap;
  va_start (ap, fmt);
  vsnprintf (b, sizeof b, fmt, ap);
  va_end (ap);
  mc::fail ("MPI: rank %d: %s", rank (), b);
}

/* Outside run() (rank -1) MPI_COMM_WORLD/SELF behave as a single process. */
static Comm *
lone ()
{
  static Comm *c = nullptr;
  if (!c) {
    c = new Comm;
    c->id = -1;
    c->members = { 0 };
    c->seq = { 0 };
    c->attrs.resize (1);
    c->freed = { false };
    c->predefined = true;
  }
  return c;
}
static Comm *
C (MPI_Comm h, const char *fn)
{
  if (h == MPI_COMM_WORLD)
    return cur ? world : lone ();
  if (h == MPI_COMM_SELF)
    return cur ? selfs[cur->rank] : lone ();
  if (h == MPI_COMM_NULL || h == nullptr)
    vfail ("%s on the null communicator", fn);
  Comm *c = (Comm *) h;
  if (c->magic != 0xC033)
    vfail ("%s on an invalid communicator", fn);
  return c;
}
static int
me (Comm *c)
{
  int r = cur ? cur->rank : 0;
  for (size_t i = 0; i < c->members.size (); i++)
    if (c->members[i] == r) {
      if (c->freed[i])
        vfail ("use of a freed communicator");
      return (int) i;
    }
  vfail ("process is not a member of the communicator");
}
static size_t
tsize (MPI_Datatype t)
{
  static std::map<void *, size_t> m;
  if (m.empty ()) {
    m[(void *) MPI_BYTE] = 1;
    m[(void *) MPI_CHAR] = 1;
    m[(void *) MPI_SIGNED_CHAR] = 1;
    m[(void *) MPI_UNSIGNED_CHAR] = 1;
    m[(void *) MPI_PACKED] = 1;
    m[(void *) MPI_INT8_T] = 1;
    m[(void *) MPI_SHORT] = 2;
    m[(void *) MPI_UNSIGNED_SHORT] = 2;
    m[(void *) MPI_INT] = 4;
    m[(void *) MPI_UNSIGNED] = 4;
    m[(void *) MPI_LONG] = 8;
    m[(void *) MPI_UNSIGNED_LONG] = 8;
    m[(void *) MPI_LONG_LONG_INT] = 8;
    m[(void *) MPI_UNSIGNED_LONG_LONG] = 8;
    m[(void *) MPI_FLOAT] = 4;
    m[(void *) MPI_DOUBLE] = 8;
    m[(void *) MPI_LONG_DOUBLE] = sizeof (long double);
    m[(void *) MPI_2INT] = 8;
  }
  auto it = m.find ((void *) t);
  if (it != m.end ())
    return it->second;
  if (types.count ((Type *) t))
    return ((Type *) t)->size;
  vfail ("unknown datatype");
}
static size_t
bytes (int count, MPI_Datatype t, const char *fn)
{
  if (count < 0)
    vfail ("%s with negative count %d", fn, count);
  return (size_t) count * tsize (t);
}

/* ---------------------------------------------------------------- point to point */
static bool
match (const Msg *m, const Comm *c, int src, int tag)
{
  return m->comm == c && (src == MPI_ANY_SOURCE || m->src == src) && (tag == MPI_ANY_TAG || m->tag == tag);
}
static Msg *
find_msg (int wdst, Comm *c, int src, int tag)
{
  for (Msg *m : mq[wdst])
    if (match (m, c, src, tag))
      return m;
  return nullptr;
}
/* first matching message of every sender, ascending sender rank */
static std::vector<Msg *>
candidates (int wdst, Comm *c, int tag)
{
  std::map<int, Msg *> f;
  for (Msg *m : mq[wdst])
    if (match (m, c, MPI_ANY_SOURCE, tag) && !f.count (m->src))
      f[m->src] = m;
  std::vector<Msg *> v;
  for (auto &k : f)
    v.push_back (k.second);
  return v;
}
static int
pick_candidate (const std::vector<Msg *> &v, const char *label)
{
  if (v.size () <= 1 || !cfg.explore)
    return 0;
  return mc::choose_dev ((int) v.size (), label);
}
static void
take (Msg *m, void *buf, size_t cap, size_t *len, const char *fn)
{
  if (m->len > cap)
    vfail ("%s: message of %zu bytes (tag %d from %d) truncated to %zu", fn, m->len, m->tag, m->src, cap);
  const void *src = m->data.empty () ? m->buf : m->data.data ();
  if (m->len)
    memcpy (buf, src, m->len);
  *len = m->len;
  if (m->sreq)
    m->sreq->complete = true;
  m->matched = true;
  auto &q = mq[m->wdst];
  q.erase (std::find (q.begin (), q.end (), m));
  progress++;
}
static void
deliver (Req *r, Msg *m)
{
  r->st_src = m->src;
  r->st_tag = m->tag;
  if (cfg.lazy_recv) {
    r->stage.resize (m->len + 1);
    if (m->len > r->cap)
      vfail ("Irecv: message truncated (%zu > %zu)", m->len, r->cap);
    take (m, r->stage.data (), m->len, &r->st_len, "MPI_Irecv");
    r->staged = true;
  }
  else
    take (m, r->buf, r->cap, &r->st_len, "MPI_Irecv");
  r->complete = true;
}
static void
progress_recvs (int wdst)
{
  auto &p = posted[wdst];
  for (auto it = p.begin (); it != p.end ();) {
    Req *r = *it;
    if (r->src == MPI_ANY_SOURCE) {
      ++it;
      continue;
    }
    Msg *m = find_msg (wdst, r->comm, r->src, r->tag);
    if (m) {
      it = p.erase (it);
      Msg *mm = m;
      deliver (r, m);
      if (!mm->sreq || true)
        ; /* the message object is owned by the sender side below */
    }
    else
      ++it;
  }
}
static std::vector<Msg *> all_msgs;
static Msg *
post_send (const void *buf, size_t len, int dst, int tag, Comm *c, Req *r, const char *fn)
{
  int m = me (c);
  if (dst < 0 || dst >= (int) c->members.size ())
    vfail ("%s to invalid rank %d", fn, dst);
  if (tag < 0)
    vfail ("%s with invalid tag", fn);
  Msg *g = new Msg;
  all_msgs.push_back (g);
  g->comm = c;
  g->src = m;
  g->dst = dst;
  g->tag = tag;
  g->wsrc = cur ? cur->rank : 0;
  g->wdst = c->members[dst];
  g->len = len;
  g->buf = buf;
  g->sreq = r;
  bool rdv = cfg.rendezvous;
  if (!rdv) {
    g->data.assign ((const char *) buf, (const char *) buf + len);
    if (r)
      r->complete = true;
    g->sreq = nullptr;
    if (len == 0)
      g->buf = "";
  }
  mq[g->wdst].push_back (g);
  progress++;
  mc::transition ();
  progress_recvs (g->wdst);
  return g;
}
static void
set_status (MPI_Status *st, int src, int tag, size_t len)
{
  if (st == MPI_STATUS_IGNORE)
    return;
  st->MPI_SOURCE = src;
  st->MPI_TAG = tag;
  st->MPI_ERROR = MPI_SUCCESS;
  st->_cancelled = 0;
  st->_ucount = len;
}
static Req *
new_req (bool send, Comm *c)
{
  Req *r = new Req;
  r->is_send = send;
  r->comm = c;
  r->wrank = cur ? cur->rank : 0;
  n_live_reqs++;
  return r;
}
static void
finish_req (MPI_Request *h, MPI_Status *st)
{
  Req *r = (Req *) *h;
  if (!r->is_send) {
    if (r->staged) {
      if (r->st_len)
        memcpy (r->buf, r->stage.data (), r->st_len);
    }
    set_status (st, r->st_src, r->st_tag, r->st_len);
  }
  else
    set_status (st, MPI_ANY_SOURCE, MPI_ANY_TAG, 0);
  r->magic = 0;
  delete r;
  n_live_reqs--;
  *h = MPI_REQUEST_NULL;
}
static Req *
R (MPI_Request h)
{
  if (h == MPI_REQUEST_NULL)
    return nullptr;
  Req *r = (Req *) h;
  if (r == nullptr || r->magic != 0x4E0)
    vfail ("wait/test on an invalid request");
  return r;
}

/* ---------------------------------------------------------------- collectives */
static Coll *
enter (Comm *c, int m, const char *kind, int root, const void *op, size_t nbytes, bool check_bytes, int *seq_out)
{
  int s = c->seq[m]++;
  *seq_out = s;
  auto &u = c->colls[s];
  mc::transition ();
  progress++;
  if (!u) {
    u.reset (new Coll);
    u->kind = kind;
    u->root = root;
    u->op = op;
    u->bytes = nbytes;
    u->check_bytes = check_bytes;
    u->a.resize (c->members.size ());
  }
  else {
    if (u->kind != kind)
      vfail ("collective mismatch on one communicator: %s here, %s elsewhere", kind, u->kind.c_str ());
    if (u->root != root)
      vfail ("%s with different roots", kind);
    if (u->op != op)
      vfail ("%s with different operations", kind);
    if (check_bytes && u->bytes != nbytes)
      vfail ("%s with different sizes (%zu and %zu bytes)", kind, nbytes, u->bytes);
  }
  u->a[m].arrived = true;
  u->narr++;
  return u.get ();
}
static void
leave (Comm *c, Coll *k, int m, int seq)
{
  k->a[m].left = true;
  k->nleft++;
  if (k->nleft == (int) k->a.size ())
    c->colls.erase (seq);
  maybe_delay ();
}
static void
wait_all (Coll *k, const char *kind)
{
  block (kind, [=] () { return k->narr == (int) k->a.size (); });
}
template <class T>
static void
red (const void *op, T *acc, const T *x, size_t n)
{
  for (size_t i = 0; i < n; i++) {
    if (op == (void *) MPI_SUM)
      acc[i] = acc[i] + x[i];
    else if (op == (void *) MPI_MAX)
      acc[i] = std::max (acc[i], x[i]);
    else if (op == (void *) MPI_MIN)
      acc[i] = std::min (acc[i], x[i]);
    else if (op == (void *) MPI_LAND)
      acc[i] = (T) (acc[i] && x[i]);
    else if (op == (void *) MPI_LOR)
      acc[i] = (T) (acc[i] || x[i]);
    else
      vfail ("unsupported reduction");
  }
}
static void
reduce_into (const void *op, void *acc, const void *x, int count, MPI_Datatype t)
{
  if (op == (void *) MPI_BOR || op == (void *) MPI_BAND) {
    size_t b = bytes (count, t, "reduce");
    for (size_t i = 0; i < b; i++)
      if (op == (void *) MPI_BOR)
        ((char *) acc)[i] |= ((const char *) x)[i];
      else
        ((char *) acc)[i] &= ((const char *) x)[i];
    return;
  }
  UOp *u = (UOp *) op;
  void *h = (void *) op;
  bool predefined = h == (void *) MPI_SUM || h == (void *) MPI_MAX || h == (void *) MPI_MIN || h == (void *) MPI_LAND
                    || h == (void *) MPI_LOR;
  if (!predefined) {
    if (u->magic != 0x0B0B)
      vfail ("unknown reduction operation");
    u->fn ((void *) x, acc, &count, &t);
    return;
  }
#define CASE(mt, ct)                                    \
  if (t == mt) {                                        \
    red<ct> (op, (ct *) acc, (const ct *) x, count);    \
    return;                                             \
  }
  CASE (MPI_INT, int)
  CASE (MPI_UNSIGNED, unsigned)
  CASE (MPI_LONG, long)
  CASE (MPI_UNSIGNED_LONG, unsigned long)
  CASE (MPI_LONG_LONG_INT, long long)
  CASE (MPI_UNSIGNED_LONG_LONG, unsigned long long)
  CASE (MPI_DOUBLE, double)
  CASE (MPI_FLOAT, float)
  CASE (MPI_CHAR, signed char)
  CASE (MPI_SIGNED_CHAR, signed char)
  CASE (MPI_UNSIGNED_CHAR, unsigned char)
  CASE (MPI_INT8_T, int8_t)
  CASE (MPI_BYTE, unsigned char)
  CASE (MPI_SHORT, short)
#undef CASE
  vfail ("reduction on an unsupported type");
}

static Comm *
new_comm (const std::vector<int> &members)
{
  Comm *c = new Comm;
  c->id = next_comm_id++;
  c->members = members;
  c->seq.assign (members.size (), 0);
  c->attrs.resize (members.size ());
  c->freed.assign (members.size (), false);
  comms.push_back (c);
  n_live_comms++;
  return c;
}

static void
del_attr (Comm *c, MPI_Comm h, int m, int kv)
{
  auto it = c->attrs[m].find (kv);
  if (it == c->attrs[m].end ())
    return;
  void *v = it->second;
  c->attrs[m].erase (it);
  Keyval &k = keyvals[kv];
  if (k.del)
    k.del (h, kv, v, k.extra);
}

/* what MPI_Finalize would do: release what is cached on the predefined communicators */
static void
drop_predefined_attrs (int r)
{
  for (Comm *c : { world, selfs[r] }) {
    int m = c == world ? r : 0;
    while (!c->attrs[m].empty ())
      del_attr (c, c == world ? MPI_COMM_WORLD : MPI_COMM_SELF, m, c->attrs[m].begin ()->first);
  }
}

/* ---------------------------------------------------------------- scheduler */
Config
choose_config (int n)
{
  static const Config table[] = {
    /* rdv, lazy, nonsync, desc, ppn, explore */
    { false, false, false, false, 0, true },
    { true, true, true, true, 1, true },
    { false, true, true, true, 2, true },
    { true, false, false, false, 2, true },
    { true, true, false, true, 0, true },
    { false, true, true, false, 1, true },
  };
  int k = mc::choose (n, "mpi_mode");
  return table[k];
}

void
run (int n, const Config &config, const std::function<void (int)> &fn)
{
  cfg = config;
  if (cfg.ppn > 0 && n % cfg.ppn != 0)
    cfg.ppn = 1; /* libsc supports only nodes of equal size */
  N = n;
  delays_left = cfg.delays;
  g_fn = &fn;
  fibers.clear ();
  comms.clear ();
  next_comm_id = 0;
  mq.assign (n, {});
  posted.assign (n, {});
  n_live_reqs = n_live_comms = n_live_wins = 0;
  std::vector<int> all;
  for (int i = 0; i < n; i++)
    all.push_back (i);
  world = new_comm (all);
  world->predefined = true;
  selfs.clear ();
  for (int i = 0; i < n; i++) {
    selfs.push_back (new_comm ({ i }));
    selfs.back ()->predefined = true;
  }
  n_live_comms = 0;
  for (int i = 0; i < n; i++) {
    Fiber *f = new Fiber;
    f->rank = i;
    if (stack_pool.empty ()) {
      f->stack = (char *) mmap (nullptr, STACK + 4096, PROT_READ | PROT_WRITE,
                                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (f->stack == MAP_FAILED)
        mc::fail ("harness: no memory for a fiber stack");
      mprotect (f->stack, 4096, PROT_NONE);
    }
    else {
      f->stack = stack_pool.back ();
      stack_pool.pop_back ();
    }
    uintptr_t top = (uintptr_t) (f->stack + STACK) & ~(uintptr_t) 63;
    void **sp = (void **) (top - 64);
    /* layout popped by vmpi_switch: [mxcsr|fcw] r15 r14 r13 r12 rbx rbp ret */
    sp -= 1;
    *sp = nullptr; /* fake return address keeps 16-byte alignment at entry */
    sp -= 1;
    *sp = (void *) fiber_entry;
    sp -= 6;
    memset (sp, 0, 6 * sizeof (void *));
    sp -= 1;
    uint32_t mx;
    uint16_t cw;
    __asm__ volatile ("stmxcsr %0" : "=m"(mx));
    __asm__ volatile ("fnstcw %0" : "=m"(cw));
    memset (sp, 0, 8);
    memcpy (sp, &mx, 4);
    memcpy ((char *) sp + 4, &cw, 2);
    f->sp = sp;
    fibers.emplace_back (f);
  }
  uint64_t last_progress = 0;
  int spins = 0;
  for (;;) {
    bool any = false, alive = false;
    for (int k = 0; k < n; k++) {
      Fiber *f = fibers[cfg.descending ? n - 1 - k : k].get ();
      if (f->done)
        continue;
      alive = true;
      if (f->low)
        continue;
      if (!f->ready || f->ready ()) {
        any = true;
        to_fiber (f);
        break; /* restart with the highest priority: run each rank as far as possible */
      }
    }
    if (!alive)
      break;
    if (any)
      continue;
    for (int k = 0; k < n && !any; k++) {
      Fiber *f = fibers[cfg.descending ? n - 1 - k : k].get ();
      if (!f->done && f->low) {
        f->low = false;
        any = true;
        to_fiber (f);
      }
    }
    if (any)
      continue;
    /* quiescence: resolve one nondeterministic wait */
    bool resolved = false;
    std::vector<Fiber *> cand;
    for (int pass = 0; pass < 2 && !resolved; pass++)
      for (int k = 0; k < n && !resolved; k++) {
        Fiber *f = fibers[cfg.descending ? n - 1 - k : k].get ();
        if (f->done || !f->resolve || f->spin != (pass == 1))
          continue;
        if (f->resolve ()) {
          resolved = true;
          if (f->spin && progress == last_progress) {
            /* rotate among spinners so that each gets a turn */
            if (++spins > 4000)
              mc::fail ("livelock: only polling processes, no message in flight can satisfy them (rank %d in %s)",
                        f->rank, f->where);
          }
          else
            spins = 0;
          last_progress = progress;
        }
      }
    if (!resolved) {
      std::string s;
      for (auto &f : fibers)
        if (!f->done)
          s += " rank " + std::to_string (f->rank) + " in " + f->where;
        else
          s += " rank " + std::to_string (f->rank) + " finished";
      mc::fail ("deadlock:%s", s.c_str ());
    }
  }
  int left = 0;
  for (auto &q : mq)
    left += (int) q.size ();
  if (left) {
    Msg *m = nullptr;
    for (auto &q : mq)
      if (!q.empty ())
        m = q.front ();
    mc::fail ("MPI: %d message(s) never received, e.g. tag %d from rank %d to rank %d", left, m->tag, m->wsrc, m->wdst);
  }
  for (int i = 0; i < n; i++)
    if (!posted[i].empty ())
      mc::fail ("MPI: rank %d finished with a posted receive that never matched", i);
  if (n_live_reqs)
    mc::fail ("MPI: %d request(s) never completed by wait or test", n_live_reqs);
  for (auto &f : fibers)
    stack_pool.push_back (f->stack);
  for (Msg *m : all_msgs)
    delete m;
  all_msgs.clear ();
  for (Comm *c : comms)
    delete c;
  comms.clear ();
  fibers.clear ();
}
}  // namespace vmpi

using namespace vmpi;

/* ---------------------------------------------------------------- the MPI interface */
extern "C" {
int MPI_Init (int *, char ***) { return MPI_SUCCESS; }
int MPI_Init_thread (int *, char ***, int, int *p) { *p = MPI_THREAD_SINGLE; return MPI_SUCCESS; }
int MPI_Finalize (void) { return MPI_SUCCESS; }
int MPI_Initialized (int *f) { *f = 1; return MPI_SUCCESS; }
int MPI_Finalized (int *f) { *f = 0; return MPI_SUCCESS; }
int MPI_Abort (MPI_Comm, int) { vfail ("MPI_Abort called"); }
double MPI_Wtime (void)
{
  static double t = 0;
  return t += 1e-6;
}
int MPI_Comm_rank (MPI_Comm h, int *r) { *r = me (C (h, "MPI_Comm_rank")); return MPI_SUCCESS; }
int MPI_Comm_size (MPI_Comm h, int *s) { *s = (int) C (h, "MPI_Comm_size")->members.size (); return MPI_SUCCESS; }
int MPI_Type_size (MPI_Datatype t, int *s) { *s = (int) tsize (t); return MPI_SUCCESS; }
int MPI_Get_count (const MPI_Status *st, MPI_Datatype t, int *n)
{
  size_t s = tsize (t);
  *n = st->_ucount % s ? MPI_UNDEFINED : (int) (st->_ucount / s);
  return MPI_SUCCESS;
}
int MPI_Get_elements (const MPI_Status *st, MPI_Datatype t, int *n) { return MPI_Get_count (st, t, n); }
int MPI_Comm_compare (MPI_Comm a, MPI_Comm b, int *r)
{
  Comm *x = C (a, "MPI_Comm_compare"), *y = C (b, "MPI_Comm_compare");
  if (x == y)
    *r = MPI_IDENT;
  else if (x->members == y->members)
    *r = MPI_CONGRUENT;
  else {
    auto p = x->members, q = y->members;
    std::sort (p.begin (), p.end ());
    std::sort (q.begin (), q.end ());
    *r = p == q ? MPI_SIMILAR : MPI_UNEQUAL;
  }
  return MPI_SUCCESS;
}

int MPI_Send (const void *buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm h)
{
  Comm *c = C (h, "MPI_Send");
  size_t len = bytes (count, t, "MPI_Send");
  Msg *m = post_send (buf, len, dst, tag, c, nullptr, "MPI_Send");
  if (cfg.rendezvous)
    block ("MPI_Send", [=] () { return m->matched; });
  return MPI_SUCCESS;
}
int MPI_Ssend (const void *buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm h)
{
  Msg *m = post_send (buf, bytes (count, t, "MPI_Ssend"), dst, tag, C (h, "MPI_Ssend"), nullptr, "MPI_Ssend");
  block ("MPI_Ssend", [=] () { return m->matched; });
  return MPI_SUCCESS;
}
int MPI_Isend (const void *buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm h, MPI_Request *req)
{
  Comm *c = C (h, "MPI_Isend");
  Req *r = new_req (true, c);
  *req = (MPI_Request) r;
  post_send (buf, bytes (count, t, "MPI_Isend"), dst, tag, c, r, "MPI_Isend");
  return MPI_SUCCESS;
}
int MPI_Issend (const void *buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm h, MPI_Request *req)
{
  bool o = cfg.rendezvous;
  cfg.rendezvous = true;
  int ret = MPI_Isend (buf, count, t, dst, tag, h, req);
  cfg.rendezvous = o;
  return ret;
}
int MPI_Irecv (void *buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm h, MPI_Request *req)
{
  Comm *c = C (h, "MPI_Irecv");
  me (c);
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int) c->members.size ()))
    vfail ("MPI_Irecv from invalid rank %d", src);
  Req *r = new_req (false, c);
  r->buf = buf;
  r->cap = bytes (count, t, "MPI_Irecv");
  r->src = src;
  r->tag = tag;
  posted[cur->rank].push_back (r);
  *req = (MPI_Request) r;
  progress++;
  mc::transition ();
  progress_recvs (cur->rank);
  return MPI_SUCCESS;
}
/* returns the message chosen for a receive or probe */
static Msg *
wait_msg (Comm *c, int src, int tag, const char *fn)
{
  int w = cur->rank;
  mc::transition ();
  if (src != MPI_ANY_SOURCE) {
    if (src < 0 || src >= (int) c->members.size ())
      vfail ("%s from invalid rank %d", fn, src);
    block (fn, [=] () { return find_msg (w, c, src, tag) != nullptr; });
    return find_msg (w, c, src, tag);
  }
  Msg **res = new Msg *(nullptr);
  block_quiesce (
    fn,
    [=] () {
      auto v = candidates (w, c, tag);
      if (v.empty ())
        return false;
      *res = v[pick_candidate (v, "any_source")];
      return true;
    },
    false);
  Msg *m = *res;
  delete res;
  return m;
}
int MPI_Recv (void *buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm h, MPI_Status *st)
{
  Comm *c = C (h, "MPI_Recv");
  me (c);
  size_t cap = bytes (count, t, "MPI_Recv"), len;
  Msg *m = wait_msg (c, src, tag, "MPI_Recv");
  take (m, buf, cap, &len, "MPI_Recv");
  set_status (st, m->src, m->tag, len);
  return MPI_SUCCESS;
}
int MPI_Probe (int src, int tag, MPI_Comm h, MPI_Status *st)
{
  Comm *c = C (h, "MPI_Probe");
  me (c);
  Msg *m = wait_msg (c, src, tag, "MPI_Probe");
  set_status (st, m->src, m->tag, m->len);
  return MPI_SUCCESS;
}
int MPI_Iprobe (int src, int tag, MPI_Comm h, int *flag, MPI_Status *st)
{
  Comm *c = C (h, "MPI_Iprobe");
  me (c);
  int w = cur->rank;
  Msg *res = nullptr, **pres = &res;
  mc::transition ();
  block_quiesce (
    "MPI_Iprobe",
    [=] () {
      *pres = nullptr;
      std::vector<Msg *> v;
      if (src == MPI_ANY_SOURCE)
        v = candidates (w, c, tag);
      else if (Msg *m = find_msg (w, c, src, tag))
        v.push_back (m);
      if (v.empty ())
        return true; /* truthfully: nothing there */
      int k = cfg.explore ? mc::choose_dev ((int) v.size () + 1, "iprobe") : 0;
      if (k < (int) v.size ())
        *pres = v[k];
      return true;
    },
    true);
  *flag = res != nullptr;
  if (res)
    set_status (st, res->src, res->tag, res->len);
  return MPI_SUCCESS;
}
static void
resolve_any_irecv (Req *r)
{
  /* a wildcard Irecv is matched when its owner waits for it */
  Comm *c = r->comm;
  int w = cur->rank;
  Msg *m = wait_msg (c, MPI_ANY_SOURCE, r->tag, "MPI_Wait(any source)");
  posted[w].remove (r);
  deliver (r, m);
}
int MPI_Wait (MPI_Request *req, MPI_Status *st)
{
  mc::transition ();
  Req *r = R (*req);
  if (!r) {
    set_status (st, MPI_ANY_SOURCE, MPI_ANY_TAG, 0);
    return MPI_SUCCESS;
  }
  if (!r->is_send && !r->complete && r->src == MPI_ANY_SOURCE)
    resolve_any_irecv (r);
  block ("MPI_Wait", [=] () { return r->complete; });
  finish_req (req, st);
  return MPI_SUCCESS;
}
int MPI_Waitall (int n, MPI_Request *req, MPI_Status *st)
{
  for (int i = 0; i < n; i++) {
    if (R (req[i]) == nullptr)
      continue;
    int k = i;
    (void) k;
    MPI_Wait (&req[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + i);
  }
  return MPI_SUCCESS;
}
int MPI_Test (MPI_Request *req, int *flag, MPI_Status *st)
{
  Req *r = R (*req);
  *flag = 1;
  mc::transition ();
  if (!r)
    return MPI_SUCCESS;
  bool res = false, *pres = &res;
  block_quiesce (
    "MPI_Test",
    [=] () {
      *pres = r->complete && !(cfg.explore && mc::choose_dev (2, "test"));
      return true;
    },
    true);
  *flag = res;
  if (res)
    finish_req (req, st);
  return MPI_SUCCESS;
}
int MPI_Testall (int n, MPI_Request *req, int *flag, MPI_Status *st)
{
  bool res = false, *pres = &res;
  std::vector<Req *> v;
  for (int i = 0; i < n; i++)
    if (Req *r = R (req[i]))
      v.push_back (r);
  block_quiesce (
    "MPI_Testall",
    [=] () {
      bool ok = true;
      for (Req *r : v)
        ok = ok && r->complete;
      *pres = ok;
      return true;
    },
    true);
  *flag = res;
  if (res)
    for (int i = 0; i < n; i++)
      if (R (req[i]))
        finish_req (&req[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + i);
  return MPI_SUCCESS;
}
int MPI_Waitsome (int n, MPI_Request *req, int *outc, int *ind, MPI_Status *st)
{
  int live = 0;
  for (int i = 0; i < n; i++)
    live += R (req[i]) != nullptr;
  if (!live) {
    *outc = MPI_UNDEFINED;
    return MPI_SUCCESS;
  }
  int pick = -1, *pp = &pick;
  block_quiesce (
    "MPI_Waitsome",
    [=] () {
      std::vector<int> d;
      for (int i = 0; i < n; i++)
        if (Req *r = R (req[i]))
          if (r->complete)
            d.push_back (i);
      if (d.empty ())
        return false;
      *pp = d[cfg.explore && d.size () > 1 ? mc::choose_dev ((int) d.size (), "waitsome") : 0];
      return true;
    },
    false);
  *outc = 1;
  ind[0] = pick;
  finish_req (&req[pick], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st);
  return MPI_SUCCESS;
}
int MPI_Waitany (int n, MPI_Request *req, int *ind, MPI_Status *st)
{
  int oc;
  int ret = MPI_Waitsome (n, req, &oc, ind, st);
  if (oc == MPI_UNDEFINED)
    *ind = MPI_UNDEFINED;
  return ret;
}
int MPI_Request_free (MPI_Request *req)
{
  Req *r = R (*req);
  if (r) {
    n_live_reqs--;
    *req = MPI_REQUEST_NULL;
  }
  return MPI_SUCCESS;
}
int MPI_Sendrecv (const void *sb, int sc, MPI_Datatype stp, int dst, int stag, void *rb, int rc, MPI_Datatype rt, int src,
                  int rtag, MPI_Comm h, MPI_Status *st)
{
  MPI_Request r;
  MPI_Isend (sb, sc, stp, dst, stag, h, &r);
  MPI_Recv (rb, rc, rt, src, rtag, h, st);
  return MPI_Wait (&r, MPI_STATUS_IGNORE);
}

/* pack/unpack: plain concatenation */
int MPI_Pack_size (int n, MPI_Datatype t, MPI_Comm, int *size) { *size = (int) bytes (n, t, "MPI_Pack_size"); return MPI_SUCCESS; }
int MPI_Pack (const void *in, int n, MPI_Datatype t, void *out, int outsize, int *pos, MPI_Comm)
{
  size_t b = bytes (n, t, "MPI_Pack");
  mc::transition ();
  if (*pos < 0 || *pos + b > (size_t) outsize)
    vfail ("MPI_Pack beyond the end of the buffer (%d + %zu > %d)", *pos, b, outsize);
  if (b)
    memcpy ((char *) out + *pos, in, b);
  *pos += (int) b;
  return MPI_SUCCESS;
}
int MPI_Unpack (const void *in, int insize, int *pos, void *out, int n, MPI_Datatype t, MPI_Comm)
{
  size_t b = bytes (n, t, "MPI_Unpack");
  mc::transition ();
  if (*pos < 0 || *pos + b > (size_t) insize)
    vfail ("MPI_Unpack beyond the end of the buffer (%d + %zu > %d)", *pos, b, insize);
  if (b)
    memcpy (out, (const char *) in + *pos, b);
  *pos += (int) b;
  return MPI_SUCCESS;
}

/* collectives */
int MPI_Barrier (MPI_Comm h)
{
  Comm *c = C (h, "MPI_Barrier");
  int m = me (c), s;
  Coll *k = enter (c, m, "MPI_Barrier", 0, nullptr, 0, false, &s);
  wait_all (k, "MPI_Barrier");
  leave (c, k, m, s);
  return MPI_SUCCESS;
}
int MPI_Ibarrier (MPI_Comm h, MPI_Request *)
{
  C (h, "MPI_Ibarrier");
  vfail ("MPI_Ibarrier is not supported by the virtual MPI");
}
int MPI_Bcast (void *buf, int n, MPI_Datatype t, int root, MPI_Comm h)
{
  Comm *c = C (h, "MPI_Bcast");
  int m = me (c), s;
  if (root < 0 || root >= (int) c->members.size ())
    vfail ("MPI_Bcast with invalid root %d", root);
  size_t b = bytes (n, t, "MPI_Bcast");
  Coll *k = enter (c, m, "MPI_Bcast", root, nullptr, b, true, &s);
  if (m == root)
    k->a[m].data.assign ((char *) buf, (char *) buf + b);
  if (cfg.nonsync)
    block ("MPI_Bcast", [=] () { return k->a[root].arrived; });
  else
    wait_all (k, "MPI_Bcast");
  if (m != root && b)
    memcpy (buf, k->a[root].data.data (), b);
  leave (c, k, m, s);
  return MPI_SUCCESS;
}
static const void *
inplace (const void *sb, const void *rb)
{
  return sb == MPI_IN_PLACE ? rb : sb;
}
int MPI_Allreduce (const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h)
{
  Comm *c = C (h, "MPI_Allreduce");
  int m = me (c), s;
  size_t b = bytes (n, t, "MPI_Allreduce");
  Coll *k = enter (c, m, "MPI_Allreduce", 0, (void *) op, b, true, &s);
  const char *src = (const char *) inplace (sb, rb);
  k->a[m].data.assign (src, src + b);
  wait_all (k, "MPI_Allreduce");
  std::vector<char> acc = k->a[0].data;
  for (size_t i = 1; i < k->a.size (); i++)
    reduce_into (op, acc.data (), k->a[i].data.data (), n, t);
  if (b)
    memcpy (rb, acc.data (), b);
  leave (c, k, m, s);
  return MPI_SUCCESS;
}
int MPI_Reduce (const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm h)
{
  Comm *c = C (h, "MPI_Reduce");
  int m = me (c), s;
  size_t b = bytes (n, t, "MPI_Reduce");
  Coll *k = enter (c, m, "MPI_Reduce", root, (void *) op, b, true, &s);
  const char *src = (const char *) inplace (sb, rb);
  k->a[m].data.assign (src, src + b);
  if (!cfg.nonsync || m == root)
    wait_all (k, "MPI_Reduce");
  if (m == root) {
    std::vector<char> acc = k->a[0].data;
    for (size_t i = 1; i < k->a.size (); i++)
      reduce_into (op, acc.data (), k->a[i].data.data (), n, t);
    if (b)
      memcpy (rb, acc.data (), b);
  }
  leave (c, k, m, s);
  return MPI_SUCCESS;
}
static int
scan_impl (const char *fn, bool ex, const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h)
{
  Comm *c = C (h, fn);
  int m = me (c), s;
  size_t b = bytes (n, t, fn);
  Coll *k = enter (c, m, fn, 0, (void *) op, b, true, &s);
  const char *src = (const char *) inplace (sb, rb);
  k->a[m].data.assign (src, src + b);
  if (cfg.nonsync)
    block (fn, [=] () {
      for (int i = 0; i < m; i++)
        if (!k->a[i].arrived)
          return false;
      return true;
    });
  else
    wait_all (k, fn);
  int last = ex ? m - 1 : m;
  if (last >= 0) {
    std::vector<char> acc = k->a[0].data;
    for (int i = 1; i <= last; i++) {
      std::vector<char> x = k->a[i].data;
      reduce_into (op, acc.data (), x.data (), n, t);
    }
    if (b)
      memcpy (rb, acc.data (), b);
  }
  leave (c, k, m, s);
  return MPI_SUCCESS;
}
int MPI_Scan (const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h)
{
  return scan_impl ("MPI_Scan", false, sb, rb, n, t, op, h);
}
int MPI_Exscan (const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h)
{
  return scan_impl ("MPI_Exscan", true, sb, rb, n, t, op, h);
}
static int
gather_impl (const char *fn, bool all, int root, const void *sb, int sn, MPI_Datatype st, void *rb, const int *rn,
             const int *displ, int rn1, MPI_Datatype rt, MPI_Comm h)
{
  Comm *c = C (h, fn);
  int m = me (c), s, P = (int) c->members.size ();
  if (!all && (root < 0 || root >= P))
    vfail ("%s with invalid root", fn);
  bool recv = all || m == root;
  size_t rts = recv ? tsize (rt) : 0;
  Coll *k;
  const char *src;
  size_t b;
  if (sb == MPI_IN_PLACE) {
    b = (size_t) (rn ? rn[m] : rn1) * rts;
    src = (const char *) rb + (rn ? (size_t) displ[m] * rts : (size_t) m * rn1 * rts);
  }
  else {
    b = bytes (sn, st, fn);
    src = (const char *) sb;
  }
  k = enter (c, m, fn, all ? 0 : root, nullptr, rn ? 0 : b, rn == nullptr && sb != MPI_IN_PLACE && false, &s);
  k->a[m].data.assign (src, src + b);
  if (recv || !cfg.nonsync)
    wait_all (k, fn);
  if (recv)
    for (int i = 0; i < P; i++) {
      size_t want = (size_t) (rn ? rn[i] : rn1) * rts;
      if (want != k->a[i].data.size ())
        vfail ("%s: rank %d contributes %zu bytes, %zu expected", fn, i, k->a[i].data.size (), want);
      char *dst = (char *) rb + (rn ? (size_t) displ[i] * rts : (size_t) i * rn1 * rts);
      if (want)
        memcpy (dst, k->a[i].data.data (), want);
    }
  leave (c, k, m, s);
  return MPI_SUCCESS;
}
int MPI_Allgather (const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm h)
{
  return gather_impl ("MPI_Allgather", true, 0, sb, sn, st, rb, nullptr, nullptr, rn, rt, h);
}
int MPI_Allgatherv (const void *sb, int sn, MPI_Datatype st, void *rb, const int *rn, const int *d, MPI_Datatype rt,
                    MPI_Comm h)
{
  return gather_impl ("MPI_Allgatherv", true, 0, sb, sn, st, rb, rn, d, 0, rt, h);
}
int MPI_Gather (const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm h)
{
  return gather_impl ("MPI_Gather", false, root, sb, sn, st, rb, nullptr, nullptr, rn, rt, h);
}
int MPI_Gatherv (const void *sb, int sn, MPI_Datatype st, void *rb, const int *rn, const int *d, MPI_Datatype rt, int root,
                 MPI_Comm h)
{
  static const int zero = 0;
  return gather_impl ("MPI_Gatherv", false, root, sb, sn, st, rb, rn ? rn : &zero, d, 0, rt, h);
}
int MPI_Alltoall (const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm h)
{
  Comm *c = C (h, "MPI_Alltoall");
  int m = me (c), s, P = (int) c->members.size ();
  size_t b = bytes (sn, st, "MPI_Alltoall");
  Coll *k = enter (c, m, "MPI_Alltoall", 0, nullptr, b, true, &s);
  k->a[m].data.assign ((const char *) sb, (const char *) sb + b * P);
  wait_all (k, "MPI_Alltoall");
  for (int i = 0; i < P; i++)
    memcpy ((char *) rb + (size_t) i * rn * tsize (rt), k->a[i].data.data () + b * m, b);
  leave (c, k, m, s);
  return MPI_SUCCESS;
}
int MPI_Reduce_scatter_block (const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm) { vfail ("unsupported collective"); }

/* communicators */
static int
split_impl (Comm *c, const char *fn, int color, int key, MPI_Comm *out)
{
  int m = me (c), s;
  Coll *k = enter (c, m, fn, 0, nullptr, 0, false, &s);
  k->a[m].counts = { color, key };
  wait_all (k, fn);
  if (!k->computed) {
    k->computed = true;
    std::map<int, std::vector<std::pair<int, int>>> g;
    for (size_t i = 0; i < k->a.size (); i++)
      if (k->a[i].counts[0] != MPI_UNDEFINED)
        g[k->a[i].counts[0]].push_back ({ k->a[i].counts[1], (int) i });
    for (auto &x : g) {
      std::stable_sort (x.second.begin (), x.second.end (), [] (auto &p, auto &q) { return p.first < q.first; });
      std::vector<int> mem;
      for (auto &y : x.second)
        mem.push_back (c->members[y.second]);
      k->result[x.first] = new_comm (mem);
    }
  }
  *out = color == MPI_UNDEFINED ? MPI_COMM_NULL : (MPI_Comm) k->result[color];
  leave (c, k, m, s);
  return MPI_SUCCESS;
}
int MPI_Comm_split (MPI_Comm h, int color, int key, MPI_Comm *out)
{
  return split_impl (C (h, "MPI_Comm_split"), "MPI_Comm_split", color, key, out);
}
int MPI_Comm_split_type (MPI_Comm h, int, int key, MPI_Info, MPI_Comm *out)
{
  int ppn = cfg.ppn;
  int node = ppn > 0 && cur ? cur->rank / ppn : 0;
  return split_impl (C (h, "MPI_Comm_split_type"), "MPI_Comm_split_type", node, key, out);
}
int MPI_Comm_dup (MPI_Comm h, MPI_Comm *out)
{
  Comm *c = C (h, "MPI_Comm_dup");
  int m = me (c);
  split_impl (c, "MPI_Comm_dup", 0, m, out);
  Comm *n = (Comm *) *out;
  for (auto &kv : c->attrs[m]) {
    Keyval &k = keyvals[kv.first];
    int flag = 0;
    void *v = nullptr;
    if (k.copy == MPI_COMM_DUP_FN) {
      flag = 1;
      v = kv.second;
    }
    else if (k.copy)
      k.copy (h, kv.first, k.extra, kv.second, &v, &flag);
    if (flag)
      n->attrs[m][kv.first] = v;
  }
  return MPI_SUCCESS;
}
int MPI_Comm_free (MPI_Comm *h)
{
  Comm *c = C (*h, "MPI_Comm_free");
  if (c->predefined)
    vfail ("MPI_Comm_free on a predefined communicator");
  int m = me (c);
  while (!c->attrs[m].empty ())
    del_attr (c, *h, m, c->attrs[m].begin ()->first);
  c->freed[m] = true;
  if (++c->nfreed == (int) c->members.size ())
    n_live_comms--;
  *h = MPI_COMM_NULL;
  return MPI_SUCCESS;
}
int MPI_Comm_create_keyval (MPI_Comm_copy_attr_function *cp, MPI_Comm_delete_attr_function *dl, int *kv, void *ex)
{
  *kv = next_keyval++;
  keyvals[*kv] = Keyval { cp, dl == MPI_COMM_NULL_DELETE_FN ? nullptr : dl, ex };
  return MPI_SUCCESS;
}
int MPI_Comm_free_keyval (int *kv) { *kv = MPI_KEYVAL_INVALID; return MPI_SUCCESS; }
int MPI_Comm_set_attr (MPI_Comm h, int kv, void *v)
{
  Comm *c = C (h, "MPI_Comm_set_attr");
  int m = me (c);
  del_attr (c, h, m, kv);
  c->attrs[m][kv] = v;
  return MPI_SUCCESS;
}
int MPI_Comm_get_attr (MPI_Comm h, int kv, void *v, int *flag)
{
  Comm *c = C (h, "MPI_Comm_get_attr");
  int m = me (c);
  auto it = c->attrs[m].find (kv);
  *flag = it != c->attrs[m].end ();
  if (*flag)
    *(void **) v = it->second;
  return MPI_SUCCESS;
}
int MPI_Comm_delete_attr (MPI_Comm h, int kv)
{
  Comm *c = C (h, "MPI_Comm_delete_attr");
  del_attr (c, h, me (c), kv);
  return MPI_SUCCESS;
}
int OMPI_C_MPI_COMM_DUP_FN (MPI_Comm, int, void *, void *in, void *out, int *flag)
{
  *flag = 1;
  *(void **) out = in;
  return MPI_SUCCESS;
}
int OMPI_C_MPI_COMM_NULL_DELETE_FN (MPI_Comm, int, void *, void *) { return MPI_SUCCESS; }
int OMPI_C_MPI_COMM_NULL_COPY_FN (MPI_Comm, int, void *, void *, void *, int *flag) { *flag = 0; return MPI_SUCCESS; }
int MPI_Comm_group (MPI_Comm h, MPI_Group *g)
{
  Group *x = new Group;
  x->m = C (h, "MPI_Comm_group")->members;
  *g = (MPI_Group) x;
  return MPI_SUCCESS;
}
int MPI_Group_free (MPI_Group *g) { delete (Group *) *g; *g = MPI_GROUP_NULL; return MPI_SUCCESS; }
int MPI_Group_size (MPI_Group g, int *s) { *s = (int) ((Group *) g)->m.size (); return MPI_SUCCESS; }
int MPI_Group_translate_ranks (MPI_Group a, int n, const int *r, MPI_Group b, int *out)
{
  for (int i = 0; i < n; i++) {
    int w = ((Group *) a)->m.at (r[i]);
    auto &q = ((Group *) b)->m;
    auto it = std::find (q.begin (), q.end (), w);
    out[i] = it == q.end () ? MPI_UNDEFINED : (int) (it - q.begin ());
  }
  return MPI_SUCCESS;
}
int MPI_Group_incl (MPI_Group a, int n, const int *r, MPI_Group *out)
{
  Group *x = new Group;
  for (int i = 0; i < n; i++)
    x->m.push_back (((Group *) a)->m.at (r[i]));
  *out = (MPI_Group) x;
  return MPI_SUCCESS;
}
int MPI_Group_union (MPI_Group, MPI_Group, MPI_Group *) { vfail ("unsupported group operation"); }
int MPI_Comm_create (MPI_Comm, MPI_Group, MPI_Comm *) { vfail ("unsupported MPI_Comm_create"); }

/* types and operations */
int MPI_Type_contiguous (int n, MPI_Datatype t, MPI_Datatype *out)
{
  Type *x = new Type;
  x->size = n * tsize (t);
  types.insert (x);
  *out = (MPI_Datatype) x;
  return MPI_SUCCESS;
}
int MPI_Type_commit (MPI_Datatype *) { return MPI_SUCCESS; }
int MPI_Type_free (MPI_Datatype *t)
{
  types.erase ((Type *) *t);
  delete (Type *) *t;
  return MPI_SUCCESS;
}
int MPI_Op_create (MPI_User_function *fn, int, MPI_Op *op)
{
  /* the handles of the same function on different ranks denote the same operation */
  static std::map<MPI_User_function *, UOp *> all;
  UOp *&u = all[fn];
  if (!u) {
    u = new UOp;
    u->fn = fn;
  }
  *op = (MPI_Op) u;
  return MPI_SUCCESS;
}
int MPI_Op_free (MPI_Op *op) { *op = MPI_OP_NULL; return MPI_SUCCESS; }

/* shared-memory windows */
int MPI_Alloc_mem (MPI_Aint n, MPI_Info, void *p) { *(void **) p = malloc (n ? n : 1); return MPI_SUCCESS; }
int MPI_Free_mem (void *p) { free (p); return MPI_SUCCESS; }
int MPI_Win_allocate_shared (MPI_Aint n, int, MPI_Info, MPI_Comm h, void *base, MPI_Win *win)
{
  Comm *c = C (h, "MPI_Win_allocate_shared");
  int m = me (c), s;
  Coll *k = enter (c, m, "MPI_Win_allocate_shared", 0, nullptr, 0, false, &s);
  k->a[m].counts = { (int) (n & 0x7fffffff), (int) (n >> 31) };
  wait_all (k, "MPI_Win_allocate_shared");
  if (!k->computed) {
    k->computed = true;
    Win *w = new Win;
    w->comm = c;
    size_t tot = 0;
    std::vector<size_t> off;
    for (auto &a : k->a) {
      size_t z = (size_t) a.counts[0] | ((size_t) a.counts[1] << 31);
      off.push_back (tot);
      w->sz.push_back (z);
      tot += (z + 63) & ~(size_t) 63;
    }
    w->block = (char *) malloc (tot + 64);
    memset (w->block, 0xA5, tot + 64);
    for (size_t o : off)
      w->mem.push_back (w->block + o);
    k->result[0] = w;
    n_live_wins++;
  }
  Win *w = (Win *) k->result[0];
  *win = (MPI_Win) w;
  *(void **) base = w->mem[m];
  leave (c, k, m, s);
  return MPI_SUCCESS;
}
int MPI_Win_shared_query (MPI_Win win, int r, MPI_Aint *size, int *disp, void *base)
{
  Win *w = (Win *) win;
  if (r == MPI_PROC_NULL)
    r = 0;
  *size = w->sz[r];
  *disp = 1;
  *(void **) base = w->mem[r];
  return MPI_SUCCESS;
}
int MPI_Win_fence (int, MPI_Win win) { 
  Win *w = (Win *) win;
  Comm *c = w->comm;
  int m = me (c), s;
  Coll *k = enter (c, m, "MPI_Win_fence", 0, win, 0, false, &s);
  wait_all (k, "MPI_Win_fence");
  leave (c, k, m, s);
  return MPI_SUCCESS;
}
int MPI_Win_lock (int, int, int, MPI_Win) { return MPI_SUCCESS; }
int MPI_Win_unlock (int, MPI_Win) { return MPI_SUCCESS; }
int MPI_Win_free (MPI_Win *win)
{
  Win *w = (Win *) *win;
  Comm *c = w->comm;
  int m = me (c), s;
  Coll *k = enter (c, m, "MPI_Win_free", 0, w, 0, false, &s);
  wait_all (k, "MPI_Win_free");
  leave (c, k, m, s);
  if (++w->nfreed == (int) w->mem.size ()) {
    free (w->block);
    delete w;
    n_live_wins--;
  }
  *win = MPI_WIN_NULL;
  return MPI_SUCCESS;
}
int MPI_Win_create (void *, MPI_Aint, int, MPI_Info, MPI_Comm, MPI_Win *) { vfail ("unsupported window"); }
int MPI_Accumulate (const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win) { vfail ("unsupported MPI_Accumulate"); }

/* files are not used by the code under test */
int MPI_File_open (MPI_Comm, const char *, int, MPI_Info, MPI_File *) { vfail ("unsupported MPI_File_open"); }
int MPI_File_close (MPI_File *) { vfail ("unsupported MPI_File"); }
int MPI_File_read (MPI_File, void *, int, MPI_Datatype, MPI_Status *) { vfail ("unsupported MPI_File"); }
int MPI_File_write (MPI_File, const void *, int, MPI_Datatype, MPI_Status *) { vfail ("unsupported MPI_File"); }
int MPI_File_seek (MPI_File, MPI_Offset, int) { vfail ("unsupported MPI_File"); }
int MPI_File_get_position (MPI_File, MPI_Offset *) { vfail ("unsupported MPI_File"); }
int MPI_Error_class (int e, int *c) { *c = e; return MPI_SUCCESS; }
int MPI_Error_string (int e, char *s, int *n) { *n = sprintf (s, "error %d", e); return MPI_SUCCESS; }
}
