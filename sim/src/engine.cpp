#include "engine.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <new>
#include <set>
#include <sstream>

namespace sim
{
// ================================================================ randomness
u64 mix64(u64 x)
{
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
void Rng::reseed(u64 seed)
{
  s[0] = mix64(seed);
  s[1] = mix64(seed ^ 0x1234567890abcdefULL);
  if (!s[0] && !s[1]) {s[0] = 1;}
}
u64 Rng::next()
{
  u64 a = s[0], b = s[1];
  s[0] = b;
  a ^= a << 23;
  s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
  return s[1] + b;
}
u64 hash_str(const std::string & str)
{
  u64 h = 1469598103934665603ULL;
  for (unsigned char c : str) {h = (h ^ c) * 1099511628211ULL;}
  return mix64(h);
}

const char * kind_name(int k)
{
  static const char * n[] = {"?", "sched", "pick", "new", "malloc", "alloc", "pub", "stall", "sys", "short",
    "net", "qerr", "spur", "harn"};
  return k > 0 && k < K_KINDS ? n[k] : "?";
}
static int kind_from(const std::string & s)
{
  for (int i = 1; i < K_KINDS; ++i) {if (s == kind_name(i)) {return i;}}
  return 0;
}
u64 dec_key(int task, int op, int kind, u32 nth)
{
  return (static_cast<u64>(task & 255) << 56) | (static_cast<u64>(op & 65535) << 40) |
         (static_cast<u64>(kind & 255) << 32) | nth;
}

std::string Plan::text() const
{
  std::ostringstream o;
  o << "world " << world << "\nprop " << prop << "\nseed " << seed << "\n";
  for (auto & p : params) {o << "param " << p.first << " " << p.second << "\n";}
  for (auto & op : ops) {
    o << "op " << op.id << " " << op.task << " " << op.code;
    for (auto x : op.a) {o << " " << x;}
    o << "\n";
  }
  for (auto & d : dec) {
    o << "dec " << (d.first >> 56) << " " << ((d.first >> 40) & 65535) << " " << kind_name((d.first >> 32) & 255) <<
      " " << (d.first & 0xffffffffULL) << " " << d.second << "\n";
  }
  return o.str();
}
bool Plan::parse(const std::string & text, Plan & out, std::string * ec, u64 * eh)
{
  std::istringstream in(text);
  std::string line;
  bool any = false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') {continue;}
    std::istringstream l(line);
    std::string w;
    l >> w;
    if (w == "world") {l >> out.world; any = true;}
    else if (w == "prop") {l >> out.prop;}
    else if (w == "seed") {l >> out.seed;}
    else if (w == "param") {std::string k; i64 v; l >> k >> v; out.params[k] = v;}
    else if (w == "op") {
      Op op;
      l >> op.id >> op.task >> op.code;
      i64 v;
      while (l >> v) {op.a.push_back(v);}
      out.ops.push_back(op);
    } else if (w == "dec") {
      int t, o;
      std::string k;
      u32 n;
      i64 v;
      l >> t >> o >> k >> n >> v;
      out.dec[dec_key(t, o, kind_from(k), n)] = v;
    } else if (w == "expect") {std::string c; l >> c; if (ec) {*ec = c;}}
    else if (w == "hash") {u64 h; l >> std::hex >> h; if (eh) {*eh = h;}}
  }
  out.replay = true;
  return any;
}

// ================================================================ globals
Shared * shared = nullptr;
Plan * plan = nullptr;
Rng rng_gen(1);
static Rng rng_dec(1), rng_sched(1);
bool trace_on = false;
SchedCfg sched_cfg;
FaultCfg fault_cfg;
__thread int in_sut = 0;
__thread int no_fault = 0;
std::function<void(const char *, const char *)> fs_observer;
int (* fs_errno_pool)(Rng &, const char *) = nullptr;
std::function<void(const char *, const char *, int)> fs_fault_hook;

static const int MAXT = 48;
static const int MAXH = 36;       // tasks of the harness; the rest are threads of the code under test
struct Held {const void * obj; bool write;};
struct Task
{
  int id = 0;
  std::string name;
  std::function<void()> fn;
  int go = 0;
  enum St {RUN, BLOCK, DONE, DEAD} st = RUN;
  std::function<bool()> pred;
  u64 until = 0;           // deadline for BLOCK (0 = none)
  const char * what = "";
  const void * lock_wait = nullptr;
  int op = 0;
  u32 ypts = 0;
  u32 cnt[K_KINDS];
  u32 faults = 0;
  i64 next_sched = -1;     // replay: next preemption point of this op
  int next_sched_target = 0, next_sched_stall = 0;
  int prio = 0;
  u32 vc[MAXT];
  std::vector<Held> held;
  u64 last_ret_pc = 0;
  u64 tp = 0;              // thread pointer
  // threads started by the code under test
  bool by_sut = false, reaped = false;
  int parent = -1;
  pthread_t th = 0;
  void * ret = nullptr;
  // counters of operations this task left: an operation entered again continues them,
  // so that every decision of a run has its own key
  struct Left {u32 ypts; u32 cnt[K_KINDS];};
  std::map<int, Left> left;
};
static Task * tasks[MAXT];
static int n_tasks = 0;           // slots in use (between n_harn and MAXH: placeholders)
static int n_harn = 0;
static Task * cur = nullptr;
static __thread Task * me_tls = nullptr;
static bool active = false;
static u64 g_now = 0, g_seq = 0, g_steps = 0;
static i64 access_countdown = 0;
static std::vector<u64> pct_points;
static size_t pct_next = 0;
static u64 h1 = 0, h_sync = 0;

void ev(u64 a, u64 b, u64 c)
{
  h1 = mix64(h1 ^ mix64(a + 0x51) ^ (mix64(b + 0x7777) << 1) ^ (mix64(c + 0x123456) << 2));
}
void ev_str(const std::string & s) {ev(hash_str(s));}
static void printable(char * s)
{
  for (; *s; ++s) {if ((*s < ' ' && *s != '\n' && *s != '\t') || *s == 127) {*s = '?';}}
}
void trace(const char * fmt, ...)
{
  if (!trace_on) {return;}
  char buf[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  printable(buf);
  printf("%8llu t=%-9llu task%d(%s)/op%d  %s\n", static_cast<unsigned long long>(g_steps),
    static_cast<unsigned long long>(g_now), cur ? cur->id : -1, cur ? cur->name.c_str() : "-",
    cur ? cur->op : -1, buf);
  fflush(stdout);
}

void count(const char * name, u64 n)
{
  if (!shared) {return;}
  for (u32 i = 0; i < shared->ncounters; ++i) {
    if (!strncmp(shared->counters[i].name, name, 55)) {shared->counters[i].n += n; return;}
  }
  if (shared->ncounters < 400) {
    Counter & c = shared->counters[shared->ncounters++];
    strncpy(c.name, name, 55);
    c.n = n;
  }
}

static void store_run_stats()
{
  shared->hash = h1;
  shared->sync_hash = h_sync;
  shared->steps = g_steps;
  shared->vtime = g_now;
}
void violation(const char * cls, const char * fmt, ...)
{
  in_sut = 0;
  char buf[3800];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  printable(buf);
  if (shared->status == 0) {
    shared->status = 2;
    strncpy(shared->cls, cls, sizeof(shared->cls) - 1);
    snprintf(shared->msg, sizeof(shared->msg), "%s [task %d %s, op %d, t=%llu]", buf,
      cur ? cur->id : -1, cur ? cur->name.c_str() : "-", cur ? cur->op : -1,
      static_cast<unsigned long long>(g_now));
    ev_str(cls);
    store_run_stats();
  }
  if (trace_on) {printf("VIOLATION %s: %s\n", cls, shared->msg); fflush(stdout);}
  _exit(66);
}
void internal_error(const char * fmt, ...)
{
  char buf[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  violation("internal", "%s", buf);
}
void finish_ok()
{
  in_sut = 0;
  store_run_stats();
  shared->status = 1;
  _exit(0);
}

// ================================================================ decisions
static void log_dec(u64 key, i64 v)
{
  if (shared->nlog < (1 << 16)) {
    shared->log[shared->nlog].key = key;
    shared->log[shared->nlog].val = v;
    shared->nlog++;
  } else {
    shared->log_overflow = 1;
  }
}
i64 decide_at(int task, int op, Kind k, u32 nth, i64 dflt, const std::function<i64(Rng &)> & gen)
{
  u64 key = dec_key(task, op, k, nth);
  i64 v = dflt;
  if (plan->replay) {
    auto it = plan->dec.find(key);
    if (it != plan->dec.end()) {v = it->second;}
  } else {
    v = gen(rng_dec);
  }
  if (v != dflt) {log_dec(key, v);}
  if (v != dflt) {ev(key, static_cast<u64>(v));}
  return v;
}
i64 decide(Kind k, i64 dflt, const std::function<i64(Rng &)> & gen)
{
  return decide_at(cur->id, cur->op, k, cur->cnt[k]++, dflt, gen);
}
void note_fault(const char * name) {if (cur) {cur->faults++;} shared->run_faults++; count((std::string("fault.") + name).c_str());}
u64 faults_fired_in_op() {return cur ? cur->faults : 0;}

// ================================================================ scheduler
static long futex(int * addr, int op, int val) {HarnessScope h; return syscall(SYS_futex, addr, op, val, nullptr, nullptr, 0);}
static void park(Task * t)
{
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) {futex(&t->go, FUTEX_WAIT_PRIVATE, 0);}
  __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
}
static void unpark(Task * t)
{
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  futex(&t->go, FUTEX_WAKE_PRIVATE, 1);
}
static bool is_ready(Task * t)
{
  if (t->st == Task::RUN) {return true;}
  if (t->st != Task::BLOCK) {return false;}
  if (t->until && g_now >= t->until) {return true;}
  return t->pred && t->pred();
}
static void refresh_sched_cursor(Task * t)
{
  t->next_sched = -1;
  if (!plan->replay) {return;}
  auto it = plan->dec.lower_bound(dec_key(t->id, t->op, K_SCHED, t->ypts));
  if (it != plan->dec.end() && (it->first >> 32) == (dec_key(t->id, t->op, K_SCHED, 0) >> 32)) {
    t->next_sched = static_cast<i64>(it->first & 0xffffffffULL);
    t->next_sched_target = static_cast<int>(it->second % 1000) - 1;
    t->next_sched_stall = static_cast<int>(it->second / 1000);
  }
}
static void switch_to(Task * t)
{
  Task * me = cur;
  if (t == me) {return;}
  cur = t;
  shared->switches++;
  ev(0x5c4ed, static_cast<u64>(t->id), static_cast<u64>(me->op) << 32 | me->ypts);
  unpark(t);
  park(me);
}
static Task * choose(std::vector<Task *> & c, bool blocking)
{
  // called with >= 1 candidates, in task id order
  Task * me = cur;
  if (blocking) {
    Task * dflt = c[0];
    u64 key = dec_key(me->id, me->op, K_PICK, me->cnt[K_PICK]++);
    Task * pick = dflt;
    if (plan->replay) {
      auto it = plan->dec.find(key);
      if (it != plan->dec.end()) {
        for (Task * t : c) {if (t->id == it->second - 1) {pick = t;}}
      }
    } else if (c.size() > 1) {
      if (sched_cfg.pct_depth > 0) {
        for (Task * t : c) {if (t->prio > pick->prio) {pick = t;}}
      } else {
        pick = c[rng_sched.below(c.size())];
      }
    }
    if (pick != dflt) {log_dec(key, pick->id + 1);}
    return pick;
  }
  return nullptr;
}
static void describe_blocked(char * buf, size_t n)
{
  std::string s;
  for (int i = 0; i < n_tasks; ++i) {
    Task * t = tasks[i];
    if (t->st == Task::DONE || t->st == Task::DEAD) {continue;}
    s += " task" + std::to_string(i) + "(" + t->name + ",op" + std::to_string(t->op) + ") waits for " + t->what + ";";
  }
  snprintf(buf, n, "%s", s.c_str());
}
/// The running task cannot continue (or is finished): run somebody else, advancing time if needed.
static void run_others()
{
  HarnessScope h;
  Task * me = cur;
  for (;; ) {
    std::vector<Task *> c;
    for (int i = 0; i < n_tasks; ++i) {if (is_ready(tasks[i])) {c.push_back(tasks[i]);}}
    if (!c.empty()) {
      Task * t = choose(c, true);
      if (t->st == Task::BLOCK) {t->st = Task::RUN;}
      if (t == me) {return;}
      switch_to(t);
      return;
    }
    u64 nxt = 0;
    for (int i = 0; i < n_tasks; ++i) {
      Task * t = tasks[i];
      if (t->st == Task::BLOCK && t->until && (!nxt || t->until < nxt)) {nxt = t->until;}
    }
    if (!nxt) {
      char b[3000];
      describe_blocked(b, sizeof(b));
      violation("deadlock", "no task can run:%s", b);
    }
    g_now = nxt;
    if (++g_steps > sched_cfg.max_steps) {violation("livelock", "step limit reached");}
  }
}
/// The running task is preempted, and perhaps does not get the processor back for a long time.
static void preempt_to(Task * t, u32 n, bool sut, int stall)
{
  Task * me = cur;
  log_dec(dec_key(me->id, me->op, K_SCHED, n), t->id + 1 + 1000 * stall);
  shared->run_preempt += sut;
  if (t->st == Task::BLOCK) {t->st = Task::RUN;}
  if (!stall) {
    switch_to(t);
    return;
  }
  static const u64 for_ns[] = {0, 1000000, 5000000000ULL, 60000000000ULL, 86400000000000ULL};
  note_fault("thread_stalled");
  me->until = g_now + for_ns[stall % 5];
  me->what = "the processor";
  me->st = Task::BLOCK;
  switch_to(t);
  me->st = Task::RUN;
  me->until = 0;
  me->what = "";
}
static int draw_stall() {return sched_cfg.p_stall > 0 && rng_sched.chance(sched_cfg.p_stall) ? 1 + static_cast<int>(rng_sched.below(4)) : 0;}
static i64 geometric(Rng & r, double p)
{
  if (p <= 0) {return INT64_MAX / 2;}
  double u = ((r.next() >> 11) + 1) * (1.0 / 9007199254740994.0);
  double g = __builtin_log(u) / __builtin_log1p(-p);
  if (g > 1e12) {g = 1e12;}
  return static_cast<i64>(g) + 1;
}
static void yield_point(bool sync)
{
  const bool sut = in_sut;
  Task * me = cur;
  g_steps++;
  u32 n = me->ypts++;
  if (g_steps > sched_cfg.max_steps) {violation("livelock", "step limit reached: an operation does not terminate");}
  if (n_tasks < 2) {return;}
  if (plan->replay) {
    if (me->next_sched == static_cast<i64>(n)) {
      int target = me->next_sched_target, stall = me->next_sched_stall;
      refresh_sched_cursor(me);
      HarnessScope h;
      if (target >= 0 && target < n_tasks && target != me->id && is_ready(tasks[target])) {
        preempt_to(tasks[target], n, sut, stall);
      }
    }
    return;
  }
  if (sched_cfg.pct_depth > 0) {
    bool change = pct_next < pct_points.size() && g_steps >= pct_points[pct_next];
    if (change) {me->prio = -static_cast<int>(++pct_next);}
    if (!change && !sync) {return;}
    HarnessScope h;
    Task * best = me;
    for (int i = 0; i < n_tasks; ++i) {
      if (tasks[i] != me && tasks[i]->prio > best->prio && is_ready(tasks[i])) {best = tasks[i];}
    }
    if (best != me) {
      preempt_to(best, n, sut, draw_stall());
    }
    return;
  }
  bool fire;
  if (sync) {
    fire = rng_sched.chance(sched_cfg.p_sync);
  } else {
    fire = --access_countdown <= 0;
    if (fire) {access_countdown = geometric(rng_sched, sched_cfg.p_access);}
  }
  if (!fire) {return;}
  HarnessScope h;
  std::vector<Task *> c;
  for (int i = 0; i < n_tasks; ++i) {if (tasks[i] != me && is_ready(tasks[i])) {c.push_back(tasks[i]);}}
  if (c.empty()) {return;}
  Task * t = c[rng_sched.below(c.size())];
  preempt_to(t, n, sut, draw_stall());
}
static void block(const std::function<bool()> & pred, u64 until, const char * what)
{
  Task * me = cur;
  me->pred = pred;
  me->until = until;
  me->what = what;
  me->st = Task::BLOCK;
  run_others();
  me->st = Task::RUN;
  me->pred = nullptr;
  me->until = 0;
  me->what = "";
}

void draw_sched(Rng & r)
{
  sched_cfg = SchedCfg();
  u64 x = r.below(100);
  if (x < 20) {            // preempt only at synchronisation operations
    sched_cfg.p_access = 0;
    sched_cfg.p_sync = 0.1 + 0.15 * r.below(5);
  } else if (x < 55) {     // uniform random preemption
    static const double m[] = {1.0 / 15, 1.0 / 60, 1.0 / 200, 1.0 / 800, 1.0 / 3000};
    sched_cfg.p_access = m[r.below(5)];
    sched_cfg.p_sync = 0.1 * r.below(5);
  } else if (x < 95) {     // PCT
    sched_cfg.pct_depth = 1 + static_cast<int>(r.below(6));
    static const u64 l[] = {300, 1000, 3000, 10000, 40000};
    sched_cfg.pct_len = l[r.below(5)];
  } else {                 // run to completion: operations are serial
    sched_cfg.p_access = 0;
    sched_cfg.p_sync = 0;
  }
}

static void * thread_main(void * p)
{
  Task * t = static_cast<Task *>(p);
  me_tls = t;
  t->tp = reinterpret_cast<u64>(__builtin_thread_pointer());
  park(t);
  t->fn();
  in_sut = 0;
  t->st = Task::DONE;
  t->what = "";
  // hand over and never come back
  for (;; ) {
    run_others();
    pause();
  }
  return nullptr;
}

static int (* real_pthread_create)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *);

static std::vector<Task *> * sut_threads;   // every thread the code under test started
static int spawn_task(const std::string & name, std::function<void()> fn, bool by_sut)
{
  int slot = n_harn;
  if (by_sut) {
    for (; n_tasks < MAXH; ++n_tasks) {
      if (n_tasks < n_harn) {continue;}
      Task * none = new Task;
      none->id = n_tasks;
      none->st = Task::DONE;
      memset(none->cnt, 0, sizeof(none->cnt));
      memset(none->vc, 0, sizeof(none->vc));
      tasks[n_tasks] = none;
    }
    // finished threads of the code under test give their place to new ones
    slot = n_tasks;
    for (int i = MAXH; i < n_tasks; ++i) {
      if (tasks[i]->reaped && tasks[i]->st == Task::DONE) {slot = i; break;}
    }
    if (slot >= MAXT || sut_threads->size() > 3000) {return -1;}
  } else if (slot >= MAXH) {
    internal_error("too many tasks");
  }
  Task * t = new Task;
  t->id = slot;
  t->name = name;
  t->fn = std::move(fn);
  memset(t->cnt, 0, sizeof(t->cnt));
  memcpy(t->vc, cur->vc, sizeof(t->vc));   // happens-before edge from the spawner
  t->vc[t->id] = 1;
  if (by_sut && slot < n_tasks) {
    // continue the clock and the decision counters of the previous occupant
    Task * o = tasks[slot];
    t->vc[slot] = o->vc[slot] + 1;
    t->left = o->left;
    Task::Left & l = t->left[o->op];
    l.ypts = o->ypts;
    memcpy(l.cnt, o->cnt, sizeof(l.cnt));
  }
  t->by_sut = by_sut;
  if (by_sut) {
    t->parent = cur->id;
    t->op = cur->op;
    auto it = t->left.find(t->op);
    if (it != t->left.end()) {
      t->ypts = it->second.ypts;
      memcpy(t->cnt, it->second.cnt, sizeof(t->cnt));
    }
    sut_threads->push_back(t);
  }
  cur->vc[cur->id]++;
  t->prio = 1 + static_cast<int>(rng_sched.below(1000));
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 256 * 1024);
  pthread_t th;
  if (real_pthread_create(&th, &at, thread_main, t) != 0) {internal_error("pthread_create failed");}
  t->th = th;
  tasks[slot] = t;
  if (slot == n_tasks) {n_tasks++;}
  if (!by_sut) {n_harn++;}
  refresh_sched_cursor(t);
  return t->id;
}
int spawn(const std::string & name, std::function<void()> fn) {return spawn_task(name, std::move(fn), false);}
/// The harness task on whose behalf the running task works (a thread of the code under test: its starter).
int self()
{
  Task * t = cur;
  while (t && t->by_sut) {t = tasks[t->parent];}
  return t ? t->id : 0;
}
int ntasks() {return n_harn;}
bool task_done(int id) {return tasks[id]->st == Task::DONE || tasks[id]->st == Task::DEAD;}
bool task_dead(int id) {return tasks[id]->st == Task::DEAD;}
void join(int id)
{
  wait_until([id] {return task_done(id);}, "join");
  if (tasks[id]->st == Task::DONE) {
    for (int i = 0; i < MAXT; ++i) {cur->vc[i] = std::max(cur->vc[i], tasks[id]->vc[i]);}
  }
}
void kill_task(int id)
{
  if (tasks[id] == cur) {internal_error("task kills itself");}
  if (tasks[id]->st != Task::DONE) {tasks[id]->st = Task::DEAD;}
  // so do the threads it started
  for (int i = 0; i < n_tasks; ++i) {
    Task * t = tasks[i];
    if (t->by_sut && t->parent == id && t != cur && t->st != Task::DONE && t->st != Task::DEAD) {kill_task(i);}
  }
}
void set_op(int op)
{
  HarnessScope h;
  if (op != cur->op) {
    Task::Left & l = cur->left[cur->op];
    l.ypts = cur->ypts;
    memcpy(l.cnt, cur->cnt, sizeof(l.cnt));
    cur->op = op;
    auto it = cur->left.find(op);
    if (it != cur->left.end()) {
      cur->ypts = it->second.ypts;
      memcpy(cur->cnt, it->second.cnt, sizeof(cur->cnt));
    } else {
      cur->ypts = 0;
      memset(cur->cnt, 0, sizeof(cur->cnt));
    }
  }
  cur->faults = 0;
  refresh_sched_cursor(cur);
}
int cur_op() {return cur->op;}
u64 now() {return g_now;}
u64 seq() {return ++g_seq;}
void sleep_ns(u64 ns)
{
  HarnessScope h;
  u64 t = g_now + (ns ? ns : 1);
  block(nullptr, t, "sleep");
}
void wait_until(const std::function<bool()> & pred, const char * what)
{
  HarnessScope h;
  if (pred()) {yield_point(true); if (pred()) {return;}}
  while (!pred()) {block(pred, 0, what);}
}
bool wait_until_for(const std::function<bool()> & pred, u64 ns, const char * what)
{
  HarnessScope h;
  u64 t = g_now + (ns ? ns : 1);
  while (!pred()) {
    if (g_now >= t) {return false;}
    block(pred, t, what);
  }
  return true;
}
void yield() {HarnessScope h; yield_point(true);}
int locks_held() {return static_cast<int>(cur->held.size());}
std::string locks_desc()
{
  std::string s;
  for (auto & h : cur->held) {
    char b[32];
    snprintf(b, sizeof(b), "%p ", h.obj);
    s += b;
  }
  return s;
}
bool blocked_on_lock(int id) {return tasks[id]->st == Task::BLOCK && tasks[id]->lock_wait;}

// ================================================================ arena
static const u64 ARENA = 1ULL << 40;
static const u64 ARENA_SIZE = 512ULL << 20;
static u64 arena_limit = 96ULL << 20;   // what an ordinary run may use; crowds have all of it
static unsigned char * a_state = nullptr;   // one byte per 8-byte granule: addressable prefix, 0 none, 0xfd freed
static u32 * a_cell = nullptr;              // race shadow index per granule
static u64 a_pos = 0;
static u64 a_live = 0;
static std::vector<u64> * a_blocks = nullptr;   // start of every block ever allocated, ascending
struct Hdr {u32 magic; u32 size; u32 id; u32 sut;};
static u32 a_id = 0;
static bool a_reuse = false;                // released addresses are given out again
static std::unordered_map<u64, std::vector<u64>> * a_free = nullptr;   // by granules: released blocks, last one first
struct Entry {unsigned char tid1, mask, wr, pad; u32 clk;};
struct Cell {Entry e[6];};
static Cell * cells = nullptr;
static u32 ncells = 0;
static const u32 MAXCELLS = 2u << 20;
static std::unordered_map<u64, u32> * glob_cells = nullptr;
extern "C" char __data_start[], _end[];

bool in_arena(const void * p) {u64 a = reinterpret_cast<u64>(p); return a >= ARENA && a < ARENA + ARENA_SIZE;}

void * arena_alloc(size_t n, bool zero, size_t align)
{
  if (align < 16) {align = 16;}
  if (a_reuse && align == 16) {
    HarnessScope hs;
    auto it = a_free->find((n + 7) / 8);
    if (it != a_free->end() && !it->second.empty()) {
      u64 b = it->second.back();
      it->second.pop_back();
      Hdr * h = reinterpret_cast<Hdr *>(b - sizeof(Hdr));
      h->magic = 0xA110CA7E;
      h->size = static_cast<u32>(n);
      h->id = ++a_id;
      u64 g = (b - ARENA) / 8;
      for (u64 i = 0; i < (n + 7) / 8; ++i) {
        a_state[g + i] = 8;
        if (a_cell[g + i]) {memset(&cells[a_cell[g + i]], 0, sizeof(Cell));}
      }
      if (n % 8) {a_state[g + n / 8] = static_cast<unsigned char>(n % 8);}
      memset(reinterpret_cast<void *>(b), zero ? 0 : 0xBE, n);
      a_live++;
      return reinterpret_cast<void *>(b);
    }
  }
  u64 start = (a_pos + sizeof(Hdr) + align - 1) & ~static_cast<u64>(align - 1);
  u64 endp = start + ((n + 7) & ~7ULL) + 16;
  if (n > (32u << 20) || endp + 64 > arena_limit) {
    violation("memory-explosion", "the code under test asked for %zu bytes (arena %llu used)", n,
      static_cast<unsigned long long>(a_pos));
  }
  a_pos = endp;
  Hdr * h = reinterpret_cast<Hdr *>(ARENA + start - sizeof(Hdr));
  h->magic = 0xA110CA7E;
  h->size = static_cast<u32>(n);
  h->id = ++a_id;
  h->sut = in_sut ? 1 : 0;
  u64 g = start / 8;
  for (u64 i = 0; i < n / 8; ++i) {a_state[g + i] = 8;}
  if (n % 8) {a_state[g + n / 8] = static_cast<unsigned char>(n % 8);}
  void * p = reinterpret_cast<void *>(ARENA + start);
  memset(p, zero ? 0 : 0xBE, n);
  a_live++;
  {
    HarnessScope hs;
    a_blocks->push_back(ARENA + start);
  }
  return p;
}
static void race_access(u64 a, size_t n, bool write, void * pc);
void arena_free(void * p, const char * how)
{
  Hdr * h = reinterpret_cast<Hdr *>(reinterpret_cast<u64>(p) - sizeof(Hdr));
  if (h->magic == 0xDEADF7EE) {violation("double-free", "%s of an already released block of %u bytes", how, h->size);}
  if (h->magic != 0xA110CA7E) {violation("bad-free", "%s of a pointer that was never allocated", how);}
  if (active && in_sut) {race_access(reinterpret_cast<u64>(p), h->size, true, __builtin_return_address(0));}
  h->magic = 0xDEADF7EE;
  u64 g = (reinterpret_cast<u64>(p) - ARENA) / 8;
  for (u64 i = 0; i < (h->size + 7u) / 8; ++i) {a_state[g + i] = 0xfd;}
  memset(p, 0xDD, h->size);
  a_live--;
  if (a_reuse) {
    HarnessScope hs;
    (*a_free)[(h->size + 7u) / 8].push_back(reinterpret_cast<u64>(p));
  }
}
static int add_roots(struct dl_phdr_info * i, size_t, void * v)
{
  auto & roots = *static_cast<std::vector<std::pair<u64, u64>> *>(v);
  for (int k = 0; k < i->dlpi_phnum; ++k) {
    const auto & p = i->dlpi_phdr[k];
    if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {roots.push_back({i->dlpi_addr + p.p_vaddr, i->dlpi_addr + p.p_vaddr + p.p_memsz});}
    if (p.p_type == PT_TLS && i->dlpi_addr == 0) {
      // thread-local storage of the executable lies right below each thread's pointer
      u64 sz = (p.p_memsz + p.p_align - 1) / p.p_align * p.p_align;
      for (int t = 0; t < n_tasks; ++t) {if (tasks[t]->tp) {roots.push_back({tasks[t]->tp - sz, tasks[t]->tp});}}
    }
  }
  return 0;
}
/// Blocks of the code under test which are neither released nor reachable from storage that lives
/// as long as the program (globals, function-level statics, thread-locals).
u64 live_blocks()
{
  if (!a_live) {return 0;}
  HarnessScope h;
  std::vector<std::pair<u64, u64>> todo;   // address ranges to scan
  dl_iterate_phdr(add_roots, &todo);
  std::vector<u64> live;
  for (u64 b : *a_blocks) {if (reinterpret_cast<Hdr *>(b - sizeof(Hdr))->magic == 0xA110CA7E) {live.push_back(b);}}
  std::vector<bool> seen(live.size());
  u64 left = live.size();
  while (!todo.empty()) {
    auto r = todo.back();
    todo.pop_back();
    for (u64 a = (r.first + 7) & ~7ULL; a + 8 <= r.second; a += 8) {
      u64 v = *reinterpret_cast<u64 *>(a);
      if (v < ARENA || v >= ARENA + ARENA_SIZE) {continue;}
      auto it = std::upper_bound(live.begin(), live.end(), v);
      if (it == live.begin()) {continue;}
      size_t k = static_cast<size_t>(it - live.begin()) - 1;
      u64 sz = reinterpret_cast<Hdr *>(live[k] - sizeof(Hdr))->size;
      if (seen[k] || v >= live[k] + std::max<u64>(sz, 1)) {continue;}
      seen[k] = true;
      --left;
      todo.push_back({live[k], live[k] + sz});
    }
  }
  if (left) {
    for (size_t k = 0; k < live.size(); ++k) {
      if (!seen[k]) {trace("leaked block: %u bytes, number %u", reinterpret_cast<Hdr *>(live[k] - sizeof(Hdr))->size, reinterpret_cast<Hdr *>(live[k] - sizeof(Hdr))->id);}
    }
  }
  return left;
}

static void report_bad_access(u64 a, size_t n, bool write, void * pc)
{
  u64 g = (a - ARENA) / 8;
  violation(a_state[g] == 0xfd ? "use-after-free" : "out-of-bounds",
    "%s of %zu bytes at a %s address, pc=%p", write ? "write" : "read", n,
    a_state[g] == 0xfd ? "released" : "not allocated", pc);
}
static void arena_check(u64 a, size_t n, bool write, void * pc)
{
  u64 e = a + n;
  for (u64 x = a; x < e; ) {
    u64 g = (x - ARENA) / 8;
    u64 gend = (x & ~7ULL) + 8;
    u64 upto = e < gend ? e : gend;
    unsigned char s = a_state[g];
    if (s > 8 || (upto - (x & ~7ULL)) > s) {report_bad_access(x, n, write, pc);}
    x = upto;
  }
}
static void race_granule(u64 g8, unsigned char mask, bool write, void * pc, u32 & idx)
{
  if (!idx) {
    if (ncells + 1 >= MAXCELLS) {return;}
    idx = ++ncells;
  }
  Cell & c = cells[idx];
  Task * me = cur;
  int slot = -1, freeslot = -1;
  for (int i = 0; i < 6; ++i) {
    Entry & e = c.e[i];
    if (!e.tid1) {if (freeslot < 0) {freeslot = i;} continue;}
    int t = e.tid1 - 1;
    if (t == me->id) {
      if (e.wr == write && (e.mask & ~mask) == 0) {slot = i;}
      continue;
    }
    if ((e.mask & mask) && (write || e.wr) && e.clk > me->vc[t]) {
      violation("data-race", "%s at %s%llx not ordered with a %s by task %d (%s), pc=%p",
        write ? "write" : "read", g8 * 8 >= ARENA ? "heap+" : "static ",
        static_cast<unsigned long long>(g8 * 8 >= ARENA ? g8 * 8 - ARENA : g8 * 8),
        e.wr ? "write" : "read", t, tasks[t]->name.c_str(), pc);
    }
    if (e.clk <= me->vc[t] && (e.mask & ~mask) == 0 && (write || !e.wr)) {e.tid1 = 0; if (freeslot < 0) {freeslot = i;}}
  }
  if (slot < 0) {slot = freeslot;}
  if (slot < 0) {slot = static_cast<int>(g_steps % 6);}
  Entry & e = c.e[slot];
  e.tid1 = static_cast<unsigned char>(me->id + 1);
  e.mask = mask;
  e.wr = write;
  e.clk = me->vc[me->id];
}
static void race_access(u64 a, size_t n, bool write, void * pc)
{
  bool ar = a >= ARENA && a < ARENA + ARENA_SIZE;
  u64 e = a + n;
  while (a < e) {
    u64 g = a / 8;
    u64 gend = g * 8 + 8;
    u64 upto = e < gend ? e : gend;
    unsigned char mask = static_cast<unsigned char>(((1u << (upto - a)) - 1) << (a & 7));
    if (ar) {
      race_granule(g, mask, write, pc, a_cell[g - ARENA / 8]);
    } else {
      HarnessScope hs;   // the table is the simulator's
      race_granule(g, mask, write, pc, (*glob_cells)[g]);
    }
    a = upto;
  }
}
static inline void access(const void * p, size_t n, bool write, void * pc)
{
  u64 a = reinterpret_cast<u64>(p);
  yield_point(false);
  if (a >= ARENA && a < ARENA + ARENA_SIZE) {
    arena_check(a, n, write, pc);
    race_access(a, n, write, pc);
  } else if (a >= reinterpret_cast<u64>(__data_start) && a < reinterpret_cast<u64>(_end)) {
    race_access(a, n, write, pc);
  } else if (a < 4096) {
    violation("crash", "%s through a null pointer, pc=%p", write ? "write" : "read", pc);
  }
}
void check_range(const void * p, size_t n, bool write, void * pc)
{
  if (n) {access(p, n, write, pc);}
}

// ================================================================ happens-before
struct SyncVar {u32 vc[MAXT];};
static std::unordered_map<const void *, SyncVar> * syncs;
static SyncVar & sync_of(const void * o)
{
  HarnessScope h;
  auto it = syncs->find(o);
  if (it == syncs->end()) {
    SyncVar s;
    memset(&s, 0, sizeof(s));
    it = syncs->emplace(o, s).first;
  }
  return it->second;
}
static void acquire_vc(const u32 * vc) {for (int i = 0; i < MAXT; ++i) {if (vc[i] > cur->vc[i]) {cur->vc[i] = vc[i];}}}
void hb_release(const void * o)
{
  SyncVar & s = sync_of(o);
  for (int i = 0; i < MAXT; ++i) {s.vc[i] = std::max(s.vc[i], cur->vc[i]);}
  cur->vc[cur->id]++;
}
void hb_acquire(const void * o) {acquire_vc(sync_of(o).vc);}

// ================================================================ simulated locks
struct MutexSt {Task * owner = nullptr; int depth = 0; SyncVar v; MutexSt() {memset(&v, 0, sizeof(v));}};
struct RwSt {Task * w = nullptr; std::multiset<int> r; SyncVar v; RwSt() {memset(&v, 0, sizeof(v));}};
struct CondSt {std::vector<std::pair<Task *, bool *>> waiters;};
static std::unordered_map<const void *, MutexSt> * mutexes;
static std::unordered_map<const void *, RwSt> * rwlocks;
static std::unordered_map<const void *, CondSt> * conds;
struct OnceSt {int st = 0; SyncVar v; OnceSt() {memset(&v, 0, sizeof(v));}};
static std::unordered_map<const void *, OnceSt> * onces;

static void sync_note(int what)
{
  h_sync = mix64(h_sync ^ (static_cast<u64>(cur->id) << 40) ^ (static_cast<u64>(cur->op) << 8) ^ static_cast<u64>(what));
}
static void drop_held(const void * o)
{
  for (size_t i = cur->held.size(); i-- > 0; ) {
    if (cur->held[i].obj == o) {cur->held.erase(cur->held.begin() + i); return;}
  }
}
static int sim_mutex_lock(pthread_mutex_t * m, bool try_only, bool timed, u64 until)
{
  HarnessScope h;
  yield_point(true);
  int kind = m->__data.__kind & 3;
  for (;; ) {
    MutexSt & s = (*mutexes)[m];
    if (!s.owner) {
      s.owner = cur;
      s.depth = 1;
      acquire_vc(s.v.vc);
      cur->held.push_back({m, true});
      sync_note(1);
      return 0;
    }
    if (s.owner == cur) {
      if (kind == PTHREAD_MUTEX_RECURSIVE_NP) {s.depth++; return 0;}
      if (try_only) {return EBUSY;}
      if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) {return EDEADLK;}
    }
    if (try_only) {return EBUSY;}
    count("probe.lock_contended");
    MutexSt * sp = &s;
    cur->lock_wait = m;
    block([sp] {return sp->owner == nullptr;}, timed ? until : 0,
      sp->owner == cur ? "a mutex it already holds" : "a mutex");
    cur->lock_wait = nullptr;
    if (timed && g_now >= until && (*mutexes)[m].owner) {return ETIMEDOUT;}
  }
}
static int sim_mutex_unlock(pthread_mutex_t * m)
{
  HarnessScope h;
  MutexSt & s = (*mutexes)[m];
  if (s.owner != cur) {violation("unlock-not-owner", "a mutex is unlocked by a task that does not hold it");}
  if (--s.depth > 0) {return 0;}
  s.owner = nullptr;
  memcpy(s.v.vc, cur->vc, sizeof(cur->vc));
  cur->vc[cur->id]++;
  drop_held(m);
  yield_point(true);
  return 0;
}
static int sim_cond_wait(pthread_cond_t * c, pthread_mutex_t * m, bool timed, u64 until)
{
  HarnessScope h;
  bool signaled = false;
  bool * flag = &signaled;
  (*conds)[c].waiters.push_back({cur, flag});
  i64 spur = decide(K_SPUR, 0, [](Rng & r) {return r.chance(0.03) ? 1 : 0;});
  sim_mutex_unlock(m);
  if (!spur) {
    block([flag] {return *flag;}, timed ? until : 0, "a condition variable");
  } else {
    note_fault("spurious_wakeup");
    yield_point(true);
  }
  auto & w = (*conds)[c].waiters;
  for (size_t i = 0; i < w.size(); ++i) {if (w[i].second == flag) {w.erase(w.begin() + i); break;}}
  bool to = timed && !signaled && !spur;
  sim_mutex_lock(m, false, false, 0);
  return to ? ETIMEDOUT : 0;
}
static int sim_cond_signal(pthread_cond_t * c, bool all)
{
  HarnessScope h;
  auto & w = (*conds)[c].waiters;
  for (auto & x : w) {
    if (!*x.second) {*x.second = true; if (!all) {break;}}
  }
  yield_point(true);
  return 0;
}
static int sim_rd_lock(pthread_rwlock_t * l, bool try_only)
{
  HarnessScope h;
  yield_point(true);
  for (;; ) {
    RwSt & s = (*rwlocks)[l];
    if (!s.w) {
      s.r.insert(cur->id);
      acquire_vc(s.v.vc);
      cur->held.push_back({l, false});
      sync_note(2);
      return 0;
    }
    if (try_only) {return EBUSY;}
    RwSt * sp = &s;
    cur->lock_wait = l;
    block([sp] {return sp->w == nullptr;}, 0, "a shared lock");
    cur->lock_wait = nullptr;
  }
}
static int sim_wr_lock(pthread_rwlock_t * l, bool try_only)
{
  HarnessScope h;
  yield_point(true);
  for (;; ) {
    RwSt & s = (*rwlocks)[l];
    if (!s.w && s.r.empty()) {
      s.w = cur;
      acquire_vc(s.v.vc);
      cur->held.push_back({l, true});
      sync_note(3);
      return 0;
    }
    if (try_only) {return EBUSY;}
    RwSt * sp = &s;
    cur->lock_wait = l;
    block([sp] {return sp->w == nullptr && sp->r.empty();}, 0, "an exclusive lock");
    cur->lock_wait = nullptr;
  }
}
static int sim_rw_unlock(pthread_rwlock_t * l)
{
  HarnessScope h;
  RwSt & s = (*rwlocks)[l];
  for (int i = 0; i < MAXT; ++i) {s.v.vc[i] = std::max(s.v.vc[i], cur->vc[i]);}
  cur->vc[cur->id]++;
  if (s.w == cur) {
    s.w = nullptr;
  } else {
    auto it = s.r.find(cur->id);
    if (it == s.r.end()) {violation("unlock-not-owner", "a shared lock is released by a task that does not hold it");}
    s.r.erase(it);
  }
  drop_held(l);
  yield_point(true);
  return 0;
}

// Futexes: std::future, std::atomic::wait and the like wait through syscall()
struct FutexWaiter {const int * addr; bool woken;};
static std::vector<FutexWaiter *> * futex_waiters;
// ================================================================ init
static void on_crash(int sig, siginfo_t *, void *)
{
  const char * n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" :
    sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : sig == SIGPROF || sig == SIGALRM ? "timeout" : "signal";
  bool hang = sig == SIGPROF || sig == SIGALRM;
  bool s = in_sut;
  in_sut = 0;
  if (!s && !hang) {
    // The harness does not do that by itself: what it was given cannot be used
    violation("crash", "%s while the harness handled what the code under test returned or left in memory", n);
  }
  violation(hang ? "hang" : "crash", "%s in the code under test", n);
}

static void * altstack_mem = nullptr;
void engine_init_process()
{
  void * r = mmap(reinterpret_cast<void *>(ARENA), ARENA_SIZE, PROT_READ | PROT_WRITE,
      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (r != reinterpret_cast<void *>(ARENA)) {fprintf(stderr, "arena mmap failed\n"); exit(2);}
  a_state = static_cast<unsigned char *>(mmap(nullptr, ARENA_SIZE / 8, PROT_READ | PROT_WRITE,
    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  a_cell = static_cast<u32 *>(mmap(nullptr, ARENA_SIZE / 2, PROT_READ | PROT_WRITE,
    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  cells = static_cast<Cell *>(mmap(nullptr, sizeof(Cell) * (MAXCELLS + 2), PROT_READ | PROT_WRITE,
    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  shared = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
    MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  altstack_mem = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  real_pthread_create = reinterpret_cast<decltype(real_pthread_create)>(dlsym(RTLD_NEXT, "pthread_create"));
  a_blocks = new std::vector<u64>;
  a_free = new std::unordered_map<u64, std::vector<u64>>;
  a_blocks->reserve(4096);
  glob_cells = new std::unordered_map<u64, u32>;
  syncs = new std::unordered_map<const void *, SyncVar>;
  mutexes = new std::unordered_map<const void *, MutexSt>;
  rwlocks = new std::unordered_map<const void *, RwSt>;
  conds = new std::unordered_map<const void *, CondSt>;
  onces = new std::unordered_map<const void *, OnceSt>;
  sut_threads = new std::vector<Task *>;
  futex_waiters = new std::vector<FutexWaiter *>;
}
void engine_begin_run(Plan * p)
{
  plan = p;
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_sigaction = on_crash;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  stack_t ss;
  ss.ss_sp = altstack_mem;
  ss.ss_size = 65536;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF, SIGALRM}) {sigaction(s, &sa, nullptr);}
  struct itimerval it;
  memset(&it, 0, sizeof(it));
  it.it_value.tv_sec = 40;
  setitimer(ITIMER_PROF, &it, nullptr);
  alarm(150);
  sched_cfg.max_steps += 2000000 + 200 * static_cast<u64>(p->ops.size()) * p->ops.size();
  if (p->params.count("mid")) {sched_cfg.max_steps += 16000000;}
  a_reuse = p->param("reuse") != 0;
  sched_cfg.p_stall = static_cast<double>(p->param("slow")) / 1000;
  if (p->params.count("crowd")) {
    // runs of millions of steps: more of them allowed, more memory, and preemptions further apart
    sched_cfg.max_steps = 400000000;
    arena_limit = ARENA_SIZE;
    sched_cfg.p_access = std::min(sched_cfg.p_access, 0.001);
    sched_cfg.p_sync = std::min(sched_cfg.p_sync, 0.02);
  }
  rng_dec.reseed(p->seed ^ 0xdec1);
  rng_sched.reseed(p->seed ^ 0x5ced);
  Task * t = new Task;
  t->id = 0;
  t->name = "main";
  t->tp = reinterpret_cast<u64>(__builtin_thread_pointer());
  memset(t->cnt, 0, sizeof(t->cnt));
  memset(t->vc, 0, sizeof(t->vc));
  t->vc[0] = 1;
  t->prio = 1000000;  // the driver only waits; it must not starve under PCT
  tasks[0] = t;
  n_tasks = n_harn = 1;
  cur = t;
  me_tls = t;
  access_countdown = geometric(rng_sched, sched_cfg.p_access);
  if (sched_cfg.pct_depth > 0) {
    for (int i = 1; i < sched_cfg.pct_depth; ++i) {pct_points.push_back(1 + rng_sched.below(sched_cfg.pct_len));}
    std::sort(pct_points.begin(), pct_points.end());
  }
  h1 = 0x1357;
  h_sync = 0x2468;
  active = true;
}
}  // namespace sim

using namespace sim;

// ================================================================ interposed C library and runtime entry points
#define REAL(ret, name, ...) \
  static ret (* real_ ## name)(__VA_ARGS__) = nullptr; \
  if (__builtin_expect(!real_ ## name, 0)) { \
    real_ ## name = reinterpret_cast<ret (*)(__VA_ARGS__)>(dlsym(RTLD_NEXT, #name)); \
  }
#define SIMULATED (__builtin_expect(in_sut && active, 0))

extern "C" {
int pthread_mutex_lock(pthread_mutex_t * m) noexcept
{
  if (SIMULATED) {return sim_mutex_lock(m, false, false, 0);}
  REAL(int, pthread_mutex_lock, pthread_mutex_t *)
  return real_pthread_mutex_lock(m);
}
int pthread_mutex_trylock(pthread_mutex_t * m) noexcept
{
  if (SIMULATED) {return sim_mutex_lock(m, true, false, 0);}
  REAL(int, pthread_mutex_trylock, pthread_mutex_t *)
  return real_pthread_mutex_trylock(m);
}
static u64 ts_to_ns(const struct timespec * t) {return static_cast<u64>(t->tv_sec) * 1000000000ULL + static_cast<u64>(t->tv_nsec);}
int pthread_mutex_timedlock(pthread_mutex_t * m, const struct timespec * t) noexcept
{
  if (SIMULATED) {return sim_mutex_lock(m, false, true, ts_to_ns(t));}
  REAL(int, pthread_mutex_timedlock, pthread_mutex_t *, const struct timespec *)
  return real_pthread_mutex_timedlock(m, t);
}
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t c, const struct timespec * t) noexcept
{
  if (SIMULATED) {return sim_mutex_lock(m, false, true, ts_to_ns(t));}
  REAL(int, pthread_mutex_clocklock, pthread_mutex_t *, clockid_t, const struct timespec *)
  return real_pthread_mutex_clocklock(m, c, t);
}
int pthread_mutex_unlock(pthread_mutex_t * m) noexcept
{
  if (SIMULATED) {return sim_mutex_unlock(m);}
  REAL(int, pthread_mutex_unlock, pthread_mutex_t *)
  return real_pthread_mutex_unlock(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t * l) noexcept
{
  if (SIMULATED) {return sim_rd_lock(l, false);}
  REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *)
  return real_pthread_rwlock_rdlock(l);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t * l) noexcept
{
  if (SIMULATED) {return sim_rd_lock(l, true);}
  REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t *)
  return real_pthread_rwlock_tryrdlock(l);
}
int pthread_rwlock_wrlock(pthread_rwlock_t * l) noexcept
{
  if (SIMULATED) {return sim_wr_lock(l, false);}
  REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *)
  return real_pthread_rwlock_wrlock(l);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t * l) noexcept
{
  if (SIMULATED) {return sim_wr_lock(l, true);}
  REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t *)
  return real_pthread_rwlock_trywrlock(l);
}
int pthread_rwlock_unlock(pthread_rwlock_t * l) noexcept
{
  if (SIMULATED) {return sim_rw_unlock(l);}
  REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *)
  return real_pthread_rwlock_unlock(l);
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
  if (SIMULATED) {return sim_cond_wait(c, m, false, 0);}
  REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *)
  return real_pthread_cond_wait(c, m);
}
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t)
{
  if (SIMULATED) {return sim_cond_wait(c, m, true, ts_to_ns(t));}
  REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const struct timespec *)
  return real_pthread_cond_timedwait(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * t)
{
  if (SIMULATED) {return sim_cond_wait(c, m, true, ts_to_ns(t));}
  REAL(int, pthread_cond_clockwait, pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)
  return real_pthread_cond_clockwait(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t * c) noexcept
{
  if (SIMULATED) {return sim_cond_signal(c, false);}
  REAL(int, pthread_cond_signal, pthread_cond_t *)
  return real_pthread_cond_signal(c);
}
int pthread_cond_broadcast(pthread_cond_t * c) noexcept
{
  if (SIMULATED) {return sim_cond_signal(c, true);}
  REAL(int, pthread_cond_broadcast, pthread_cond_t *)
  return real_pthread_cond_broadcast(c);
}
int pthread_once(pthread_once_t * o, void (* fn)(void))
{
  if (SIMULATED) {
    OnceSt * s;
    {
      HarnessScope h;
      s = &(*onces)[o];
      yield_point(true);
      if (s->st == 0 && *reinterpret_cast<int *>(o) == 2) {s->st = 2;}  // ran before the simulation
      while (s->st == 1) {block([s] {return s->st != 1;}, 0, "call_once");}
      if (s->st == 2) {acquire_vc(s->v.vc); return 0;}
      s->st = 1;
    }
    try {
      fn();
    } catch (...) {
      s->st = 0;
      throw;
    }
    s->st = 2;
    memcpy(s->v.vc, cur->vc, sizeof(cur->vc));
    cur->vc[cur->id]++;
    return 0;
  }
  REAL(int, pthread_once, pthread_once_t *, void (*)(void))
  return real_pthread_once(o, fn);
}
int pthread_create(pthread_t * t, const pthread_attr_t * a, void * (*f)(void *), void * arg) noexcept
{
  if (SIMULATED) {
    // a thread the code under test starts becomes a task of the simulation
    {
      HarnessScope h;
      count("probe.thread_started_by_the_code");
      Task ** slot = new Task *(nullptr);
      int id = spawn_task("thread", [slot, f, arg] {
            in_sut = 1;
            void * r = f(arg);
            in_sut = 0;
            (*slot)->ret = r;
          }, true);
      if (id < 0) {return EAGAIN;}
      *slot = tasks[id];
      *t = tasks[id]->th;
      int detached = PTHREAD_CREATE_JOINABLE;
      if (a) {pthread_attr_getdetachstate(a, &detached);}
      tasks[id]->reaped = detached == PTHREAD_CREATE_DETACHED;
      trace("starts thread task%d", id);
      sync_note(5);
    }
    yield_point(true);
    return 0;
  }
  REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void * (*)(void *), void *)
  return real_pthread_create(t, a, f, arg);
}
static Task * sut_thread(pthread_t th)
{
  for (Task * t : *sut_threads) {if (t->th == th) {return t;}}
  return nullptr;
}
int pthread_join(pthread_t th, void ** ret)
{
  if (SIMULATED) {
    HarnessScope h;
    Task * t = sut_thread(th);
    if (!t || t->reaped) {violation("bad-join", "a thread is joined that is not joinable");}
    if (t == cur) {return EDEADLK;}
    yield_point(true);
    if (t->st != Task::DONE) {block([t] {return t->st == Task::DONE;}, 0, "a thread to join");}
    acquire_vc(t->vc);
    t->reaped = true;
    if (ret) {*ret = t->ret;}
    return 0;
  }
  REAL(int, pthread_join, pthread_t, void **)
  return real_pthread_join(th, ret);
}
int pthread_detach(pthread_t th) noexcept
{
  if (SIMULATED) {
    HarnessScope h;
    Task * t = sut_thread(th);
    if (!t || t->reaped) {violation("bad-join", "a thread is detached that is not joinable");}
    t->reaped = true;
    return 0;
  }
  REAL(int, pthread_detach, pthread_t)
  return real_pthread_detach(th);
}
static long sim_futex(int * addr, int op, u64 val, const struct timespec * ts)
{
  HarnessScope h;
  int cmd = op & 127;
  yield_point(true);
  if (cmd == 0 || cmd == 9) {   // FUTEX_WAIT, FUTEX_WAIT_BITSET (absolute time)
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != static_cast<int>(val)) {errno = EAGAIN; return -1;}
    u64 until = 0;
    if (ts) {
      until = static_cast<u64>(ts->tv_sec) * 1000000000ULL + static_cast<u64>(ts->tv_nsec) + (cmd == 0 ? g_now : 0);
      if (until <= g_now) {errno = ETIMEDOUT; return -1;}
    }
    FutexWaiter w{addr, false};
    futex_waiters->push_back(&w);
    FutexWaiter * p = &w;
    block([p] {return p->woken;}, until, "a futex");
    futex_waiters->erase(std::find(futex_waiters->begin(), futex_waiters->end(), p));
    if (!w.woken) {errno = ETIMEDOUT; return -1;}
    return 0;
  }
  if (cmd == 1 || cmd == 10) {   // FUTEX_WAKE, FUTEX_WAKE_BITSET
    long n = 0;
    for (FutexWaiter * w : *futex_waiters) {
      if (w->addr == addr && !w->woken && n < static_cast<long>(static_cast<int>(val))) {w->woken = true; ++n;}
    }
    return n;
  }
  errno = ENOSYS;
  return -1;
}
long syscall(long n, ...) noexcept
{
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (int i = 0; i < 6; ++i) {a[i] = va_arg(ap, long);}
  va_end(ap);
  if (SIMULATED && n == SYS_futex) {
    return sim_futex(reinterpret_cast<int *>(a[0]), static_cast<int>(a[1]), static_cast<u64>(a[2]),
             reinterpret_cast<const struct timespec *>(a[3]));
  }
  typedef long (* fn_t)(long, ...);
  static fn_t real = nullptr;
  if (__builtin_expect(!real, 0)) {real = reinterpret_cast<fn_t>(dlsym(RTLD_NEXT, "syscall"));}
  return real(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}

// ---- function-local statics
int __cxa_guard_acquire(u64 * g)
{
  unsigned char * b = reinterpret_cast<unsigned char *>(g);
  if (!SIMULATED) {return b[0] ? 0 : 1;}
  HarnessScope h;
  yield_point(true);
  while (b[1]) {block([b] {return b[1] == 0;}, 0, "a function-local static");}
  if (b[0]) {hb_acquire(g); return 0;}
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(u64 * g)
{
  unsigned char * b = reinterpret_cast<unsigned char *>(g);
  if (SIMULATED) {hb_release(g);}
  b[1] = 0;
  b[0] = 1;
}
void __cxa_guard_abort(u64 * g) {reinterpret_cast<unsigned char *>(g)[1] = 0;}

// ---- time
int clock_gettime(clockid_t c, struct timespec * t) noexcept
{
  if (SIMULATED) {
    t->tv_sec = static_cast<time_t>(g_now / 1000000000ULL);
    t->tv_nsec = static_cast<long>(g_now % 1000000000ULL);
    return 0;
  }
  REAL(int, clock_gettime, clockid_t, struct timespec *)
  return real_clock_gettime(c, t);
}
int nanosleep(const struct timespec * t, struct timespec * rem)
{
  if (SIMULATED) {sleep_ns(ts_to_ns(t)); return 0;}
  REAL(int, nanosleep, const struct timespec *, struct timespec *)
  return real_nanosleep(t, rem);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec * t, struct timespec * rem)
{
  if (SIMULATED) {
    u64 n = ts_to_ns(t);
    if (flags) {n = n > g_now ? n - g_now : 0;}
    sleep_ns(n);
    return 0;
  }
  REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *)
  return real_clock_nanosleep(c, flags, t, rem);
}
int usleep(useconds_t u)
{
  if (SIMULATED) {sleep_ns(static_cast<u64>(u) * 1000); return 0;}
  REAL(int, usleep, useconds_t)
  return real_usleep(u);
}
int sched_yield(void) noexcept
{
  if (SIMULATED) {
    // a spinning task must let others run
    HarnessScope h;
    cur->st = Task::RUN;
    block(nullptr, g_now + 1, "sched_yield");
    return 0;
  }
  REAL(int, sched_yield, void)
  return real_sched_yield();
}

// ---- assertions
void __assert_fail(const char * e, const char * f, unsigned l, const char *) noexcept
{
  if (in_sut) {violation("assertion", "%s (%s:%u)", e, f, l);}
  violation("internal", "harness assertion %s (%s:%u)", e, f, l);
}

// ---- C heap of the code under test (its objects are linked with malloc etc. redirected here)
static bool fault_point(Kind k, double p, const char * name)
{
  if (no_fault || (p <= 0 && !plan->replay)) {return false;}
  i64 v;
  {
    HarnessScope h;
    v = decide(k, 0, [p](Rng & r) {return r.chance(p) ? 1 : 0;});
    if (v) {note_fault(name);}
  }
  return v != 0;
}
void * simw_malloc(size_t n)
{
  if (SIMULATED) {
    if (fault_point(K_MALLOC, fault_cfg.p_malloc, "malloc_failed")) {errno = ENOMEM; return nullptr;}
    return arena_alloc(n, false);
  }
  return malloc(n);
}
void * simw_calloc(size_t n, size_t s)
{
  if (SIMULATED) {
    size_t t;
    if (__builtin_mul_overflow(n, s, &t)) {errno = ENOMEM; return nullptr;}
    if (fault_point(K_MALLOC, fault_cfg.p_malloc, "malloc_failed")) {errno = ENOMEM; return nullptr;}
    return arena_alloc(t, true);
  }
  return calloc(n, s);
}
void simw_free(void * p)
{
  if (!p) {return;}
  if (in_arena(p)) {arena_free(p, "free"); return;}
  free(p);
}
void * simw_realloc(void * p, size_t n)
{
  if (!p) {return simw_malloc(n);}
  if (!in_arena(p)) {return realloc(p, n);}
  if (SIMULATED && fault_point(K_MALLOC, fault_cfg.p_malloc, "malloc_failed")) {errno = ENOMEM; return nullptr;}
  u32 old = reinterpret_cast<u32 *>(reinterpret_cast<char *>(p) - 16)[1];
  void * q = arena_alloc(n, false);
  memcpy(q, p, old < n ? old : n);
  arena_free(p, "realloc");
  return q;
}
char * simw_strdup(const char * s)
{
  size_t n = strlen(s) + 1;
  char * p = static_cast<char *>(simw_malloc(n));
  if (p) {memcpy(p, s, n);}
  return p;
}

// ---- memory functions called by the code under test
#define PC __builtin_return_address(0)
void * simw_memcpy(void * d, const void * s, size_t n)
{
  if (SIMULATED && n) {access(s, n, false, PC); access(d, n, true, PC);}
  return memcpy(d, s, n);
}
void * simw_memmove(void * d, const void * s, size_t n)
{
  if (SIMULATED && n) {access(s, n, false, PC); access(d, n, true, PC);}
  return memmove(d, s, n);
}
void * simw_memset(void * d, int c, size_t n)
{
  if (SIMULATED && n) {access(d, n, true, PC);}
  return memset(d, c, n);
}
int simw_memcmp(const void * a, const void * b, size_t n)
{
  if (SIMULATED && n) {access(a, n, false, PC); access(b, n, false, PC);}
  return memcmp(a, b, n);
}
const void * simw_memchr(const void * a, int c, size_t n)
{
  const void * r = memchr(a, c, n);
  if (SIMULATED && n) {
    size_t k = r ? static_cast<size_t>(static_cast<const char *>(r) - static_cast<const char *>(a)) + 1 : n;
    access(a, k, false, PC);
  }
  return r;
}
size_t simw_strlen(const char * s)
{
  if (SIMULATED && in_arena(s)) {
    size_t i = 0;
    for (;; ++i) {
      arena_check(reinterpret_cast<u64>(s + i), 1, false, PC);
      if (!s[i]) {break;}
    }
    access(s, i + 1, false, PC);
    return i;
  }
  return strlen(s);
}
size_t simw_strnlen(const char * s, size_t m)
{
  size_t n = strnlen(s, m);
  if (SIMULATED) {access(s, n < m ? n + 1 : n, false, PC);}
  return n;
}
int simw_strcmp(const char * a, const char * b)
{
  if (SIMULATED) {simw_strlen(a); simw_strlen(b);}
  return strcmp(a, b);
}
int simw_strncmp(const char * a, const char * b, size_t n)
{
  if (SIMULATED) {simw_strnlen(a, n); simw_strnlen(b, n);}
  return strncmp(a, b, n);
}
char * simw_strncpy(char * d, const char * s, size_t n)
{
  if (SIMULATED) {simw_strnlen(s, n); access(d, n, true, PC);}
  return strncpy(d, s, n);
}
char * simw_strcpy(char * d, const char * s)
{
  if (SIMULATED) {size_t n = simw_strlen(s); access(d, n + 1, true, PC);}
  return strcpy(d, s);
}
char * simw_strcat(char * d, const char * s)
{
  if (SIMULATED) {size_t m = simw_strlen(d), n = simw_strlen(s); access(d + m, n + 1, true, PC);}
  return strcat(d, s);
}
// std::map internals live in libstdc++ and are not instrumented: model their effect on the tree
void rb_insert(bool l, void * x, void * p, void * h) __asm__("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
void * rb_erase(void * z, void * h) __asm__("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
void simw_rb_insert(bool l, void * x, void * p, void * h)
{
  if (SIMULATED) {access(h, 32, true, PC); access(x, 32, true, PC); access(p, 32, true, PC);}
  rb_insert(l, x, p, h);
}
void * simw_rb_erase(void * z, void * h)
{
  if (SIMULATED) {access(h, 32, true, PC); access(z, 32, true, PC);}
  return rb_erase(z, h);
}
void * rb_inc(void * x) __asm__("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
void * rb_inc_c(const void * x) __asm__("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
void * simw_rb_inc(void * x) {if (SIMULATED) {access(x, 32, false, PC);} return rb_inc(x);}
void * simw_rb_inc_c(const void * x) {if (SIMULATED) {access(x, 32, false, PC);} return rb_inc_c(x);}

// ---- file system seam
static int fs_fault(const char * call, const char * path)
{
  HarnessScope h;
  yield_point(true);
  if (fs_observer) {fs_observer(call, path);}
  double p = fault_cfg.p_sys;
  if (p <= 0 && !plan->replay) {return 0;}
  // a failure may be there to stay: everything about this name, or every read, fails from then on
  static std::map<std::string, int> lasting;
  const bool lasts = plan->param("lasting") && p > 0;
  const std::string key = path ? path : call;
  auto known = lasting.find(key);
  int e = lasts && known != lasting.end() ? known->second : static_cast<int>(decide(K_SYS, 0, [p, call](Rng & r) -> i64 {
      if (!r.chance(p)) {return 0;}
      return fs_errno_pool ? fs_errno_pool(r, call) : EIO;
    }));
  if (e) {
    if (lasts && e != EINTR && e != EAGAIN) {lasting[key] = e;}
    note_fault((std::string("fs.") + call + "." + strerrorname_np(e)).c_str());
    if (fs_fault_hook) {fs_fault_hook(call, path, e);}
    trace("fault: %s(%s) fails with %s", call, path ? path : "", strerrorname_np(e));
  }
  return e;
}
#define FS_ON (SIMULATED && fault_cfg.fs_enabled)
/// Opening a pipe which nobody writes to never returns.
static void fs_block_check(const char * path, bool nonblock)
{
  HarnessScope h;
  struct stat st;
  REAL(int, stat, const char *, struct stat *)
  if (!nonblock && real_stat(path, &st) == 0 && S_ISFIFO(st.st_mode)) {
    violation("hang", "open(%s) blocks forever: it is a pipe without a writer", path);
  }
}
/// Time stamps are coarse, and a run takes less than they can tell apart: they are all the same.
static int coarse(int rc, struct stat * st)
{
  if (rc == 0 && FS_ON) {
    st->st_mtim.tv_sec = st->st_ctim.tv_sec = st->st_atim.tv_sec = 1790000000;
    st->st_mtim.tv_nsec = st->st_ctim.tv_nsec = st->st_atim.tv_nsec = 0;
  }
  return rc;
}
int stat(const char * p, struct stat * st) noexcept
{
  if (FS_ON) {int e = fs_fault("stat", p); if (e) {errno = e; return -1;}}
  REAL(int, stat, const char *, struct stat *)
  return coarse(real_stat(p, st), st);
}
int lstat(const char * p, struct stat * st) noexcept
{
  if (FS_ON) {int e = fs_fault("lstat", p); if (e) {errno = e; return -1;}}
  REAL(int, lstat, const char *, struct stat *)
  return coarse(real_lstat(p, st), st);
}
int fstat(int fd, struct stat * st) noexcept
{
  if (FS_ON) {int e = fs_fault("fstat", nullptr); if (e) {errno = e; return -1;}}
  REAL(int, fstat, int, struct stat *)
  return coarse(real_fstat(fd, st), st);
}
int access(const char * p, int m) noexcept
{
  if (FS_ON) {int e = fs_fault("access", p); if (e) {errno = e; return -1;}}
  REAL(int, access, const char *, int)
  return real_access(p, m);
}
int open(const char * p, int fl, ...)
{
  mode_t m = 0;
  if (fl & (O_CREAT | O_TMPFILE)) {va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap);}
  if (FS_ON) {int e = fs_fault("open", p); if (e) {errno = e; return -1;} fs_block_check(p, fl & O_NONBLOCK);}
  REAL(int, open, const char *, int, ...)
  return real_open(p, fl, m);
}
int openat(int d, const char * p, int fl, ...)
{
  mode_t m = 0;
  if (fl & (O_CREAT | O_TMPFILE)) {va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap);}
  if (FS_ON) {int e = fs_fault("openat", p); if (e) {errno = e; return -1;} if (d == AT_FDCWD) {fs_block_check(p, fl & O_NONBLOCK);}}
  REAL(int, openat, int, const char *, int, ...)
  return real_openat(d, p, fl, m);
}
/// A stream for reading whose every transfer goes through the seam below
static ssize_t cookie_read(void * c, char * buf, size_t n) {return read(static_cast<int>(reinterpret_cast<intptr_t>(c)), buf, n);}
static int cookie_seek(void * c, off64_t * o, int w)
{
  off64_t r = lseek64(static_cast<int>(reinterpret_cast<intptr_t>(c)), *o, w);
  if (r < 0) {return -1;}
  *o = r;
  return 0;
}
static int cookie_close(void * c) {return close(static_cast<int>(reinterpret_cast<intptr_t>(c)));}
static FILE * seam_fopen(const char * p, const char * mode)
{
  int fd = open(p, strchr(mode, '+') ? O_RDWR : O_RDONLY);
  if (fd < 0) {return nullptr;}
  cookie_io_functions_t io = {cookie_read, nullptr, cookie_seek, cookie_close};
  HarnessScope h;
  return fopencookie(reinterpret_cast<void *>(static_cast<intptr_t>(fd)), "r", io);
}
extern char __executable_start, etext;
/// A file stream of libstdc++ opens through fopen too but transfers with read() and the descriptor.
static FILE * any_fopen(FILE * (* real)(const char *, const char *), const char * p, const char * mode, void * pc)
{
  if (!FS_ON) {return real(p, mode);}
  if (mode[0] == 'r' && pc >= static_cast<void *>(&__executable_start) && pc < static_cast<void *>(&etext)) {return seam_fopen(p, mode);}
  int e = fs_fault("open", p);
  if (e) {errno = e; return nullptr;}
  fs_block_check(p, false);
  HarnessScope h;
  return real(p, mode);
}
FILE * fopen(const char * p, const char * mode)
{
  REAL(FILE *, fopen, const char *, const char *)
  return any_fopen(real_fopen, p, mode, PC);
}
FILE * fopen64(const char * p, const char * mode)
{
  REAL(FILE *, fopen64, const char *, const char *)
  return any_fopen(real_fopen64, p, mode, PC);
}
ssize_t read(int fd, void * buf, size_t n)
{
  REAL(ssize_t, read, int, void *, size_t)
  if (FS_ON) {
    int e = fs_fault("read", nullptr);
    if (e) {errno = e; return -1;}
    double p = fault_cfg.p_short;
    if (n > 1 && (p > 0 || plan->replay)) {
      HarnessScope h;
      i64 v = decide(K_SHORT, 0, [p](Rng & r) -> i64 {return r.chance(p) ? r.range(1, 24) : 0;});
      if (v > 0 && static_cast<size_t>(v) < n) {n = static_cast<size_t>(v); note_fault("fs.read.short");}
    }
  }
  return real_read(fd, buf, n);
}
ssize_t readlink(const char * p, char * buf, size_t n) noexcept
{
  if (FS_ON) {int e = fs_fault("readlink", p); if (e) {errno = e; return -1;}}
  REAL(ssize_t, readlink, const char *, char *, size_t)
  return real_readlink(p, buf, n);
}
}  // extern "C"

// ================================================================ C++ heap
static void * op_new(size_t n, size_t align, bool nothrow)
{
  if (SIMULATED) {
    if (fault_point(K_NEW, fault_cfg.p_new, "operator_new_failed")) {
      if (nothrow) {return nullptr;}
      throw std::bad_alloc();
    }
    return arena_alloc(n, false, align);
  }
  void * p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
  if (!p) {abort();}
  return p;
}
static void op_delete(void * p)
{
  if (!p) {return;}
  if (in_arena(p)) {arena_free(p, "delete"); return;}
  free(p);
}
void * operator new(size_t n) {return op_new(n, 16, false);}
void * operator new[](size_t n) {return op_new(n, 16, false);}
void * operator new(size_t n, const std::nothrow_t &) noexcept {return op_new(n, 16, true);}
void * operator new[](size_t n, const std::nothrow_t &) noexcept {return op_new(n, 16, true);}
void * operator new(size_t n, std::align_val_t a) {return op_new(n, static_cast<size_t>(a), false);}
void * operator new[](size_t n, std::align_val_t a) {return op_new(n, static_cast<size_t>(a), false);}
void operator delete(void * p) noexcept {op_delete(p);}
void operator delete[](void * p) noexcept {op_delete(p);}
void operator delete(void * p, size_t) noexcept {op_delete(p);}
void operator delete[](void * p, size_t) noexcept {op_delete(p);}
void operator delete(void * p, std::align_val_t) noexcept {op_delete(p);}
void operator delete[](void * p, std::align_val_t) noexcept {op_delete(p);}
void operator delete(void * p, size_t, std::align_val_t) noexcept {op_delete(p);}
void operator delete[](void * p, size_t, std::align_val_t) noexcept {op_delete(p);}
void operator delete(void * p, const std::nothrow_t &) noexcept {op_delete(p);}
void operator delete[](void * p, const std::nothrow_t &) noexcept {op_delete(p);}

// ================================================================ compiler instrumentation (our own runtime for -fsanitize=thread)
#define ACC(NAME, N, W) \
  void NAME(void * p) {if (SIMULATED) {access(p, N, W, PC);}}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
ACC(__tsan_read1, 1, false) ACC(__tsan_read2, 2, false) ACC(__tsan_read4, 4, false) ACC(__tsan_read8, 8, false)
ACC(__tsan_read16, 16, false)
ACC(__tsan_write1, 1, true) ACC(__tsan_write2, 2, true) ACC(__tsan_write4, 4, true) ACC(__tsan_write8, 8, true)
ACC(__tsan_write16, 16, true)
ACC(__tsan_unaligned_read2, 2, false) ACC(__tsan_unaligned_read4, 4, false) ACC(__tsan_unaligned_read8, 8, false)
ACC(__tsan_unaligned_read16, 16, false)
ACC(__tsan_unaligned_write2, 2, true) ACC(__tsan_unaligned_write4, 4, true) ACC(__tsan_unaligned_write8, 8, true)
ACC(__tsan_unaligned_write16, 16, true)
ACC(__tsan_volatile_read1, 1, false) ACC(__tsan_volatile_read2, 2, false) ACC(__tsan_volatile_read4, 4, false)
ACC(__tsan_volatile_read8, 8, false) ACC(__tsan_volatile_read16, 16, false)
ACC(__tsan_volatile_write1, 1, true) ACC(__tsan_volatile_write2, 2, true) ACC(__tsan_volatile_write4, 4, true)
ACC(__tsan_volatile_write8, 8, true) ACC(__tsan_volatile_write16, 16, true)
void __tsan_read_range(void * p, size_t n) {if (SIMULATED && n) {access(p, n, false, PC);}}
void __tsan_write_range(void * p, size_t n) {if (SIMULATED && n) {access(p, n, true, PC);}}
// always a step: an object on the stack finds whatever an earlier call left there
void __tsan_vptr_update(void ** p, void * v) {if (SIMULATED) {access(p, 8, *p != v, PC);}}
void __tsan_vptr_read(void ** p) {if (SIMULATED) {access(p, 8, false, PC);}}

enum {MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST};
static void at_pre(const volatile void * p, size_t n, bool wr)
{
  yield_point(true);
  if (in_arena(const_cast<const void *>(p))) {arena_check(reinterpret_cast<u64>(p), n, wr, PC);}
}
static void at_post(const volatile void * vp, int mo, bool rd, bool wr)
{
  const void * p = const_cast<const void *>(vp);
  HarnessScope h;
  if (rd && mo != MO_RELAXED && mo != MO_RELEASE) {hb_acquire(p);}
  if (wr && (mo == MO_RELEASE || mo == MO_ACQ_REL || mo == MO_SEQ_CST)) {hb_release(p);}
}
#define ATOMICS(BITS, T) \
  T __tsan_atomic ## BITS ## _load(const volatile T * p, int mo) { \
    if (!SIMULATED) {return __atomic_load_n(p, __ATOMIC_SEQ_CST);} \
    at_pre(p, sizeof(T), false); T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); at_post(p, mo, true, false); return v;} \
  void __tsan_atomic ## BITS ## _store(volatile T * p, T v, int mo) { \
    if (!SIMULATED) {__atomic_store_n(p, v, __ATOMIC_SEQ_CST); return;} \
    at_pre(p, sizeof(T), true); at_post(p, mo, false, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic ## BITS ## _exchange(volatile T * p, T v, int mo) { \
    if (!SIMULATED) {return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);} \
    at_pre(p, sizeof(T), true); at_post(p, mo, true, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic ## BITS ## _fetch_add(volatile T * p, T v, int mo) { \
    if (!SIMULATED) {return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);} \
    at_pre(p, sizeof(T), true); at_post(p, mo, true, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic ## BITS ## _fetch_sub(volatile T * p, T v, int mo) { \
    if (!SIMULATED) {return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);} \
    at_pre(p, sizeof(T), true); at_post(p, mo, true, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic ## BITS ## _fetch_and(volatile T * p, T v, int mo) { \
    if (!SIMULATED) {return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);} \
    at_pre(p, sizeof(T), true); at_post(p, mo, true, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic ## BITS ## _fetch_or(volatile T * p, T v, int mo) { \
    if (!SIMULATED) {return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);} \
    at_pre(p, sizeof(T), true); at_post(p, mo, true, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic ## BITS ## _fetch_xor(volatile T * p, T v, int mo) { \
    if (!SIMULATED) {return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);} \
    at_pre(p, sizeof(T), true); at_post(p, mo, true, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic ## BITS ## _fetch_nand(volatile T * p, T v, int mo) { \
    if (!SIMULATED) {return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);} \
    at_pre(p, sizeof(T), true); at_post(p, mo, true, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);} \
  int __tsan_atomic ## BITS ## _compare_exchange_strong(volatile T * p, T * e, T v, int mo, int) { \
    if (!SIMULATED) {return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);} \
    at_pre(p, sizeof(T), true); at_post(p, mo, true, true); \
    return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);} \
  int __tsan_atomic ## BITS ## _compare_exchange_weak(volatile T * p, T * e, T v, int mo, int f) { \
    return __tsan_atomic ## BITS ## _compare_exchange_strong(p, e, v, mo, f);} \
  T __tsan_atomic ## BITS ## _compare_exchange_val(volatile T * p, T e, T v, int mo, int f) { \
    __tsan_atomic ## BITS ## _compare_exchange_strong(p, &e, v, mo, f); return e;}
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
static char fence_obj;
void __tsan_atomic_thread_fence(int mo)
{
  if (SIMULATED) {
    yield_point(true);
    HarnessScope h;
    if (mo != MO_RELEASE) {hb_acquire(&fence_obj);}
    if (mo != MO_ACQUIRE) {hb_release(&fence_obj);}
  }
}
void __tsan_atomic_signal_fence(int) {}
}  // extern "C"
