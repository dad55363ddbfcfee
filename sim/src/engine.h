// Deterministic simulation engine: scheduler, virtual clock, decisions, arena, race detection.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

namespace sim
{
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;

// ---------------------------------------------------------------- randomness
struct Rng
{
  u64 s[2];
  explicit Rng(u64 seed = 1) {reseed(seed);}
  void reseed(u64 seed);
  u64 next();
  u64 below(u64 n) {return n ? next() % n : 0;}
  i64 range(i64 lo, i64 hi) {return lo + static_cast<i64>(below(static_cast<u64>(hi - lo + 1)));}
  bool chance(double p) {return (next() >> 11) * (1.0 / 9007199254740992.0) < p;}
  template<typename T> const T & pick(const std::vector<T> & v) {return v[below(v.size())];}
};
u64 mix64(u64 x);
u64 hash_str(const std::string & s);

// ---------------------------------------------------------------- plans
// A run is a pure function of its plan: parameters, operations and the non-default decisions.
enum Kind : int
{
  K_SCHED = 1,   // preempt the running task at its n-th step inside an operation: value = next task + 1
  K_PICK = 2,    // who runs when the running task blocks, finishes or sleeps: value = task + 1
  K_NEW = 3,     // operator new fails (value 1)
  K_MALLOC = 4,  // malloc inside the library fails
  K_ALLOC = 5,   // caller-supplied rcutils allocator fails
  K_PUB = 6,     // outcome of handing a sample to the middleware (rmw_ret_t)
  K_STALL = 7,   // virtual nanoseconds a publish call stalls
  K_SYS = 8,     // errno injected into a file system call
  K_SHORT = 9,   // short read: value = bytes returned + 1
  K_NET = 10,    // network delay/loss decision
  K_QERR = 11,   // error returned by the endpoint info provider
  K_SPUR = 12,   // spurious condition variable wake-up
  K_HARN = 13,   // world specific decision
  K_KINDS = 14
};
const char * kind_name(int k);

struct Op
{
  int id = 0;        // stable identity (survives minimisation)
  int task = 0;
  std::string code;
  std::vector<i64> a;
  i64 arg(size_t i, i64 d = 0) const {return i < a.size() ? a[i] : d;}
};

struct Plan
{
  std::string world, prop;
  u64 seed = 0;
  bool replay = false;
  std::map<std::string, i64> params;
  std::vector<Op> ops;
  std::map<u64, i64> dec;
  i64 param(const std::string & k, i64 d = 0) const
  {
    auto it = params.find(k);
    return it == params.end() ? d : it->second;
  }
  std::string text() const;
  static bool parse(const std::string & text, Plan & out, std::string * expect_class, u64 * expect_hash);
};
u64 dec_key(int task, int op, int kind, u32 nth);

// ---------------------------------------------------------------- shared results
struct LogEntry {u64 key; i64 val;};
struct Counter {char name[56]; u64 n;};
struct Shared
{
  // result of the current run
  volatile int status;       // 0 running, 1 ok, 2 violation
  char cls[64];
  char msg[4000];
  u64 hash, sync_hash;
  u64 steps, switches, vtime;
  u64 run_faults, run_preempt;  // of the current run
  u32 nlog;
  u32 log_overflow;
  LogEntry log[1 << 16];
  // accumulated over all runs of this process
  u32 ncounters;
  Counter counters[400];
  char sample[6000];
};
extern Shared * shared;

void count(const char * name, u64 n = 1);  // cumulative counter (fault kinds, probes)
[[noreturn]] void violation(const char * cls, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish_ok();
#define SIM_CHECK(cond, cls, ...) do {if (!(cond)) {::sim::violation(cls, __VA_ARGS__);}} while (0)
[[noreturn]] void internal_error(const char * fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- run context (child side)
extern Plan * plan;
extern Rng rng_gen;     // plan generation
extern bool trace_on;   // print a human readable trace (replay --trace)
void trace(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
void ev(u64 a, u64 b = 0, u64 c = 0);           // mix into the history hash
void ev_str(const std::string & s);

/// A decision: `dflt` unless the exploration's random source (gen) or the replay file says otherwise.
i64 decide(Kind k, i64 dflt, const std::function<i64(Rng &)> & gen);
i64 decide_at(int task, int op, Kind k, u32 nth, i64 dflt, const std::function<i64(Rng &)> & gen);

struct SchedCfg
{
  double p_access = 0.0;   // preemption probability per memory access in the code under test
  double p_sync = 0.2;     // ... per synchronisation operation
  int pct_depth = 0;       // >0: PCT with this many priority change points
  u64 pct_len = 2000;      // estimated run length in steps for PCT
  u64 max_steps = 4000000;
  double p_stall = 0.0;    // a preempted task does not run for a long time
};
extern SchedCfg sched_cfg;
void draw_sched(Rng & r);   // swarm choice of a scheduling policy

// ---------------------------------------------------------------- tasks
void engine_init_process();       // once in the worker, before forking runs
void engine_begin_run(Plan * p);  // in the child: calling thread becomes task 0
int spawn(const std::string & name, std::function<void()> fn);
int self();
int ntasks();
bool task_done(int id);
void join(int id);
void kill_task(int id);           // simulated process crash: the task never runs again
bool task_dead(int id);
void set_op(int op_id);           // operation identity for decision keys; resets per-op counters
int cur_op();
u64 now();                        // virtual nanoseconds
u64 seq();                        // global event sequence number (monotonic, one per call)
void sleep_ns(u64 ns);
void wait_until(const std::function<bool()> & pred, const char * what);
bool wait_until_for(const std::function<bool()> & pred, u64 ns, const char * what);
void yield();                     // scheduling point from harness code
int locks_held();                 // locks the current task holds in the code under test
std::string locks_desc();
bool blocked_on_lock(int task);

// ---------------------------------------------------------------- code-under-test boundary
extern __thread int in_sut;
extern __thread int no_fault;   // heap of the code under test without injected failures
struct SutScope {int old; SutScope() {old = in_sut; in_sut = 1;} ~SutScope() {in_sut = old;}};
struct HarnessScope {int old; HarnessScope() {old = in_sut; in_sut = 0;} ~HarnessScope() {in_sut = old;}};

struct NoFaultScope {int old; NoFaultScope() {old = no_fault; no_fault = 1;} ~NoFaultScope() {no_fault = old;}};

struct FaultCfg
{
  double p_new = 0, p_malloc = 0, p_alloc = 0, p_sys = 0, p_short = 0;
  bool fs_enabled = false;
};
extern FaultCfg fault_cfg;

void * arena_alloc(size_t n, bool zero, size_t align = 16);
void arena_free(void * p, const char * how);
bool in_arena(const void * p);
u64 live_blocks();   // live blocks allocated by the code under test
void check_range(const void * p, size_t n, bool write, void * pc);
void hb_release(const void * obj);
void hb_acquire(const void * obj);

// file system seam: called for every intercepted call of the code under test
extern std::function<void(const char * call, const char * path)> fs_observer;
extern int (* fs_errno_pool)(Rng &, const char * call);
extern std::function<void(const char * call, const char * path, int err)> fs_fault_hook;  // an error or short read was injected
u64 faults_fired_in_op();
void note_fault(const char * name);
}  // namespace sim
