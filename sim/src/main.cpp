// Driver: seeded exploration, replay and minimisation.
#include "worlds.h"
#include "util.h"

#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <sched.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;

static double wall()
{
  struct timespec t;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
struct Result
{
  int status = 0;
  std::string cls, msg;
  u64 hash = 0, sync_hash = 0, steps = 0, vtime = 0;
  std::map<u64, i64> log;
  bool overflow = false;
};
static const World * find_world(const std::string & prop, const std::string & name)
{
  for (auto & w : worlds()) {
    if (prop == w.prop && name == w.name) {return &w;}
  }
  return nullptr;
}
static Result run_one(const World * w, Plan & p, bool tr)
{
  shared->status = 0;
  shared->nlog = 0;
  shared->log_overflow = 0;
  shared->cls[0] = shared->msg[0] = 0;
  shared->hash = shared->sync_hash = shared->steps = shared->vtime = 0;
  shared->run_faults = shared->run_preempt = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) {perror("fork"); exit(2);}
  if (pid == 0) {
    trace_on = tr;
    util::set_pool(p.param("pool"));
    Rng r(p.seed ^ 0x5eed5eedULL);
    draw_sched(r);
    engine_begin_run(&p);
    w->run(p);
    finish_ok();
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Result res;
  res.status = shared->status;
  res.cls = shared->cls;
  res.msg = shared->msg;
  res.hash = shared->hash;
  res.sync_hash = shared->sync_hash;
  res.steps = shared->steps;
  res.vtime = shared->vtime;
  res.overflow = shared->log_overflow;
  if (res.status == 0) {
    res.status = 2;
    if (WIFSIGNALED(st)) {
      res.cls = WTERMSIG(st) == SIGKILL ? "internal" : "crash";
      res.msg = "the simulated process died from signal " + std::to_string(WTERMSIG(st));
    } else if (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 66) {
      res.cls = "internal";
      res.msg = "run ended without a result";
    } else {
      res.cls = "exit";
      res.msg = "the simulated process exited with status " + std::to_string(WEXITSTATUS(st));
    }
  }
  if (res.status == 2) {
    for (u32 i = 0; i < shared->nlog; ++i) {res.log[shared->log[i].key] = shared->log[i].val;}
  }
  return res;
}
static std::string result_text(const Plan & p, const Result & r)
{
  std::ostringstream o;
  o << "# " << r.msg << "\n" << p.text() << "expect " << r.cls << "\nhash " << std::hex << r.hash << "\n";
  return o.str();
}
static void write_file(const std::string & f, const std::string & t)
{
  std::ofstream o(f, std::ios::binary | std::ios::trunc);
  o << t;
}
static std::string json_str(const std::string & s)
{
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {o += '\\'; o += static_cast<char>(c);}
    else if (c == '\n') {o += "\\n";}
    else if (c < 32 || c > 126) {char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); o += b;}
    else {o += static_cast<char>(c);}
  }
  return o + "\"";
}
static std::string arg(int argc, char ** argv, const std::string & n, const std::string & d)
{
  for (int i = 2; i + 1 < argc; ++i) {if (n == argv[i]) {return argv[i + 1];}}
  return d;
}
static void make_plan(const std::string & prop, u64 vseed, u64 index, Plan & p, const World *& w)
{
  p.prop = prop;
  p.seed = mix64(mix64(vseed * 0x9e3779b97f4a7c15ULL + hash_str(prop)) + index);
  Rng g(p.seed);
  int total = 0;
  for (auto & c : worlds()) {if (prop == c.prop) {total += c.weight;}}
  if (!total) {fprintf(stderr, "no world for property %s\n", prop.c_str()); exit(2);}
  int x = static_cast<int>(g.below(static_cast<u64>(total)));
  w = nullptr;
  for (auto & c : worlds()) {
    if (prop != c.prop) {continue;}
    if (x < c.weight) {w = &c; break;}
    x -= c.weight;
  }
  p.world = w->name;
  Rng pool(p.seed ^ 0x9001);
  p.params["pool"] = pool.below(3) ? 0 : 1 + static_cast<i64>(pool.below(3));
  p.params["reuse"] = pool.below(4) == 0;
  // a long life before: more operations than a byte, or two, can count
  static const i64 many[] = {120, 250, 32700, 65500};
  if (pool.below(400) == 0) {p.params["churn"] = many[pool.below(2)] + static_cast<i64>(pool.below(80));}
  const bool ctx = p.world.compare(0, 3, "ctx") == 0;
  const bool long_life = index >= 2000 && index < (ctx ? 2008 : 2016);   // (one of each kind, see there, in every exploration)
  if (long_life || pool.below(20000) == 0) {
    p.params["churn"] = long_life ? 65544 + static_cast<i64>(index - 2000) : many[2 + pool.below(2)] + static_cast<i64>(pool.below(80));
    p.params["crowd"] = 1;
  }
  // threads which do not run for a long time when they are preempted (not where progress is measured in time)
  if (p.world.compare(0, 3, "net") != 0 && p.world != "ctx-stall" && pool.below(5) == 0) {
    static const i64 often[] = {5, 50, 250};
    p.params["slow"] = often[pool.below(3)];
  }
  util::set_pool(p.params["pool"]);
  w->gen(p, g);
}
static int explore(int argc, char ** argv)
{
  std::string prop = arg(argc, argv, "--prop", "");
  u64 vseed = strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 0);
  u64 worker = strtoull(arg(argc, argv, "--worker", "0").c_str(), nullptr, 0);
  u64 workers = strtoull(arg(argc, argv, "--workers", "1").c_str(), nullptr, 0);
  double seconds = atof(arg(argc, argv, "--seconds", "5").c_str());
  u64 max_runs = strtoull(arg(argc, argv, "--runs", "100000000").c_str(), nullptr, 0);
  u64 twice = strtoull(arg(argc, argv, "--twice", "16").c_str(), nullptr, 0);
  u64 first = strtoull(arg(argc, argv, "--first", "0").c_str(), nullptr, 0);
  std::string out = arg(argc, argv, "--out", "/dev/stdout");
  std::string vfile = arg(argc, argv, "--violation", "");
  std::string hashes = arg(argc, argv, "--hashes", "");
  std::string with = arg(argc, argv, "--with", "");   // only plans that have this parameter
  std::ofstream hf;
  if (!hashes.empty()) {hf.open(hashes);}
  std::unordered_set<u64> seen, seen_sync, seen_nt;
  u64 runs = 0, doubled = 0, steps = 0, nontrivial = 0;
  double vtime = 0, slowest = 0;
  u64 slowest_index = 0, most_steps = 0, most_index = 0;   // (of runs without a crowd)
  double t0 = wall();
  bool bad = false;
  u64 nondet = 0;
  std::map<std::string, u64> worlds;
  u64 last_index = first;
  std::string first_plan;
  for (u64 i = first + worker; i < first + max_runs && wall() - t0 < seconds; i += workers) {
    Plan p;
    const World * w;
    make_plan(prop, vseed, i, p, w);
    if (!with.empty() && !p.params.count(with)) {continue;}
    last_index = i;
    if (first_plan.empty()) {first_plan = p.text();}
    double r0 = wall();
    Result r = run_one(w, p, arg(argc, argv, "--trace", "") == "1");
    if (wall() - r0 > slowest) {slowest = wall() - r0; slowest_index = i;}
    ++runs;
    worlds[w->name]++;
    steps += r.steps;
    if (!p.params.count("crowd") && r.steps > most_steps) {most_steps = r.steps; most_index = i;}
    vtime += static_cast<double>(r.vtime);
    seen.insert(r.hash);
    seen_sync.insert(r.sync_hash);
    if (shared->run_faults || shared->run_preempt) {seen_nt.insert(r.hash); nontrivial++;}
    if (hf.is_open()) {hf << i << " " << std::hex << r.hash << " " << r.sync_hash << std::dec << " " << r.status << " " << r.cls << "\n";}
    if (r.status == 2) {
      Plan q = p;
      q.dec = r.log;
      if (!vfile.empty()) {write_file(vfile, result_text(q, r));}
      fprintf(stderr, "run %llu seed %llu: %s: %s\n", static_cast<unsigned long long>(i),
        static_cast<unsigned long long>(p.seed), r.cls.c_str(), r.msg.c_str());
      bad = true;
      break;
    }
    if (twice && (runs % twice) == 1) {
      ++doubled;
      // alternately the same seed again and a replay of the recorded decisions
      Plan q = p;
      std::vector<LogEntry> log(shared->log, shared->log + shared->nlog);
      const bool rep = (doubled & 1) && !shared->log_overflow;
      if (rep) {
        q.replay = true;
        for (auto & x : log) {q.dec[x.key] = x.val;}
      }
      Result r2 = run_one(w, q, arg(argc, argv, "--trace", "") == "1");
      if (r2.hash != r.hash || r2.status != r.status) {
        // keep exploring: a violation that does replay is worth more than this
        r2.cls = "internal";
        r2.msg = "the same seed gave two different executions";
        if (!vfile.empty() && !nondet) {write_file(out + ".nondet", result_text(q, r2));}
        fprintf(stderr, "run %llu world %s: nondeterminism (%s)\n", static_cast<unsigned long long>(i), w->name, rep ? "replay" : "again");
        ++nondet;
      }
    }
  }
  std::ostringstream o;
  o << "{\"runs\":" << runs << ",\"doubled\":" << doubled << ",\"distinct\":" << seen.size() <<
    ",\"distinct_sync\":" << seen_sync.size() << ",\"nontrivial\":" << nontrivial << ",\"steps\":" << steps << ",\"vtime_s\":" << vtime / 1e9 <<
    ",\"wall\":" << wall() - t0 << ",\"slowest_s\":" << slowest << ",\"slowest_index\":" << slowest_index << ",\"most_steps\":" << most_steps << ",\"most_index\":" << most_index << ",\"last_index\":" << last_index << ",\"nondeterministic\":" << nondet << ",\"bad\":" << (bad ? "true" : "false");
  o << ",\"worlds\":{";
  bool f = true;
  for (auto & x : worlds) {o << (f ? "" : ",") << json_str(x.first) << ":" << x.second; f = false;}
  o << "},\"counters\":{";
  f = true;
  for (u32 i = 0; i < shared->ncounters; ++i) {
    o << (f ? "" : ",") << json_str(shared->counters[i].name) << ":" << shared->counters[i].n;
    f = false;
  }
  o << "},\"sample\":" << json_str(shared->sample) << ",\"first_plan\":" << json_str(first_plan) << "}\n";
  // exact sets, merged by the wrapper: interleavings of synchronisation operations, non-trivial histories
  std::string bin;
  for (auto * set : {&seen_sync, &seen_nt}) {
    u64 n = set->size();
    bin.append(reinterpret_cast<char *>(&n), 8);
    for (u64 h : *set) {bin.append(reinterpret_cast<char *>(&h), 8);}
  }
  if (out != "/dev/stdout") {write_file(out + ".bin", bin);}
  write_file(out, o.str());
  return bad ? 1 : 0;
}
static bool load(const char * f, Plan & p, std::string & cls, u64 & hash, const World *& w)
{
  std::ifstream in(f, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  cls.clear();
  hash = 0;
  if (!Plan::parse(ss.str(), p, &cls, &hash)) {fprintf(stderr, "cannot read %s\n", f); return false;}
  w = find_world(p.prop, p.world);
  if (!w) {fprintf(stderr, "unknown world %s/%s\n", p.prop.c_str(), p.world.c_str()); return false;}
  return true;
}
static int replay(int argc, char ** argv)
{
  Plan p;
  std::string cls;
  u64 hash = 0;
  const World * w = nullptr;
  if (!load(argv[2], p, cls, hash, w)) {return 2;}
  bool tr = false, quiet = false;
  for (int i = 3; i < argc; ++i) {
    if (std::string("--trace") == argv[i]) {tr = true;}
    if (std::string("--quiet") == argv[i]) {quiet = true;}
  }
  Result r = run_one(w, p, tr);
  if (!quiet) {
    printf("%s %s %llx %s\n", r.status == 2 ? "FAIL" : "OK", r.cls.c_str(),
      static_cast<unsigned long long>(r.hash), r.msg.c_str());
  }
  if (r.status != 2) {return 0;}
  if (!cls.empty() && r.cls != cls) {return 3;}
  if (hash && r.hash != hash && cls != "hang") {return 4;}
  return 1;
}
/// ddmin over a vector-like set of items with a test function.
template<typename T, typename F>
static bool ddmin(std::vector<T> & items, F test, double deadline)
{
  bool changed = false;
  size_t chunk = items.size();
  while (chunk >= 1 && !items.empty()) {
    bool removed = false;
    for (size_t i = 0; i < items.size() && wall() < deadline; ) {
      std::vector<T> cand;
      for (size_t k = 0; k < items.size(); ++k) {if (k < i || k >= i + chunk) {cand.push_back(items[k]);}}
      if (test(cand)) {items = cand; removed = changed = true;} else {i += chunk;}
    }
    if (wall() >= deadline) {break;}
    if (chunk == 1 && !removed) {break;}
    chunk = chunk > 1 ? chunk / 2 : (removed ? 1 : 0);
  }
  return changed;
}
static int minimise(int argc, char ** argv)
{
  Plan p;
  std::string cls;
  u64 hash = 0;
  const World * w = nullptr;
  if (!load(argv[2], p, cls, hash, w)) {return 2;}
  double deadline = wall() + atof(arg(argc, argv, "--seconds", "40").c_str());
  Result best = run_one(w, p, false);
  if (best.status != 2 || (!cls.empty() && best.cls != cls)) {
    fprintf(stderr, "the recorded violation does not replay (%s vs %s)\n", best.cls.c_str(), cls.c_str());
    return 3;
  }
  cls = best.cls;
  u64 tries = 0;
  auto attempt = [&](Plan & q) {
      ++tries;
      Result r = run_one(w, q, false);
      if (r.status == 2 && r.cls == cls && !r.overflow) {
        q.dec = r.log;  // only what was really used
        best = r;
        p = q;
        return true;
      }
      return false;
    };
  if (!best.overflow) {p.dec = best.log;}
  for (int round = 0; round < 4 && wall() < deadline; ++round) {
    bool any = false;
    // operations
    std::vector<Op> ops = p.ops;
    any |= ddmin(ops, [&](const std::vector<Op> & c) {Plan q = p; q.ops = c; return attempt(q);}, deadline);
    // decisions
    std::vector<std::pair<u64, i64>> dec(p.dec.begin(), p.dec.end());
    any |= ddmin(dec, [&](const std::vector<std::pair<u64, i64>> & c) {
          Plan q = p;
          q.dec.clear();
          for (auto & d : c) {q.dec.insert(d);}
          return attempt(q);
        }, deadline);
    // simpler arguments and parameters
    for (size_t i = 0; i < p.ops.size() && wall() < deadline; ++i) {
      for (size_t k = 0; i < p.ops.size() && k < p.ops[i].a.size(); ++k) {
        if (p.ops[i].a[k] > 0) {
          Plan q = p;
          q.ops[i].a[k] = 0;
          if (attempt(q)) {any = true; continue;}
          if (p.ops[i].a[k] > 1) {
            q = p;
            q.ops[i].a[k] /= 2;
            if (attempt(q)) {any = true;}
          }
        }
      }
    }
    std::vector<std::string> keys;
    for (auto & x : p.params) {if (((x.first[0] == 'p' && x.first[1] == '_') || x.first == "churn") && x.second) {keys.push_back(x.first);}}
    for (auto & k : keys) {
      Plan q = p;
      q.params[k] = 0;
      if (attempt(q)) {any = true;}
    }
    if (!any) {break;}
  }
  // the result as it replays
  Result fin = run_one(w, p, false);
  if (fin.status != 2 || fin.cls != cls) {fprintf(stderr, "minimised run does not replay\n"); return 3;}
  write_file(argv[3], result_text(p, fin));
  printf("minimised to %zu ops, %zu decisions in %llu runs\n", p.ops.size(), p.dec.size(),
    static_cast<unsigned long long>(tries));
  return 0;
}
int main(int argc, char ** argv)
{
  if (argc < 2) {
    fprintf(stderr, "usage: vsim explore|replay|minimise|list ...\n");
    return 2;
  }
  // same addresses in every process (only a nicety: no decision depends on an address)
  if (!getenv("VSIM_NOASLR")) {
    setenv("VSIM_NOASLR", "1", 1);
    int old = personality(0xffffffff);
    if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && personality(static_cast<unsigned long>(old | ADDR_NO_RANDOMIZE)) != -1) {
      execv("/proc/self/exe", argv);
    }
  }
  // one core: only one simulated thread runs at a time anyway
  std::string core = arg(argc, argv, "--core", "");
  if (!core.empty()) {
    cpu_set_t s;
    CPU_ZERO(&s);
    CPU_SET(static_cast<size_t>(atoi(core.c_str())), &s);
    sched_setaffinity(0, sizeof(s), &s);
  }
  engine_init_process();
  std::string cmd = argv[1];
  if (cmd == "explore") {return explore(argc, argv);}
  if (cmd == "replay" && argc > 2) {return replay(argc, argv);}
  if (cmd == "minimise" && argc > 3) {return minimise(argc, argv);}
  if (cmd == "gen") {
    Plan p;
    const World * w;
    make_plan(arg(argc, argv, "--prop", ""), strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 0),
      strtoull(arg(argc, argv, "--index", "0").c_str(), nullptr, 0), p, w);
    printf("%s", p.text().c_str());
    return 0;
  }
  return 2;
}
