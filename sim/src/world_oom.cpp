// Worlds "oom-query" (C07: the caller's allocator fails) and "oom-update" (C08: the heap is exhausted).
#include "worlds.h"
#include "util.h"
#include <algorithm>

using namespace sim;
using namespace util;

namespace
{
const int NTOP = 5, NNAMES = 6, NE = 8, NE_LARGE = 90, NP = 3;

model::Ep ep_of(i64 part, i64 seed, i64 style)
{
  model::Ep e;
  e.topic = topic(seed % NTOP);
  e.type = type(seed >= 1000 ? seed % 37 : seed % 7 + (seed % 3 == 0 ? 2 : 0));
  e.hash = hash(seed % 5);
  e.qos = qos(seed);
  e.part = part_gid(part, style);
  return e;
}
sut::PMsg ann_of(i64 part, i64 seed, i64 style)
{
  sut::PMsg m;
  m.gid = part_gid(part, style);
  Rng r(static_cast<u64>(seed) * 9176 + static_cast<u64>(part) * 13);
  std::set<i64> used[2], names;
  bool large = seed >= 1000;
  const bool crowd = seed >= 2000;
  size_t n = crowd ? 256 + (r.below(3) ? r.below(60) : 0) : large ? 3 + r.below(12) : seed ? r.below(5) : 0;
  for (size_t k = 0; k < n; ++k) {
    i64 x = crowd ? static_cast<i64>(k) : static_cast<i64>(r.below(large && k > 3 ? 60 : NNAMES));
    if (!names.insert(x).second) {continue;}
    sut::NodeMsg nm;
    nm.name = node_name(x);
    nm.ns = node_ns(x);
    for (int rd = 0; rd < 2; ++rd) {
      for (size_t j = r.below(large ? 16 : 4); j-- > 0; ) {
        i64 e = part * 100 + static_cast<i64>(r.below(large ? NE_LARGE : NE));
        if (used[rd].insert(e).second) {(rd ? nm.readers : nm.writers).push_back(ep_gid(e, style));}
      }
    }
    m.nodes.push_back(nm);
  }
  return m;
}
/// One mutation of the graph: applied to the cache, or to the model.
struct Mut
{
  sut::Ret r;
  Gid part;                          // participant the operation is about
  bool has_ep = false, reader = false;
  Gid ep;
};
Mut mutate(sut::Cache * c, model::Graph * g, const Op & o, i64 style)
{
  Mut m;
  i64 part = o.arg(0), k = o.arg(1), seed = o.arg(2);
  bool reader = o.arg(3) & 1;
  m.part = part_gid(part, style);
  m.reader = reader;
  if (o.code == "part") {
    if (c) {m.r = sut::add_participant(c, m.part, enclave(4 + part));}
    if (g) {g->add_participant(m.part, enclave(4 + part));}
  } else if (o.code == "ann") {
    sut::PMsg a = ann_of(part, seed, style);
    if (c) {m.r = sut::update(c, a);}
    if (g) {g->update(a);}
  } else if (o.code == "unpart") {
    if (c) {m.r = sut::remove_participant(c, m.part);}
    if (g) {g->remove_participant(m.part);}
  } else if (o.code == "ep" || o.code == "unep") {
    m.has_ep = true;
    m.ep = ep_gid(part * 100 + k, style);
    model::Ep e = ep_of(part, seed, style);
    if (o.code == "ep") {
      if (c) {m.r = sut::add_entity(c, m.ep, e.topic, e.type, e.hash, e.part, e.qos, reader, static_cast<int>(o.arg(4)));}
      if (g) {g->add_entity(m.ep, e, reader);}
    } else {
      if (c) {m.r = sut::remove_entity(c, m.ep, reader, static_cast<int>(o.arg(4)));}
      if (g) {g->remove_entity(m.ep, reader);}
    }
  } else {
    internal_error("unknown op %s", o.code.c_str());
  }
  return m;
}

// ---------------------------------------------------------------- C07
struct Answer {sut::Ret r; std::string text;};
Answer ask(sut::Cache * c, const Op & o, sut::QAlloc * q)
{
  Answer a;
  bool reader = o.arg(2) & 1;
  int dm = static_cast<int>(o.arg(3) & 1);
  switch (o.arg(0)) {
    case 0: case 1: {
        std::vector<sut::NodeName> v;
        a.r = sut::node_names(c, o.arg(0) == 0, q, &v);
        a.text = model::canon(v, o.arg(0) == 0);
        break;
      }
    case 2: {
        sut::NT nt;
        a.r = sut::names_and_types(c, dm, q, &nt);
        a.text = model::canon(nt);
        break;
      }
    case 3: {
        std::vector<sut::EpInfo> v;
        a.r = sut::info_by_topic(c, topic(o.arg(1) % NTOP), reader, dm, q, &v);
        a.text = model::canon(v);
        break;
      }
    case 5: a.r = sut::dump(c, &a.text); break;
    default: {
        sut::NT nt;
        a.r = sut::by_node(c, node_name(o.arg(1) % NNAMES), node_ns(o.arg(1) % NNAMES), reader, dm, q, &nt);
        a.text = model::canon(nt);
      }
  }
  return a;
}
/// Acceptable answers; `ret` is the expected result.
std::vector<std::string> truth(const model::Graph & g, const Op & o, int * ret)
{
  *ret = sut::OK;
  bool reader = o.arg(2) & 1;
  int dm = static_cast<int>(o.arg(3) & 1);
  switch (o.arg(0)) {
    case 0: case 1: return {model::canon(g.node_names(), o.arg(0) == 0)};
    case 2: return {model::canon(g.names(dm))};
    case 3: return {model::canon(g.info(topic(o.arg(1) % NTOP), reader, dm))};
    default: {
        std::vector<std::string> v;
        for (auto & n : g.by_node(node_name(o.arg(1) % NNAMES), node_ns(o.arg(1) % NNAMES), reader, dm)) {v.push_back(model::canon(n));}
        if (v.empty()) {*ret = sut::NODE_MISSING; v.push_back("");}
        return v;
      }
  }
}
const char * kQueries[] = {"get_node_names with enclaves", "get_node_names", "get_names_and_types", "info_by_topic", "names_and_types_by_node", "operator<<"};
const char * qname(const Op & o) {return kQueries[std::min<i64>(5, std::max<i64>(0, o.arg(0)))];}

void expect_complete(const model::Graph & g, const Op & o, const Answer & a, const char * when)
{
  int ret = 0;
  auto t = truth(g, o, &ret);
  if (a.r.exc || a.r.ret != ret) {violation("wrong-result", "%s: %s returned %d (%s), expected %d", when, qname(o), a.r.ret, a.r.what.c_str(), ret);}
  if (ret == sut::OK && std::find(t.begin(), t.end(), a.text) == t.end()) {
    violation("wrong-answer", "%s: %s: %s", when, qname(o), diff(a.text, t[0]).c_str());
  }
}
/// Returns whether the allocator failed during the query.
bool failing_query(sut::Cache * c, const model::Graph & g, const Op & o, int from, int len)
{
  sut::QAlloc q;
  q.fail_from = from;
  q.fail_len = len;
  Answer a = ask(c, o, &q);
  if (locks_held()) {violation("lock-held", "%s left a lock held", qname(o));}
  if (!q.failed) {
    expect_complete(g, o, a, "without a failing allocation");
    return false;
  }
  note_fault("caller_allocator_failure");
  if (a.r.exc) {violation("wrong-result", "%s threw %s when allocation %d failed", qname(o), a.r.what.c_str(), from);}
  if (a.r.ret == sut::OK) {
    expect_complete(g, o, a, "after a failed allocation it got over");
  } else if (a.r.ret != sut::BAD_ALLOC) {
    violation("wrong-result", "%s returned %d when allocation %d failed", qname(o), a.r.ret, from);
  }
  return true;
}
void query_op(sut::Cache * c, const model::Graph & g, const Op & o)
{
  set_op(o.id);
  if (o.code == "refuse") {
    int kind = static_cast<int>(o.arg(0));
    std::string n = node_name(o.arg(1) % NNAMES), ns = node_ns(o.arg(1) % NNAMES);
    sut::Ret r = sut::refused(c, kind, static_cast<int>(o.arg(4)), n, ns, o.arg(2) & 1);
    note_fault("invalid_argument");
    if (r.exc || (r.ret != sut::INVALID_ARG && !(kind == 4 && r.ret == sut::NODE_MISSING && g.by_node(n, ns, o.arg(2) & 1, 0).empty()))) {
      violation("wrong-result", "a query (kind %d) with an invalid argument (kind %d) returned %d (%s)", kind, static_cast<int>(o.arg(4)), r.ret, r.what.c_str());
    }
    return;
  }
  i64 mode = o.arg(4), from = o.arg(5);
  if (mode < 2) {
    // every single failure point of this query on this graph
    for (int k = 0; k < 2000; ++k) {
      if (!failing_query(c, g, o, k, mode == 0 ? 1 : 1000000)) {
        count("probe.swept_queries");
        break;
      }
      if (k % 3 == 0) {sim::yield();}
    }
  } else {
    failing_query(c, g, o, static_cast<int>(from), static_cast<int>(mode - 1));
  }
  sut::QAlloc q;
  expect_complete(g, o, ask(c, o, &q), "retried with a working allocator");
}
void run_query(Plan & p)
{
  i64 style = p.param("style");
  sut::Cache * c = sut::cache_new();
  model::Graph g;
  int tasks = static_cast<int>(p.param("tasks", 1));
  auto ops = by_task(p, tasks + 1);
  if (p.param("churn")) {
    Gid local = part_gid(9, style);
    if (!sut::add_participant(c, local, enclave(1)).ok()) {violation("unexpected-error", "add_participant failed");}
    g.add_participant(local, enclave(1));
    Churn life;
    long_life(p, c, g, local, style, life);
  }
  for (auto & o : ops[0]) {
    set_op(o.id);
    Mut m = mutate(c, &g, o, style);
    if (m.r.exc) {violation("unexpected-error", "%s threw %s", o.code.c_str(), m.r.what.c_str());}
  }
  std::vector<int> ids;
  for (int t = 1; t <= tasks; ++t) {
    ids.push_back(spawn("query" + std::to_string(t), [&, t]() {for (auto & o : ops[static_cast<size_t>(t)]) {query_op(c, g, o);}}));
  }
  for (int id : ids) {join(id);}
  set_op(64000);
  for (int dm = 0; dm < 2; ++dm) {check_all(c, g, NTOP, NNAMES, dm, "graph-changed", "after failed queries");}
  sut::cache_delete(c);
  if (live_blocks()) {violation("leak", "%llu blocks are still allocated at the end", static_cast<unsigned long long>(live_blocks()));}
}
void gen_muts(Plan & p, Rng & r, int task, int n, i64 part_of, bool large = false)
{
  for (int i = 0; i < n; ++i) {
    i64 part = part_of >= 0 ? part_of : static_cast<i64>(r.below(NP));
    i64 k = static_cast<i64>(r.below(large ? NE_LARGE : NE)), seed = large ? 1000 + static_cast<i64>(r.below(400)) : static_cast<i64>(r.below(40)), rd = static_cast<i64>(r.below(2)), var = static_cast<i64>(r.below(2));
    switch (r.below(10)) {
      case 0: case 1: add_op(p, task, "part", {part}); break;
      case 2: case 3: case 4: add_op(p, task, "ann", {part, 0, seed}); break;
      case 5: add_op(p, task, "unep", {part, k, 0, rd, var}); break;
      case 6: if (r.below(3) == 0) {add_op(p, task, "unpart", {part}); break;}
      // fall through
      default: add_op(p, task, "ep", {part, k, seed, rd, 0}); break;
    }
  }
}
void gen_query(Plan & p, Rng & r)
{
  p.params["style"] = static_cast<i64>(r.below(4));
  int tasks = r.below(3) ? 1 : 2;
  p.params["tasks"] = tasks;
  bool large = r.below(25) == 0;
  if (r.below(900) == 0) {
    // more than a byte can count
    large = true;
    p.params["crowd"] = 1;
    i64 many = 256 + static_cast<i64>(r.below(3) ? r.below(60) : 0), rd = static_cast<i64>(r.below(2)), part = static_cast<i64>(r.below(NP));
    if (r.below(2)) {
      for (i64 k = 0; k < many; ++k) {add_op(p, 0, "ep", {part, 1000 + k, (r.below(2) ? 0 : 1) * NTOP * 7, rd, 0});}
    } else {
      add_op(p, 0, "ann", {part, 0, 2000 + static_cast<i64>(r.below(100))});
    }
  } else if (large) {gen_muts(p, r, 0, 20 + static_cast<int>(r.below(80)), -1, true);} else {gen_muts(p, r, 0, static_cast<int>(r.below(25)), -1);}
  for (int t = 1; t <= tasks; ++t) {
    int n = 1 + static_cast<int>(r.below(4));
    for (int i = 0; i < n; ++i) {
      if (r.below(8) == 0) {
        add_op(p, t, "refuse", {static_cast<i64>(r.below(5)), static_cast<i64>(r.below(NNAMES)), static_cast<i64>(r.below(2)), 0, static_cast<i64>(r.below(5))});
        continue;
      }
      add_op(p, t, "q", {static_cast<i64>(r.below(5)), static_cast<i64>(r.below(NNAMES)), static_cast<i64>(r.below(2)), static_cast<i64>(r.below(2)),
          static_cast<i64>(large ? 2 + r.below(3) : r.below(5)), static_cast<i64>(r.below(large ? 400 : 30))});
    }
  }
}

// ---------------------------------------------------------------- C08
struct Oom
{
  Plan & p;
  i64 style;
  sut::Ctx * x = nullptr;
  sut::Cache * c = nullptr;
  Gid me;
  model::Graph g;
  explicit Oom(Plan & pl)
  : p(pl), style(pl.param("style")) {}
};
void no_lock(const char * what)
{
  if (locks_held()) {violation("lock-held", "%s failed for lack of memory and left a lock held", what);}
}
/// Everything but what the interrupted operation was about.
void check_others(Oom & O, const Mut & m)
{
  NoFaultScope nf;
  auto enc = O.g.parts.count(m.part) ? O.g.parts[m.part].enclave : "";
  model::Graph & g = O.g;
  // node names of the others: enclaves are unique; a participant not yet discovered has none
  std::vector<sut::NodeName> v, a, b;
  sut::Ret r = sut::node_names(O.c, true, nullptr, &v);
  if (!r.ok()) {violation("damaged", "get_node_names fails after an update ran out of memory");}
  std::map<std::string, int> anon_ok;
  for (auto & pt : g.parts) {
    if (pt.first == m.part) {continue;}
    for (auto & n : pt.second.nodes) {
      sut::NodeName y;
      y.name = n.name;
      y.ns = n.ns;
      y.enclave = pt.second.enclave;
      b.push_back(y);
    }
  }
  std::vector<sut::NodeName> rest = b;
  for (auto & y : v) {
    auto it = std::find(rest.begin(), rest.end(), y);
    if (it != rest.end()) {rest.erase(it); continue;}
    if (y.enclave != enc && !y.enclave.empty() && y.enclave != enclave(4 + (O.me == m.part ? 9 : 0))) {
      bool own = false;
      for (int k = 0; k < NP; ++k) {own |= part_gid(k, O.style) == m.part && y.enclave == enclave(4 + k);}
      if (!own) {violation("others-affected", "unexpected node %s|%s|%s after an update of another participant ran out of memory", y.ns.c_str(), y.name.c_str(), y.enclave.c_str());}
    }
  }
  if (!rest.empty()) {
    violation("others-affected", "node %s|%s|%s is missing after an update of another participant ran out of memory",
      rest[0].ns.c_str(), rest[0].name.c_str(), rest[0].enclave.c_str());
  }
  for (int t = 0; t < NTOP; ++t) {
    for (int rd = 0; rd < 2; ++rd) {
      std::vector<sut::EpInfo> e;
      r = sut::info_by_topic(O.c, topic(t), rd, 0, nullptr, &e);
      if (!r.ok()) {violation("damaged", "info_by_topic fails after an update ran out of memory");}
      auto w = g.info(topic(t), rd, 0);
      std::string got, want;
      auto mask = [&](std::vector<sut::EpInfo> & l) {
          std::vector<sut::EpInfo> o;
          for (auto & i : l) {
            if (m.has_ep && m.reader == (rd != 0) && i.gid == m.ep) {continue;}
            // whose endpoint it is, is open while the participant's entry is
            auto it = g.eps(rd).find(i.gid);
            if (it != g.eps(rd).end() && it->second.part == m.part) {i.node = i.ns = "?";}
            o.push_back(i);
          }
          l.swap(o);
        };
      mask(e);
      mask(w);
      if (model::canon(e) != model::canon(w)) {
        violation("others-affected", "endpoints after an update ran out of memory: %s", diff(model::canon(e), model::canon(w)).c_str());
      }
    }
  }
  std::vector<sut::NodeName> dummy;
  std::string s;
  sut::dump(O.c, &s);
  sut::NT nt;
  sut::names_and_types(O.c, 0, nullptr, &nt);
  for (int k = 0; k < NNAMES; ++k) {
    for (int rd = 0; rd < 2; ++rd) {sut::by_node(O.c, node_name(k), node_ns(k), rd, 0, nullptr, &nt);}
  }
}
void expect_badalloc(const sut::Ret & r, const char * what)
{
  if (r.exc != 1) {violation("wrong-result", "%s failed with %s instead of a bad allocation", what, r.what.c_str());}
}
/// A discovery update under memory pressure; delivered again until it works.
void pressured(Oom & O, model::Graph & g, const Op & o, bool alone)
{
  set_op(o.id);
  model::Graph before = g;
  Mut m = mutate(O.c, nullptr, o, O.style);
  no_lock(o.code.c_str());
  if (!m.r.exc) {
    mutate(nullptr, &g, o, O.style);
    return;
  }
  expect_badalloc(m.r, o.code.c_str());
  count("probe.interrupted_update");
  if (alone) {check_others(O, m);}
  // the middleware delivers it again
  for (int k = 0; ; ++k) {
    if (k == 3) {
      NoFaultScope nf;
      Mut m2 = mutate(O.c, &g, o, O.style);
      if (m2.r.exc) {violation("unexpected-error", "%s fails with memory available: %s", o.code.c_str(), m2.r.what.c_str());}
      break;
    }
    Mut m2 = mutate(O.c, nullptr, o, O.style);
    no_lock(o.code.c_str());
    if (!m2.r.exc) {mutate(nullptr, &g, o, O.style); break;}
  }
  if (alone) {
    NoFaultScope nf;
    check_all(O.c, g, NTOP, NNAMES, 0, "not-restored", "after delivering an interrupted update again");
  }
}
void pressured_query(Oom & O, const Op & o, const model::Graph * g)
{
  set_op(o.id);
  sut::QAlloc q;
  Answer a = ask(O.c, o, &q);
  no_lock(qname(o));
  if (a.r.exc) {
    expect_badalloc(a.r, qname(o));
    count("probe.interrupted_query");
    return;
  }
  if (g && o.arg(0) != 5 && (a.r.ret == sut::OK || a.r.ret == sut::NODE_MISSING)) {expect_complete(*g, o, a, "under memory pressure");}
}
/// kind: 0 publisher, 1 subscription, 2 client, 3 service
struct LocalEp {i64 node; i64 kind;};
/// Operations on a local participant, directly or through the Context.
void local_op(Oom & O, const Op & o, std::set<i64> & nodes, std::map<i64, LocalEp> & eps, bool alone)
{
  set_op(o.id);
  i64 n = o.arg(0) % NNAMES, k = o.arg(1), kind = o.arg(2);
  bool ctx = o.arg(3) & 1 || kind >= 2;
  model::Graph & g = O.g;
  model::Graph after = g;
  std::string name = node_name(n), ns = node_ns(n);
  sut::Ret r;
  sut::PMsg msg;
  Gid e = ep_gid(20000 + k, O.style);
  enum {ADD, DEL, ASSOC, DISSOC} what;
  if (o.code == "node") {what = nodes.count(n) ? DEL : ADD;} else {what = eps.count(k) ? DISSOC : ASSOC;}
  if (what == DEL) {for (auto & x : eps) {if (x.second.node == n) {return;}}}
  if (what == ASSOC && !nodes.count(n)) {return;}
  if (what == DISSOC) {
    n = eps[k].node;
    kind = eps[k].kind;
    ctx |= kind >= 2;
    name = node_name(n);
    ns = node_ns(n);
  }
  bool reader = kind == 1 || kind == 3, second = kind >= 2;
  Gid e2 = ep_gid(20500 + k, O.style);
  switch (what) {
    case ADD: after.add_node(O.me, name, ns); break;
    case DEL: after.remove_node(O.me, name, ns); break;
    default:
      after.associate(e, O.me, name, ns, reader, what == ASSOC);
      if (second) {after.associate(e2, O.me, name, ns, !reader, what == ASSOC);}
  }
  if (ctx) {
    bool add = what == ADD || what == ASSOC;
    r = sut::ctx_op(O.x, what <= DEL ? sut::NODE : static_cast<sut::CtxOp>(kind + 1), add, e, e2, name, ns);
    if (!r.exc && r.ret != sut::OK) {violation("wrong-result", "a Context operation failed with %d", r.ret);}
  } else if (what == ADD) {
    r = sut::add_node(O.c, O.me, name, ns, &msg);
  } else if (what == DEL) {
    r = sut::remove_node(O.c, O.me, name, ns, &msg);
  } else {
    r = sut::associate(O.c, e, O.me, name, ns, reader, what == ASSOC, &msg);
  }
  no_lock("a local operation");
  if (!r.exc) {
    g.parts[O.me] = after.parts[O.me];
    if (what == ADD) {nodes.insert(n);}
    if (what == DEL) {nodes.erase(n);}
    if (what == ASSOC) {eps[k] = LocalEp{n, kind};}
    if (what == DISSOC) {eps.erase(k);}
    return;
  }
  expect_badalloc(r, "a local operation");
  count("probe.interrupted_local_operation");
  if (alone) {
    Mut m;
    m.part = O.me;
    check_others(O, m);
  }
  // restored by delivering the participant's state
  NoFaultScope nf;
  sut::Ret u = sut::update(O.c, g.message(O.me));
  if (u.exc) {violation("unexpected-error", "update fails with memory available: %s", u.what.c_str());}
  if (alone) {check_all(O.c, g, NTOP, NNAMES, 0, "not-restored", "after delivering the state of an interrupted participant");}
}
void run_update(Plan & p)
{
  Oom O(p);
  bool pressure = false;
  O.me = part_gid(9, O.style);
  O.x = sut::ctx_new(O.me);
  O.c = sut::ctx_cache(O.x);
  set_op(60000);
  auto exhausted = [&](const char * where) {
      if (decide(K_HARN, 0, [&](Rng & r) -> i64 {return r.chance(static_cast<double>(p.param("p_call")) / 1000);})) {
        note_fault(where);
        throw std::bad_alloc();
      }
    };
  sut::ctx_set_publish(O.x, [&](const sut::PMsg &) {sim::yield(); if (pressure && !no_fault) {exhausted("publish_runs_out_of_memory");} return 0;});
  if (p.param("callback")) {
    sut::set_callback(O.c, [&]() {if (pressure && !no_fault) {exhausted("change_callback_runs_out_of_memory");}});
  }
  sut::add_participant(O.c, O.me, enclave(13));
  O.g.add_participant(O.me, enclave(13));
  Churn life;
  long_life(p, O.c, O.g, O.me, O.style, life);
  fault_cfg.p_new = static_cast<double>(p.param("p_new")) / 1000;
  pressure = true;
  int tasks = static_cast<int>(p.param("tasks", 1));
  auto ops = by_task(p, tasks + 1);
  bool alone = tasks == 1;
  std::vector<int> ids;
  std::vector<model::Graph> gs(static_cast<size_t>(tasks + 1));
  std::set<i64> nodes;
  std::map<i64, LocalEp> eps;
  for (int t = 1; t <= tasks; ++t) {
    ids.push_back(spawn("task" + std::to_string(t), [&, t]() {
        model::Graph & g = alone ? O.g : gs[static_cast<size_t>(t)];
        for (auto & o : ops[static_cast<size_t>(t)]) {
          if (o.code == "q") {pressured_query(O, o, alone ? &O.g : nullptr);} else if (o.code == "node" || o.code == "loc") {
            local_op(O, o, nodes, eps, alone);
          } else {
            pressured(O, g, o, alone);
          }
        }
      }));
  }
  for (int id : ids) {join(id);}
  fault_cfg.p_new = 0;
  pressure = false;
  set_op(64000);
  for (auto & g : gs) {
    for (int rd = 0; rd < 2; ++rd) {for (auto & e : g.eps(rd)) {O.g.eps(rd).insert(e);}}
    for (auto & x : g.parts) {O.g.parts[x.first] = x.second;}
  }
  check_all(O.c, O.g, NTOP, NNAMES, 0, "not-restored", "with memory available again");
  sut::ctx_delete(O.x);
  if (live_blocks()) {violation("leak", "%llu blocks are still allocated at the end", static_cast<unsigned long long>(live_blocks()));}
}
void gen_update(Plan & p, Rng & r)
{
  p.params["style"] = static_cast<i64>(r.below(4));
  int tasks = r.below(3) == 0 ? 2 + static_cast<int>(r.below(2)) : 1;
  p.params["tasks"] = tasks;
  static const i64 ps[] = {10, 30, 100, 300};
  p.params["p_new"] = ps[r.below(4)];
  p.params["p_call"] = r.below(2) ? ps[r.below(4)] : 0;
  p.params["callback"] = static_cast<i64>(r.below(2));
  int n = 3 + static_cast<int>(r.below(18));
  if (tasks == 1 && r.below(25) == 0) {
    gen_muts(p, r, 1, 20 + static_cast<int>(r.below(60)), -1, true);
    p.params["p_new"] = ps[r.below(2)] / 10;
  }
  for (int i = 0; i < n; ++i) {
    int t = 1 + static_cast<int>(r.below(static_cast<u64>(tasks)));
    i64 part = tasks == 1 ? -1 : t - 1;
    switch (r.below(10)) {
      case 0: add_op(p, t, "q", {static_cast<i64>(r.below(6)), static_cast<i64>(r.below(NNAMES)), static_cast<i64>(r.below(2)), static_cast<i64>(r.below(2))}); break;
      case 1: case 2: add_op(p, 1, "node", {static_cast<i64>(r.below(4)), 0, 0, static_cast<i64>(r.below(2))}); break;
      case 3: case 4: add_op(p, 1, "loc", {static_cast<i64>(r.below(4)), static_cast<i64>(r.below(5)), static_cast<i64>(r.below(4)), static_cast<i64>(r.below(2))}); break;
      default: gen_muts(p, r, t, 1, part); break;
    }
  }
}
}  // namespace

extern const World kOomWorlds[] = {
  {"C07", "oom-query", 1, gen_query, run_query},
  {"C08", "oom-update", 1, gen_update, run_update},
};
