// World "cache": several caller threads on one GraphCache. Decides C05 and C06.
#include "worlds.h"
#include "util.h"
#include <algorithm>
#include <unordered_set>

using namespace sim;
using namespace util;
using model::Graph;

namespace
{
const int NT_ = 3;      // topics asked about
const int NN_ = 6;      // node names
const int NE_ = 8;      // endpoint numbers for the add/remove pool

/// Announcement content number `seed` of remote participant `part`.
sut::PMsg content(i64 part, i64 seed, i64 style)
{
  sut::PMsg m;
  m.gid = part_gid(part, style);
  if (seed <= 0) {return m;}
  Rng r(static_cast<u64>(seed) * 31337 + static_cast<u64>(part));
  std::vector<i64> names;
  for (int i = 0; i < NN_; ++i) {names.push_back(i);}
  size_t n = r.below(4);
  std::set<i64> used[2];
  if (seed >= 1500 && seed < 2000) {
    // some dozens of nodes (odd), or of endpoints of one node
    i64 many = 33 + static_cast<i64>(r.below(100)), from = 6 + seed % 7 * 20;
    for (i64 k = 0; k < (seed % 2 ? many : 1); ++k) {
      sut::NodeMsg nm;
      nm.name = node_name(from + k);
      nm.ns = node_ns(from + k);
      for (i64 e = 0; e < many && seed % 2 == 0; ++e) {(seed % 4 ? nm.readers : nm.writers).push_back(ep_gid(3000 + e, style));}
      m.nodes.push_back(nm);
    }
    return m;
  }
  if (seed >= 2000) {
    // more than a byte can count: nodes, or endpoints of one node
    i64 many = 256 + static_cast<i64>(r.below(3) ? r.below(60) : 0);
    for (i64 k = 0; k < (seed % 2 ? many : 1); ++k) {
      sut::NodeMsg nm;
      nm.name = node_name(6 + k);
      nm.ns = node_ns(6 + k);
      for (i64 e = 0; e < many && seed % 2 == 0; ++e) {(seed % 4 ? nm.readers : nm.writers).push_back(ep_gid(3000 + e, style));}
      m.nodes.push_back(nm);
    }
  }
  for (size_t k = 0; k < n; ++k) {
    size_t x = r.below(names.size());
    sut::NodeMsg nm;
    nm.name = node_name(names[x]);
    nm.ns = node_ns(names[x]);
    names.erase(names.begin() + static_cast<long>(x));
    for (int rd = 0; rd < 2; ++rd) {
      size_t c = r.below(3);
      for (size_t j = 0; j < c; ++j) {
        i64 e = static_cast<i64>(r.below(NE_));
        if (used[rd].insert(e).second) {(rd ? nm.readers : nm.writers).push_back(ep_gid(e, style));}
      }
    }
    m.nodes.push_back(nm);
  }
  return m;
}

struct Rec
{
  Op op;
  u64 inv = 0, ret = 0;
  bool done = false;
  std::string res;            // canonical observed result
  sut::NT nt;
  int task = 0;
  bool idle = false;          // known to change nothing, though it need not say so
  // callback accounting
  std::vector<int> cb_ids;    // invocations by the calling task during the operation
};
struct CbInstall {u64 inv, ret; int id;};  // id 0: cleared
struct Run
{
  Plan & p;
  i64 style;
  int demangle;
  sut::Cache * c;
  std::vector<Rec *> recs;
  std::map<int, Rec *> active;       // by task
  std::vector<CbInstall> ctl;
  int running_cb = 0;
  int cleared = 1;                   // no callback can be installed now
  int notified = 0;                  // for the watcher
  bool mutators_done = false;
  int cb_mode = 0;
  Churn life;
  // per task bookkeeping of preconditions
  struct Own {std::map<i64, std::set<std::pair<i64, int>>> nodes;};
  std::map<int, Own> own;
  explicit Run(Plan & pl)
  : p(pl) {}
};

bool is_bool_op(const std::string & c) {return c == "adde" || c == "reme" || c == "remp";}
bool is_mut(const std::string & c)
{
  return is_bool_op(c) || c == "upd" || c == "addp" || c == "addn" || c == "remn" || c == "assoc" || c == "diss";
}
model::Ep mk_ep(const Op & o, i64 style)
{
  model::Ep e;
  e.topic = topic(o.arg(1));
  e.type = type(o.arg(2));
  if (o.arg(7) < 2) {e.hash = hash(o.arg(3));}
  e.part = part_gid(o.arg(4), style);
  e.qos = qos(o.arg(5));
  return e;
}

/// The dump's layout is nobody's business, but what it mentions is: the topics with endpoints, the nodes,
/// and the gids of endpoints and participants, as the library prints them.
bool has_word(const std::string & s, const std::string & w)
{
  auto part = [](char ch) {return isalnum(static_cast<unsigned char>(ch)) || ch == '_' || ch == '/';};
  for (size_t i = s.find(w); i != std::string::npos; i = s.find(w, i + 1)) {
    if ((i == 0 || !part(s[i - 1])) && (i + w.size() == s.size() || !part(s[i + w.size()]))) {return true;}
  }
  return false;
}
typedef std::map<std::string, std::string> Words;   // what to look for, and how to call it
const Words * g_words;
Words words(i64 style, bool named)
{
  Words w;
  // not for names that might be part of the layout or of one another
  for (int i = 0; i < NT_ && named; ++i) {w[topic(i)] = topic(i);}
  for (int i = 0; i < NN_ && named; ++i) {w[node_name(i)] = node_name(i);}
  for (int i = 0; i < NE_ + 5; ++i) {
    std::string t;
    Gid g = i < NE_ ? ep_gid(i, style) : part_gid(i - NE_, style);
    sut::Ret r = sut::gid_text(g, &t);
    if (!r.ok()) {violation("unexpected-error", "printing a gid failed");}
    w["gid " + g.str()] = t;
  }
  return w;
}
std::string mentioned(const Words & all, const std::function<bool(const std::string &, const std::string &)> & has)
{
  std::string r;
  for (auto & w : all) {if (has(w.first, w.second)) {r += w.first + "\n";}}
  return r;
}
std::string mentioned(const Words & all, const Graph & g)
{
  std::set<std::string> in;
  for (int r = 0; r < 2; ++r) {
    for (auto & e : g.eps(r)) {
      in.insert(e.second.topic);
      in.insert("gid " + e.first.str());
    }
  }
  for (auto & p : g.parts) {
    in.insert("gid " + p.first.str());
    for (auto & n : p.second.nodes) {
      in.insert(n.name);
      for (auto & x : n.readers) {in.insert("gid " + x.str());}
      for (auto & x : n.writers) {in.insert("gid " + x.str());}
    }
  }
  return mentioned(all, [&](const std::string & w, const std::string &) {return in.count(w) > 0;});
}

/// Executes one operation against the real cache. Returns false if its precondition does not hold.
bool exec(Run & R, int task, const Op & o, Rec & rec)
{
  sut::Cache * c = R.c;
  i64 st = R.style;
  sut::Ret r;
  sut::PMsg m;
  auto want_ok = [&](const sut::Ret & x) {
      if (x.exc || x.ret != 0) {violation("unexpected-error", "%s failed: ret %d exception %d %s", o.code.c_str(), x.ret, x.exc, x.what.c_str());}
    };
  auto no_exc = [&](const sut::Ret & x) {
      if (x.exc) {violation("unexpected-error", "%s threw: %s", o.code.c_str(), x.what.c_str());}
    };
  Run::Own & own = R.own[task];
  // preconditions first (an operation must not start without them)
  i64 node = o.arg(0);
  if (o.code == "addn" && own.nodes.count(node)) {return false;}
  if ((o.code == "remn" || o.code == "assoc" || o.code == "diss") && !own.nodes.count(node)) {return false;}
  if (o.code == "assoc") {
    for (auto & x : own.nodes) {if (x.second.count({o.arg(1), static_cast<int>(o.arg(2))})) {return false;}}
  }
  // dissociating what is not associated changes nothing
  rec.idle = o.code == "diss" && !own.nodes[node].count({o.arg(1), static_cast<int>(o.arg(2))});
  set_op(o.id);
  rec.inv = seq();
  R.active[task] = &rec;
  const Gid local = part_gid(0, st);
  if (o.code == "adde") {
    model::Ep e = mk_ep(o, st);
    r = sut::add_entity(c, ep_gid(o.arg(0), st), e.topic, e.type, hash(o.arg(3)), e.part, e.qos, o.arg(6) & 1, static_cast<int>(o.arg(7)));
    no_exc(r);
    rec.res = r.ret ? "1" : "0";
  } else if (o.code == "reme") {
    r = sut::remove_entity(c, ep_gid(o.arg(0), st), o.arg(1) & 1, static_cast<int>(o.arg(2)));
    no_exc(r);
    rec.res = r.ret ? "1" : "0";
  } else if (o.code == "upd") {
    want_ok(sut::update(c, content(o.arg(0), o.arg(1), st)));
  } else if (o.code == "addp") {
    want_ok(sut::add_participant(c, part_gid(o.arg(0), st), enclave(o.arg(1))));
  } else if (o.code == "remp") {
    r = sut::remove_participant(c, part_gid(o.arg(0), st));
    no_exc(r);
    rec.res = r.ret ? "1" : "0";
  } else if (o.code == "addn") {
    want_ok(sut::add_node(c, local, node_name(node), node_ns(node), &m));
    own.nodes[node];
    rec.res = model::canon(m);
  } else if (o.code == "remn") {
    want_ok(sut::remove_node(c, local, node_name(node), node_ns(node), &m));
    own.nodes.erase(node);
    rec.res = model::canon(m);
  } else if (o.code == "assoc" || o.code == "diss") {
    bool add = o.code == "assoc";
    want_ok(sut::associate(c, ep_gid(o.arg(1), st), local, node_name(node), node_ns(node), o.arg(2) & 1, add, &m));
    if (add) {own.nodes[node].insert({o.arg(1), static_cast<int>(o.arg(2))});} else {own.nodes[node].erase({o.arg(1), static_cast<int>(o.arg(2))});}
    rec.res = model::canon(m);
  } else if (o.code == "qcnt") {
    size_t n;
    want_ok(sut::get_count(c, topic(o.arg(0)), o.arg(1) & 1, &n));
    rec.res = std::to_string(n);
  } else if (o.code == "qinfo") {
    std::vector<sut::EpInfo> v;
    want_ok(sut::info_by_topic(c, topic(o.arg(0)), o.arg(1) & 1, R.demangle, nullptr, &v));
    rec.res = model::canon(v);
  } else if (o.code == "qnt") {
    sut::NT nt;
    want_ok(sut::names_and_types(c, R.demangle, nullptr, &nt));
    rec.res = model::canon(nt);
  } else if (o.code == "qbn") {
    sut::NT nt;
    r = sut::by_node(c, node_name(o.arg(0)), node_ns(o.arg(0)), o.arg(1) & 1, R.demangle, nullptr, &nt);
    if (!r.exc && r.ret == sut::NODE_MISSING) {rec.res = "missing";} else {want_ok(r); rec.res = model::canon(nt);}
  } else if (o.code == "qnn") {
    size_t n;
    want_ok(sut::n_nodes(c, &n));
    rec.res = std::to_string(n);
  } else if (o.code == "qnames") {
    std::vector<sut::NodeName> v;
    want_ok(sut::node_names(c, o.arg(0) & 1, nullptr, &v));
    rec.res = model::canon(v, o.arg(0) & 1);
  } else if (o.code == "qdump") {
    std::string s;
    want_ok(sut::dump(c, &s));
    rec.res = mentioned(*g_words, [&](const std::string &, const std::string & t) {return has_word(s, t);});
  } else if (o.code == "cbset") {
    int id = static_cast<int>(o.id);
    CbInstall ci;
    ci.inv = rec.inv;
    ci.id = id;
    R.cleared = 0;
    Run * rp = &R;
    want_ok(sut::set_callback(c, [rp, id]() {
        Run & Q = *rp;
        if (Q.life.on) {++Q.life.calls; return;}
        Q.running_cb++;
        count("probe.callback_invoked");
        if (Q.cleared) {violation("notified-after-clear", "a change callback was invoked after clearing it had returned");}
        auto it = Q.active.find(self());
        if (it == Q.active.end() || !it->second) {
          violation("needless-notification", "a change callback was invoked outside of any operation on its graph");
        } else {
          it->second->cb_ids.push_back(id);
          for (auto & ci2 : Q.ctl) {
            if (ci2.ret < it->second->inv && ci2.id != id) {
              // a later installation which had returned before this operation began replaces `id`
              bool later = false;
              for (auto & ci3 : Q.ctl) {if (ci3.id == id && ci3.inv < ci2.inv) {later = true;}}
              if (later) {violation("replaced-callback", "a change callback was invoked for a change made after it had been replaced");}
            }
          }
        }
        if (Q.p.param("cb_yield")) {for (i64 k = 0; k < Q.p.param("cb_yield"); ++k) {sim::yield();}}
        Q.notified++;
        Q.running_cb--;
      }));
    ci.ret = seq();
    R.ctl.push_back(ci);
  } else if (o.code == "cbclr") {
    CbInstall ci;
    ci.inv = rec.inv;
    ci.id = 0;
    want_ok(sut::clear_callback(c));
    if (R.running_cb) {violation("callback-running", "clearing the change callback returned while the callback was running");}
    R.cleared = 1;
    ci.ret = seq();
    R.ctl.push_back(ci);
  } else {
    internal_error("unknown op %s", o.code.c_str());
  }
  R.active[task] = nullptr;
  rec.ret = seq();
  rec.done = true;
  rec.op = o;
  rec.task = task;
  ev_str(rec.res);
  trace("%s -> %s", o.code.c_str(), rec.res.c_str());
  return true;
}

/// Applies an operation to the model; false if the observed result is impossible in this state.
bool apply(Graph & g, const Rec & rec, i64 st, int demangle)
{
  const Op & o = rec.op;
  const Gid local = part_gid(0, st);
  i64 node = o.arg(0);
  if (o.code == "adde") {return (g.add_entity(ep_gid(o.arg(0), st), mk_ep(o, st), o.arg(6) & 1) ? "1" : "0") == rec.res;}
  if (o.code == "reme") {return (g.remove_entity(ep_gid(o.arg(0), st), o.arg(1) & 1) ? "1" : "0") == rec.res;}
  if (o.code == "upd") {g.update(content(o.arg(0), o.arg(1), st)); return true;}
  if (o.code == "addp") {g.add_participant(part_gid(o.arg(0), st), enclave(o.arg(1))); return true;}
  if (o.code == "remp") {return (g.remove_participant(part_gid(o.arg(0), st)) ? "1" : "0") == rec.res;}
  if (o.code == "addn") {g.add_node(local, node_name(node), node_ns(node)); return model::canon(g.message(local)) == rec.res;}
  if (o.code == "remn") {g.remove_node(local, node_name(node), node_ns(node)); return model::canon(g.message(local)) == rec.res;}
  if (o.code == "assoc" || o.code == "diss") {
    g.associate(ep_gid(o.arg(1), st), local, node_name(node), node_ns(node), o.arg(2) & 1, o.code == "assoc");
    return model::canon(g.message(local)) == rec.res;
  }
  if (o.code == "qcnt") {return std::to_string(g.count(topic(o.arg(0)), o.arg(1) & 1)) == rec.res;}
  if (o.code == "qinfo") {return model::canon(g.info(topic(o.arg(0)), o.arg(1) & 1, demangle)) == rec.res;}
  if (o.code == "qnt") {return model::canon(g.names(demangle)) == rec.res;}
  if (o.code == "qbn") {
    auto w = g.by_node(node_name(o.arg(0)), node_ns(o.arg(0)), o.arg(1) & 1, demangle);
    if (w.empty()) {return rec.res == "missing";}
    for (auto & x : w) {if (model::canon(x) == rec.res) {return true;}}
    return false;
  }
  if (o.code == "qnn") {return std::to_string(g.n_nodes()) == rec.res;}
  if (o.code == "qnames") {return model::canon(g.node_names(), o.arg(0) & 1) == rec.res;}
  if (o.code == "qdump") {return mentioned(*g_words, g) == rec.res;}
  return true;
}
std::string rec_text(const Rec & r)
{
  std::string s = "  task " + std::to_string(r.task) + " op " + std::to_string(r.op.id) + " " + r.op.code;
  for (auto a : r.op.a) {s += " " + std::to_string(a);}
  s += " [" + std::to_string(r.inv) + "," + std::to_string(r.ret) + "]";
  if (!r.res.empty()) {
    std::string x = r.res;
    for (auto & ch : x) {if (ch == '\n') {ch = ';';}}
    s += " = " + x;
  }
  return s + "\n";
}
struct Lin
{
  const std::vector<Rec *> & ops;
  i64 st;
  int dm;
  std::unordered_set<u64> seen;
  u64 nodes = 0;
  bool gave_up = false;
  bool dfs(u64 mask, const Graph & g)
  {
    if (mask == (ops.size() == 64 ? ~0ULL : (1ULL << ops.size()) - 1)) {return true;}
    if (++nodes > 300000) {gave_up = true; return true;}
    u64 min_ret = ~0ULL;
    for (size_t i = 0; i < ops.size(); ++i) {if (!(mask >> i & 1)) {min_ret = std::min(min_ret, ops[i]->ret);}}
    for (size_t i = 0; i < ops.size(); ++i) {
      if ((mask >> i & 1) || ops[i]->inv > min_ret) {continue;}
      Graph h = g;
      if (!apply(h, *ops[i], st, dm)) {continue;}
      u64 m2 = mask | 1ULL << i;
      if (!seen.insert(mix64(hash_str(h.key()) ^ mix64(m2))).second) {continue;}
      if (dfs(m2, h)) {return true;}
    }
    return false;
  }
};

void run(Plan & p)
{
  Run R(p);
  R.style = p.param("style");
  R.demangle = static_cast<int>(p.param("demangle"));
  R.cb_mode = static_cast<int>(p.param("cb_mode"));
  int nt = static_cast<int>(p.param("tasks", 2));
  bool watcher = p.param("watcher") != 0;
  Words all_words = words(R.style, !p.param("pool"));
  g_words = &all_words;
  {
    // a graph that existed before, possibly at the same address
    Run R0(p);
    R0.c = nullptr;
    R0.style = R.style;
    R0.demangle = R.demangle;
    Graph g;
    for (auto & o : p.ops) {
      if (o.task != 91) {continue;}
      Op x;
      x.id = 60300;
      x.code = "addp";
      x.a = {0, 1};
      Rec * r = new Rec;
      if (!R0.c) {
        set_op(60300);
        R0.c = sut::cache_new();
        if (exec(R0, 0, x, *r)) {apply(g, *r, R0.style, R0.demangle);}
        r = new Rec;
      }
      x = o;
      if (exec(R0, 0, x, *r) && !apply(g, *r, R0.style, R0.demangle)) {
        violation("wrong-answer", "sequential use of a graph gave an impossible answer:\n%s", rec_text(*r).c_str());
      }
    }
    if (R0.c) {sut::cache_delete(R0.c);}
  }
  R.c = sut::cache_new();
  auto ops = by_task(p, nt + 1);
  Graph base;
  {
    // the local participant always exists
    Rec * r = new Rec;
    Op o;
    o.id = 60000;
    o.code = "addp";
    o.a = {0, 1};
    exec(R, 0, o, *r);
    apply(base, *r, R.style, R.demangle);
  }
  auto prologue_check = [&](Rec & r) {
      if (!apply(base, r, R.style, R.demangle)) {
        violation("wrong-answer", "sequential use gave an impossible answer:\n%s", rec_text(r).c_str());
      }
    };
  const bool unwatched = p.param("churn") % 7 == 4;
  if (unwatched) {long_life(p, R.c, base, part_gid(0, R.style), R.style, R.life);}
  if (p.param("cb_mode") == 1) {
    // installed before anything happens and kept
    Rec * r = new Rec;
    Op o;
    o.id = 60001;
    o.code = "cbset";
    exec(R, 0, o, *r);
  }
  R.life.watched = R.cb_mode == 1;
  if (!unwatched) {long_life(p, R.c, base, part_gid(0, R.style), R.style, R.life);}
  for (auto & o : ops[0]) {
    Rec * r = new Rec;
    if (exec(R, 0, o, *r)) {
      prologue_check(*r);
      R.recs.push_back(r);
    }
  }
  size_t n_prologue = R.recs.size();
  // the prologue's local nodes are handed to task 1
  R.own[1] = R.own[0];
  std::vector<std::vector<Rec *>> per(static_cast<size_t>(nt) + 1);
  std::vector<int> ids;
  std::string watch_last;
  int wid = -1;
  for (int t = 1; t <= nt; ++t) {
    ids.push_back(spawn("caller" + std::to_string(t), [&, t]() {
        for (auto & o : ops[static_cast<size_t>(t)]) {
          Rec * r = new Rec;
          if (exec(R, self(), o, *r)) {
            r->task = t;
            per[static_cast<size_t>(t)].push_back(r);
          }
        }
      }));
    if (ids.back() != t) {internal_error("task numbering");}
  }
  auto observe = [&]() {
      std::vector<sut::NodeName> v;
      sut::NT ntv;
      std::vector<sut::EpInfo> inf;
      std::string s;
      sut::node_names(R.c, true, nullptr, &v);
      s = model::canon(v, true);
      sut::names_and_types(R.c, 0, nullptr, &ntv);
      s += model::canon(ntv);
      for (int t = 0; t < NT_; ++t) {
        for (int r = 0; r < 2; ++r) {
          sut::info_by_topic(R.c, topic(t), r, 0, nullptr, &inf);
          s += model::canon(inf);
        }
      }
      return s;
    };
  // a second graph of the same process, used by one thread only: every answer is determined
  Run R2(p);
  int twin = -1;
  std::vector<Op> twin_ops;
  for (auto & o : p.ops) {if (o.task == 90) {twin_ops.push_back(o);}}
  if (!twin_ops.empty()) {
    R2.style = R.style;
    R2.demangle = R.demangle;
    twin = spawn("other-graph", [&]() {
          set_op(60200);
          R2.c = sut::cache_new();
          Graph g;
          Op first;
          first.id = 60200;
          first.code = "addp";
          first.a = {0, 2};
          for (int k = -1; k < static_cast<int>(twin_ops.size()); ++k) {
            Rec * r = new Rec;
            if (!exec(R2, self(), k < 0 ? first : twin_ops[static_cast<size_t>(k)], *r)) {continue;}
            if (!apply(g, *r, R2.style, R2.demangle)) {
              violation("wrong-answer", "sequential use of another graph of the process gave an impossible answer:\n%s", rec_text(*r).c_str());
            }
          }
          set_op(60201);
          check_all(R2.c, g, NT_, NN_, 0, "wrong-answer", "another graph of the process, used by one thread");
          sut::cache_delete(R2.c);
        });
  }
  if (watcher) {
    wid = spawn("watcher", [&]() {
          int seen = 0;
          set_op(50000);
          watch_last = observe();
          for (int k = 1; ; ++k) {
            wait_until([&]() {return R.notified != seen || R.mutators_done;}, "a change notification");
            if (R.notified == seen) {break;}
            seen = R.notified;
            set_op(50000 + k);
            watch_last = observe();
          }
        });
  }
  for (int id : ids) {join(id);}
  if (twin >= 0) {join(twin);}
  R.mutators_done = true;
  if (watcher) {join(wid);}
  set_op(60100);
  if (watcher && R.cb_mode == 1) {
    std::string fin = observe();
    if (fin != watch_last) {
      violation("missed-notification", "a thread that queried after every notification ended with a stale graph: %s",
        diff(watch_last, fin).c_str());
    }
  }
  // final queries, in sequence after everything else
  std::vector<Rec *> all;
  for (auto & v : per) {for (Rec * r : v) {all.push_back(r);}}
  int id = 61000;
  auto final_q = [&](const std::string & code, const std::vector<i64> & a) {
      Rec * r = new Rec;
      Op o;
      o.id = id++;
      o.code = code;
      o.a = a;
      exec(R, 0, o, *r);
      all.push_back(r);
    };
  final_q("qnames", {1});
  final_q("qdump", {1});
  final_q("qnt", {});
  for (i64 t = 0; t < NT_; ++t) {for (i64 r = 0; r < 2; ++r) {final_q("qinfo", {t, r});}}
  final_q("qnn", {});
  for (i64 k = 0; k < NN_; ++k) {for (i64 r = 0; r < 2; ++r) {final_q("qbn", {k, r});}}
  {
    // exact membership of both endpoint maps
    for (i64 t = 0; t < NT_; ++t) {for (i64 r = 0; r < 2; ++r) {final_q("qcnt", {t, r});}}
  }
  // what the callbacks did, operation by operation
  for (Rec * r : all) {
    if (!is_mut(r->op.code)) {
      if (!r->cb_ids.empty()) {violation("needless-notification", "a query or callback installation invoked the change callback:\n%s", rec_text(*r).c_str());}
      continue;
    }
    if (is_bool_op(r->op.code) && r->res == "0") {
      if (!r->cb_ids.empty()) {violation("needless-notification", "an operation that reported no change invoked the change callback:\n%s", rec_text(*r).c_str());}
      continue;
    }
    // which installation is certainly in force during [inv, ret]
    const CbInstall * in = nullptr;
    bool overlap = false;
    for (auto & c : R.ctl) {
      if (c.ret < r->inv) {in = &c;} else if (c.inv < r->ret) {overlap = true;}
    }
    if (overlap) {continue;}
    count("probe.callback_accounted");
    if (!in || in->id == 0) {
      if (!r->cb_ids.empty()) {violation("notified-after-clear", "an operation without an installed callback invoked one:\n%s", rec_text(*r).c_str());}
      continue;
    }
    bool certain = is_bool_op(r->op.code) || r->op.code == "addn" || r->op.code == "remn" || r->op.code == "assoc" || r->op.code == "diss";
    if (r->op.code == "upd" || r->op.code == "addp") {
      // a change unless another operation may already have put the same content there
      int same = 0;
      for (auto & o : p.ops) {
        if (o.code != r->op.code || o.arg(0) != r->op.arg(0) || o.task >= 90) {continue;}
        bool eq = o.code == "upd" ? content(o.arg(0), o.arg(1), R.style).str() == content(r->op.arg(0), r->op.arg(1), R.style).str() :
          enclave(o.arg(1)) == enclave(r->op.arg(1));
        same += eq;
      }
      bool dflt = r->op.code == "upd" ? content(r->op.arg(0), r->op.arg(1), R.style).nodes.empty() : enclave(r->op.arg(1)).empty();
      certain = same <= 1 && !dflt && r->op.arg(0) != 0;
    }
    if (certain && !r->idle && r->cb_ids.empty()) {
      violation("missing-notification", "an operation changed the graph without invoking the installed callback:\n%s", rec_text(*r).c_str());
    }
    for (int c : r->cb_ids) {
      if (c != in->id) {violation("replaced-callback", "an operation invoked a callback that is not the installed one:\n%s", rec_text(*r).c_str());}
    }
  }
  // linearizability
  std::sort(all.begin(), all.end(), [](Rec * a, Rec * b) {return a->inv < b->inv;});
  std::vector<Rec *> h;
  for (Rec * r : all) {if (r->op.code != "cbset" && r->op.code != "cbclr") {h.push_back(r);}}
  if (h.size() > 60) {internal_error("history too long");}
  Lin lin{h, R.style, R.demangle, {}, 0, false};
  count("probe.linearizability_nodes", 1);
  if (!lin.dfs(0, base)) {
    std::string s;
    for (size_t i = 0; i < n_prologue; ++i) {s += rec_text(*R.recs[i]);}
    s += " -- concurrent --\n";
    for (Rec * r : h) {s += rec_text(*r);}
    violation("not-linearizable", "no sequential order explains this history:\n%s", s.c_str());
  }
  if (lin.gave_up) {count("probe.linearizability_gave_up");}
  set_op(62000);
  sut::cache_delete(R.c);
  if (live_blocks()) {violation("leak", "%llu blocks of the library are still allocated after destroying the graph", static_cast<unsigned long long>(live_blocks()));}
}

void rand_op(Plan & p, Rng & r, int task, bool mut_only, int q_weight)
{
  i64 b = static_cast<i64>(r.below(2));
  u64 x = r.below(100);
  if (!mut_only && x < static_cast<u64>(q_weight)) {
    switch (r.below(8)) {
      case 0: add_op(p, task, "qcnt", {static_cast<i64>(r.below(NT_)), b}); break;
      case 1: case 2: add_op(p, task, "qinfo", {static_cast<i64>(r.below(NT_)), b}); break;
      case 3: add_op(p, task, "qnt", {}); break;
      case 4: add_op(p, task, "qbn", {static_cast<i64>(r.below(NN_)), b}); break;
      case 5: add_op(p, task, "qnn", {}); break;
      case 6: add_op(p, task, "qnames", {b}); break;
      default: add_op(p, task, r.below(5) ? "qdump" : "qnames", {1}); break;
    }
    return;
  }
  i64 ep = static_cast<i64>(r.below(static_cast<u64>(p.param("eps", 4))));
  // endpoints associated by different tasks must differ (task 0 hands its nodes over to task 1)
  i64 grp = task == 0 ? 1 : task;
  i64 own_ep = grp <= 4 && r.below(2) ? grp - 1 : 8 + 4 * grp + static_cast<i64>(r.below(2));
  i64 own_node = task <= 1 ? static_cast<i64>(r.below(2)) : 1 + task;
  switch (r.below(11)) {
    case 0: case 1: case 2: {
        i64 e = r.below(3) ? ep : own_ep;
        add_op(p, task, "adde", {e, static_cast<i64>(r.below(NT_)), static_cast<i64>(r.below(4)), static_cast<i64>(r.below(5)),
            static_cast<i64>(r.below(3)), static_cast<i64>(r.below(r.below(2) ? 6 : 60)), b, static_cast<i64>(r.below(4))});
        break;
      }
    case 3: case 4: add_op(p, task, "reme", {r.below(3) ? ep : own_ep, b, static_cast<i64>(r.below(2))}); break;
    case 5: case 6: add_op(p, task, "upd", {1 + static_cast<i64>(r.below(2)), static_cast<i64>(r.below(r.below(2) ? 6 : 1000))}); break;
    case 7: add_op(p, task, r.below(2) ? "addp" : "remp", {1 + static_cast<i64>(r.below(2)), static_cast<i64>(r.below(5))}); break;
    case 8: add_op(p, task, r.below(3) ? "addn" : "remn", {own_node}); break;
    default: {
        add_op(p, task, r.below(3) ? "assoc" : "diss", {own_node, own_ep, b});
        break;
      }
  }
}
void gen_common(Plan & p, Rng & r, bool c06)
{
  p.params["style"] = static_cast<i64>(r.below(4));
  p.params["demangle"] = static_cast<i64>(r.below(2));
  int nt = 2 + static_cast<int>(r.below(r.below(3) ? 2 : 4));
  p.params["tasks"] = nt;
  bool large = r.below(30) == 0;
  p.params["eps"] = large ? 20 + static_cast<i64>(r.below(30)) : 1 + static_cast<i64>(r.below(6));
  p.params["cb_mode"] = c06 ? (r.below(2) ? 1 : 2) : (r.below(2) ? 1 : 0);
  p.params["watcher"] = c06 && p.params["cb_mode"] == 1 ? 1 : 0;
  p.params["cb_yield"] = static_cast<i64>(r.below(3));
  // prologue: some state to start from
  int pro = static_cast<int>(large ? 60 + r.below(60) : r.below(10));
  if (r.below(250) == 0) {pro += 300 + static_cast<int>(r.below(700));}   // a long life before
  for (int i = 0; i < pro; ++i) {rand_op(p, r, 0, true, 0);}
  if (r.below(700) == 0) {
    // more than a byte can count
    p.params["crowd"] = 1;
    i64 many = 256 + static_cast<i64>(r.below(3) ? r.below(60) : 0), b = static_cast<i64>(r.below(2)), tp = static_cast<i64>(r.below(NT_));
    switch (r.below(5)) {
      case 4:   // participants
        for (i64 k = 0; k < many; ++k) {
          if (r.below(2)) {add_op(p, 0, "addp", {200 + k, static_cast<i64>(r.below(5))});}
          add_op(p, 0, "upd", {200 + k, 1 + static_cast<i64>(r.below(5))});
        }
        for (int k = 0; k < 4; ++k) {add_op(p, static_cast<int>(r.below(3)), "remp", {200 + static_cast<i64>(r.below(static_cast<u64>(many)))});}
        break;
      case 0: for (i64 k = 0; k < many; ++k) {add_op(p, 0, "adde", {3000 + k, tp, static_cast<i64>(r.below(4)), 0, 1 + static_cast<i64>(r.below(2)), 0, b, 0});} break;
      case 1: for (i64 k = 0; k < many; ++k) {add_op(p, 0, "addn", {20 + k});} break;
      case 2: add_op(p, 0, "addn", {0}); for (i64 k = 0; k < many; ++k) {add_op(p, 0, "assoc", {0, 3000 + k, b});} break;
      default: add_op(p, static_cast<int>(r.below(2)), "upd", {1 + static_cast<i64>(r.below(2)), 2000 + static_cast<i64>(r.below(100))}); break;
    }
  }
  if (r.below(10) == 0 && pro < 60 && !p.params.count("crowd")) {
    // an earlier graph at the same address went through much the same
    p.params["reuse"] = 1;
    size_t n = r.below(9);
    for (size_t i = 0; i < n; ++i) {rand_op(p, r, 0, false, 60);}
    auto first = p.ops;
    for (auto & o : first) {
      if (r.below(14) == 0) {continue;}
      Op x = o;
      size_t from = x.code == "addp" || x.code == "remp" || x.code == "upd";
      if (r.below(3) == 0 && x.a.size() > from) {x.a[from + r.below(x.a.size() - from)] = static_cast<i64>(r.below(2));}
      add_op(p, 91, x.code, x.a);
    }
    if (r.below(3) == 0) {add_op(p, 91, "cbset", {});}
  }
  if (r.below(40) == 0 && p.params["cb_mode"] != 2 && !p.params.count("crowd") && !p.params.count("churn")) {
    // a graph of some size, which one or two tasks change a lot at once while others look at all of it
    const i64 many = 33 + static_cast<i64>(r.below(100)), b = static_cast<i64>(r.below(2)), tp = static_cast<i64>(r.below(NT_));
    const i64 pa = 1 + static_cast<i64>(r.below(2));
    const u64 kind = r.below(4);
    p.params["mid"] = 1;
    auto mid = [&](u64 odd) {return 1500 + 2 * static_cast<i64>(r.below(200)) + static_cast<i64>(odd);};
    if (kind == 1 || kind == 2) {
      for (i64 k = 0; k < many; ++k) {add_op(p, 0, "adde", {3000 + k, tp, static_cast<i64>(r.below(4)), 0, pa, 0, b, 0});}
    }
    if (kind == 3) {for (i64 k = 0; k < many; ++k) {add_op(p, 0, "upd", {200 + k, 1 + static_cast<i64>(r.below(5))});}}
    if (kind == 0) {add_op(p, 0, "upd", {pa, mid(1)});}
    for (int t = 1; t <= 2; ++t) {
      for (size_t k = 1 + r.below(3); k; --k) {
        switch (kind) {
          case 0: add_op(p, t == 1 ? 1 : 2, r.below(8) ? "upd" : "remp", {r.below(4) ? pa : 3 - pa, mid(1)}); break;
          case 1: add_op(p, t, "upd", {pa, r.below(3) ? (mid(0) & ~3) + (b ? 2 : 0) : 1 + static_cast<i64>(r.below(5))}); break;
          case 2:
            if (r.below(2)) {
              add_op(p, t, "reme", {3000 + static_cast<i64>(r.below(static_cast<u64>(many))), b, static_cast<i64>(r.below(2))});
            } else {
              add_op(p, t, "adde", {3000 + many + 10 * t + static_cast<i64>(k), tp, static_cast<i64>(r.below(4)), 0, pa, 0, b, 0});
            }
            break;
          default: add_op(p, t, r.below(3) ? "upd" : "remp", {200 + static_cast<i64>(r.below(static_cast<u64>(many))), 1 + static_cast<i64>(r.below(5))}); break;
        }
        if (t == 2 && r.below(2)) {p.ops.pop_back();}
      }
    }
    for (size_t k = 1 + r.below(4); k; --k) {
      const int t = 2 + static_cast<int>(r.below(static_cast<u64>(nt > 2 ? nt - 1 : 1)));
      switch (kind == 0 || kind == 3 ? r.below(3) : 3 + r.below(3)) {
        case 0: case 1: add_op(p, t, "qnames", {b}); break;
        case 2: add_op(p, t, "qnn", {}); break;
        case 3: if (r.below(2)) {add_op(p, t, "qcnt", {tp, b});} else {add_op(p, t, "qnt", {});} break;
        default: add_op(p, t, "qinfo", {tp, b}); break;
      }
    }
    return;
  }
  int total = c06 ? 4 + static_cast<int>(r.below(12)) : 3 + static_cast<int>(r.below(11));
  int qw = c06 ? 5 : 20 + static_cast<int>(r.below(60));
  // in some runs the tasks mostly work on their own nodes, and every such operation has an effect
  const bool local = r.below(5) == 0;
  typedef std::map<i64, std::set<std::pair<i64, i64>>> Own;
  std::map<int, Own> own;
  auto follow = [&](const Op & o) {
      Own & w = own[o.task ? o.task : 1];
      if (o.code == "addn") {w[o.arg(0)];}
      if (o.code == "remn") {w.erase(o.arg(0));}
      if (!w.count(o.arg(0))) {return;}
      if (o.code == "assoc") {w[o.arg(0)].insert({o.arg(1), o.arg(2)});}
      if (o.code == "diss") {w[o.arg(0)].erase({o.arg(1), o.arg(2)});}
    };
  if (local) {
    for (auto & o : p.ops) {if (o.task == 0) {follow(o);}}
    qw = static_cast<int>(r.below(40));
  }
  auto local_op = [&](int t) {
      Own & w = own[t];
      i64 n = t <= 1 ? static_cast<i64>(r.below(2)) : 1 + t;
      if (!w.count(n)) {
        add_op(p, t, "addn", {n});
      } else if (!w[n].empty() && r.below(2)) {
        auto it = w[n].begin();
        std::advance(it, static_cast<i64>(r.below(w[n].size())));
        add_op(p, t, "diss", {n, it->first, it->second});
      } else if (r.below(3)) {
        i64 e = t <= 4 && r.below(2) ? t - 1 : 8 + 4 * t + static_cast<i64>(r.below(2)), b = static_cast<i64>(r.below(2));
        for (auto & x : w) {if (x.second.count({e, b})) {return;}}
        add_op(p, t, "assoc", {n, e, b});
      } else {
        add_op(p, t, "remn", {n});
      }
      follow(p.ops.back());
    };
  for (int i = 0; i < total; ++i) {
    int t = 1 + static_cast<int>(r.below(static_cast<u64>(nt)));
    if (p.params["cb_mode"] == 2 && t == 1) {
      add_op(p, 1, r.below(2) ? "cbset" : "cbclr", {});
      continue;
    }
    if (local && r.below(100) >= static_cast<u64>(qw)) {
      local_op(t);
      continue;
    }
    rand_op(p, r, t, false, local ? 100 : qw);
    if (r.below(3) == 0) {
      // the same operation by another task: contention on the same object
      Op o = p.ops.back();
      int t2 = 1 + static_cast<int>(r.below(static_cast<u64>(nt)));
      if (o.code[0] == 'q' || o.code == "adde" || o.code == "reme" || o.code == "upd" || o.code == "addp" || o.code == "remp") {
        if (!(p.params["cb_mode"] == 2 && t2 == 1)) {add_op(p, t2, o.code, o.a);}
      }
    }
  }
  if (r.below(8) == 0) {
    size_t n = 1 + r.below(8);
    for (size_t i = 0; i < n; ++i) {
      if (c06 && r.below(4) == 0) {
        add_op(p, 90, r.below(3) ? "cbset" : "cbclr", {});
      } else {
        rand_op(p, r, 5, false, 30);
        p.ops.back().task = 90;
      }
    }
  }
  if (p.params["cb_mode"] == 2) {
    bool any = false;
    for (auto & o : p.ops) {any |= o.code == "cbset" && o.task < 90;}
    if (!any) {add_op(p, 1, "cbset", {}); add_op(p, 1, "cbclr", {});}
  }
}
void gen_c05(Plan & p, Rng & r) {gen_common(p, r, false);}
void gen_c06(Plan & p, Rng & r) {gen_common(p, r, true);}
}  // namespace

extern const World kCacheWorlds[] = {
  {"C05", "cache", 1, gen_c05, run},
  {"C06", "cache-callback", 1, gen_c06, run},
};
