// World "ctx": application threads of one participant on one Context.
// Decides C03, C04, C11 and C12.
#include "worlds.h"
#include "util.h"
#include <algorithm>

using namespace sim;
using namespace util;

namespace
{
enum {PROP_SERIAL, PROP_FAIL, PROP_DUP, PROP_STALL, PROP_NOTIFY};
const int NTOP = 6;
const int NNAMES = 10;
const char * kCodes[] = {"node", "pub", "sub", "client", "service"};

struct Endpoint
{
  int kind = 0;            // CtxOp
  Gid a, b;                // see sut::ctx_op
  i64 topic = 0, type = 0;
  i64 node = 0;            // node slot
};
struct NodeInst {i64 name = 0; bool shared = false;};
struct Slots
{
  std::map<i64, NodeInst> nodes;
  std::map<i64, Endpoint> eps;
};
struct Active
{
  int op = -1;             // operation identity; -1: none
  sut::CtxOp kind;
  bool add;
  Gid a, b;
  std::string name, ns;
  int publishes = 0;
  int outcome = 0;         // of the publish
  int notified = 0;        // change notifications it caused
};

struct Ctxt
{
  Plan & p;
  int mode_prop;
  i64 style;
  sut::Ctx * x = nullptr;
  sut::Cache * c = nullptr;
  sut::Ctx * peer = nullptr;        // intra-process peer (C12)
  Gid me;
  model::Graph g;                   // serial reference: our participant and everything added to the cache
  std::map<int, Active> act;        // by task
  std::map<int, Slots> slots;
  Slots shared;                     // nodes usable by every task
  int in_publish = 0;
  u64 n_pub = 0;
  bool merged = false;
  int pub_mode = 0;                 // 0: works, 1: no publisher, 2: no function, 3: neither
  std::string last_ok;              // canonical form of the last accepted announcement
  bool last_is_current = true;      // no failed removal since then
  i64 p_refuse = 0, p_stall = 0;
  bool watched = false;             // a change callback is installed from the beginning to the end
  int notified = 0;
  bool apps_done = false;
  bool churning = false;            // thousands of operations of one thread, checked summarily
  u64 churn_pubs = 0;
  size_t churn_nodes = 0, churn_gids = 0;   // what the next announcement lists
  explicit Ctxt(Plan & pl)
  : p(pl), mode_prop(0), style(0) {}
};

std::string mcanon(Ctxt & C, const sut::PMsg & m) {return C.merged ? model::canon_merged(m) : model::canon(m);}

void model_apply(model::Graph & g, const Gid & me, const Active & a)
{
  switch (a.kind) {
    case sut::NODE:
      if (a.add) {g.add_node(me, a.name, a.ns);} else {g.remove_node(me, a.name, a.ns);}
      break;
    case sut::PUBLISHER: g.associate(a.a, me, a.name, a.ns, false, a.add); break;
    case sut::SUBSCRIPTION: g.associate(a.a, me, a.name, a.ns, true, a.add); break;
    case sut::CLIENT:
      g.associate(a.a, me, a.name, a.ns, false, a.add);
      g.associate(a.b, me, a.name, a.ns, true, a.add);
      break;
    default:
      g.associate(a.a, me, a.name, a.ns, true, a.add);
      g.associate(a.b, me, a.name, a.ns, false, a.add);
      break;
  }
}

/// The simulated middleware: every announcement of the participant passes here.
int on_publish(Ctxt & C, const sut::PMsg & m)
{
  if (C.churning) {
    size_t n = 0;
    for (auto & x : m.nodes) {n += x.readers.size() + x.writers.size();}
    if (m.gid != C.me || m.nodes.size() != C.churn_nodes || n != C.churn_gids) {
      violation("wrong-announcement", "an announcement lists %zu nodes and %zu endpoints, expected %zu and %zu", m.nodes.size(), n, C.churn_nodes, C.churn_gids);
    }
    ++C.churn_pubs;
    return 0;
  }
  C.n_pub++;
  if (C.in_publish) {violation("overlapping-announcements", "an announcement was handed over while another one was in progress");}
  C.in_publish++;
  auto it = C.act.find(self());
  if (it == C.act.end() || it->second.op < 0) {violation("stray-announcement", "an announcement was made outside of any operation");}
  Active & a = it->second;
  if (a.publishes++) {violation("second-announcement", "one operation made more than one announcement");}
  if (m.gid != C.me) {violation("wrong-announcement", "announcement carries participant %s", m.gid.str().c_str());}
  // exactly the previous state plus this operation
  model::Graph want = C.g;
  model_apply(want, C.me, a);
  std::string w = mcanon(C, want.message(C.me)), got = mcanon(C, m);
  ev_str(got);
  trace("publish %s", got.c_str());
  if (w != got) {
    violation("wrong-announcement", "the announcement of %s %s of %s%s is not the previous state plus that operation: %s",
      a.add ? "creation" : "destruction", kCodes[a.kind], a.ns.c_str(), a.name.c_str(), diff(got, w).c_str());
  }
  if (C.p.param("query_in_publish") && (m.nodes.size() + C.n_pub) % 2 == 0) {
    // the publish function itself may look at the graph
    u64 t0 = now();
    size_t n = 0;
    sut::Ret r = sut::n_nodes(C.c, &n);
    std::vector<sut::NodeName> v;
    sut::Ret r2 = sut::node_names(C.c, true, nullptr, &v);
    if (!r.ok() || !r2.ok()) {violation("wrong-answer", "a query from within the publish function failed");}
    if (now() != t0 && !C.p.param("slow")) {violation("blocked", "a query from within the publish function waited");}
    count("probe.query_from_publish_function");
  }
  int outcome = static_cast<int>(decide(K_PUB, 0, [&](Rng & r) -> i64 {
        if (!r.chance(static_cast<double>(C.p_refuse) / 1000)) {return 0;}
        static const int v[] = {1, 2, 10, 3};
        return v[r.below(4)];
      }));
  i64 stall = decide(K_STALL, 0, [&](Rng & r) -> i64 {
        if (!r.chance(static_cast<double>(C.p_stall) / 1000)) {return 0;}
        static const i64 v[] = {1, 1000000, 1000000000, 3600000000000LL, 86400000000000LL};
        return v[r.below(5)];
      });
  if (C.peer) {
    // same-process delivery: the peer's cache is updated by the publishing thread
    sut::Ret r = sut::update(sut::ctx_cache(C.peer), m);
    if (!r.ok()) {violation("unexpected-error", "update of the peer failed");}
  }
  if (stall) {note_fault("publish_stalled"); sleep_ns(static_cast<u64>(stall));} else {sim::yield();}
  if (outcome) {note_fault("announcement_refused");}
  a.outcome = outcome;
  // the serial history goes on from here
  // (the rest of the model may have moved on in the meantime)
  if (!outcome || !a.add) {model_apply(C.g, C.me, a);}
  if (!outcome) {
    C.last_ok = got;
    C.last_is_current = true;
  } else if (!a.add) {
    C.last_is_current = false;
  }
  C.in_publish--;
  return outcome;
}

/// One Context operation with its contract. Returns whether it reported success.
bool ctx_call(Ctxt & C, int op, sut::CtxOp kind, bool add, const Gid & a, const Gid & b, i64 name)
{
  Active & A = C.act[self()];
  A = Active();
  A.op = op;
  A.kind = kind;
  A.add = add;
  A.a = a;
  A.b = b;
  A.name = node_name(name);
  A.ns = node_ns(name);
  trace("%s %s %s", add ? "create" : "destroy", kCodes[kind], A.name.c_str());
  sut::Ret r = sut::ctx_op(C.x, kind, add, a, b, A.name, A.ns);
  if (r.exc) {violation("unexpected-error", "a Context operation threw: %s", r.what.c_str());}
  bool can = C.pub_mode == 0;
  if (can && A.publishes != 1) {
    violation("lost-announcement", "%s %s made no announcement", add ? "creating" : "destroying", kCodes[kind]);
  }
  if (!can && !A.add) {
    // nobody heard of it, but it happened
    model_apply(C.g, C.me, A);
    C.last_is_current = false;
  }
  bool want_ok = can && A.outcome == 0;
  if ((r.ret == sut::OK) != want_ok) {
    violation("wrong-result", "%s %s reported %d although its announcement %s", add ? "creating" : "destroying",
      kCodes[kind], r.ret, want_ok ? "succeeded" : "failed");
  }
  if (C.watched && (want_ok || !add) && !A.notified) {
    violation("missing-notification", "%s %s changed the graph without invoking the installed callback", add ? "creating" : "destroying", kCodes[kind]);
  }
  if (!want_ok) {count(add ? "probe.failed_creation" : "probe.failed_destruction");}
  A.op = -1;
  ev(static_cast<u64>(op), static_cast<u64>(r.ret));
  return r.ret == sut::OK;
}

/// How one endpoint is reported: node|ns, "" when it is not reported at all.
std::string attribution(Ctxt & C, const Gid & gid, i64 top, bool reader)
{
  std::vector<sut::EpInfo> v;
  sut::Ret r = sut::info_by_topic(C.c, topic(top), reader, 0, nullptr, &v);
  if (!r.ok()) {violation("wrong-answer", "info_by_topic failed with %d", r.ret);}
  std::string s;
  int n = 0;
  for (auto & e : v) {if (e.gid == gid) {s = e.ns + "|" + e.node; ++n;}}
  if (n > 1) {violation("wrong-answer", "an endpoint is reported %d times", n);}
  return n ? s : "";
}
const std::string kUnknown = "_NODE_NAMESPACE_UNKNOWN_|_NODE_NAME_UNKNOWN_";

void expect_attr(Ctxt & C, const Endpoint & e, bool second, bool listed, const char * when, const char * cls)
{
  bool reader = e.kind == sut::SUBSCRIPTION || (e.kind == sut::CLIENT && second) || (e.kind == sut::SERVICE && !second);
  const Gid & g = second ? e.b : e.a;
  std::string got = attribution(C, g, e.topic, reader);
  std::string want = listed ? node_ns(e.node) + "|" + node_name(e.node) : kUnknown;
  if (got != want) {
    violation(cls, "%s: the %s %s of a %s is reported as belonging to '%s', expected '%s'", when, second ? "second" : "first",
      reader ? "reader" : "writer", kCodes[e.kind], got.c_str(), want.c_str());
  }
}
void cache_ep(Ctxt & C, const Endpoint & e, bool add)
{
  for (int k = 0; k < (e.kind >= sut::CLIENT ? 2 : 1); ++k) {
    bool reader = e.kind == sut::SUBSCRIPTION || (e.kind == sut::CLIENT && k) || (e.kind == sut::SERVICE && !k);
    const Gid & g = k ? e.b : e.a;
    model::Ep m;
    m.topic = topic(e.topic);
    m.type = type(e.type);
    m.part = C.me;
    m.qos = qos(e.type);
    m.hash = hash(e.type);
    sut::Ret r;
    if (add) {
      r = sut::add_entity(C.c, g, m.topic, m.type, m.hash, m.part, m.qos, reader, 0);
      C.g.add_entity(g, m, reader);
    } else {
      r = sut::remove_entity(C.c, g, reader, 0);
      C.g.remove_entity(g, reader);
    }
    if (r.exc || r.ret != 1) {violation("wrong-answer", "%s a new endpoint reported %d", add ? "adding" : "removing", r.ret);}
  }
}

void destroy_ep(Ctxt & C, int op, Slots & S, i64 slot)
{
  auto it = S.eps.find(slot);
  if (it == S.eps.end()) {return;}
  Endpoint e = it->second;
  S.eps.erase(it);
  const bool gone_first = op % 3 == 0;   // the middleware's removal of the endpoint may come first or last
  if (gone_first) {cache_ep(C, e, false);}
  const char * cls = C.mode_prop == PROP_DUP ? "wrong-attribution" : "not-removed";
  ctx_call(C, op, static_cast<sut::CtxOp>(e.kind), false, e.a, e.b, e.node);
  if (gone_first) {return;}
  expect_attr(C, e, false, false, "after destroying", cls);
  if (e.kind >= sut::CLIENT) {expect_attr(C, e, true, false, "after destroying", cls);}
  cache_ep(C, e, false);
}

void app_op(Ctxt & C, const Op & o, int app)
{
  set_op(o.id);
  Slots & S = C.slots[app];
  i64 slot = o.arg(1);
  if (o.code == "cn") {
    if (S.nodes.count(slot)) {return;}
    NodeInst n;
    n.name = o.arg(2);
    if (ctx_call(C, o.id, sut::NODE, true, Gid(), Gid(), n.name)) {S.nodes[slot] = n;}
  } else if (o.code == "dn") {
    if (!S.nodes.count(slot)) {return;}
    // as the middleware requires: its endpoints go first
    std::vector<i64> mine;
    for (auto & e : S.eps) {if (e.first / 10000 == slot) {mine.push_back(e.first);}}
    for (i64 e : mine) {destroy_ep(C, o.id, S, e);}
    i64 name = S.nodes[slot].name;
    S.nodes.erase(slot);
    ctx_call(C, o.id, sut::NODE, false, Gid(), Gid(), name);
  } else if (o.code == "ce") {
    // create endpoint: slot = node slot, arg2 = endpoint slot, arg3 = kind, arg4 = topic, arg5 = type
    i64 es = slot * 10000 + o.arg(2);
    NodeInst n;
    if (slot >= 1000) {
      if (!C.shared.nodes.count(slot)) {return;}
      n = C.shared.nodes[slot];
    } else {
      if (!S.nodes.count(slot)) {return;}
      n = S.nodes[slot];
    }
    if (S.eps.count(es)) {return;}
    Endpoint e;
    e.kind = static_cast<int>(std::min<i64>(4, std::max<i64>(1, o.arg(3))));
    e.a = ep_gid(2 * o.id, C.style);
    e.b = ep_gid(2 * o.id + 1, C.style);
    e.topic = o.arg(4);
    e.type = o.arg(5);
    e.node = n.name;
    const bool late = o.arg(6) != 0;   // discovered after having been associated with its node
    if (!late) {cache_ep(C, e, true);}
    bool ok = ctx_call(C, o.id, static_cast<sut::CtxOp>(e.kind), true, e.a, e.b, n.name);
    if (late) {cache_ep(C, e, true);}
    const char * cls = C.mode_prop == PROP_DUP ? "wrong-attribution" : "not-rolled-back";
    expect_attr(C, e, false, ok, ok ? "after creating" : "after a failed creation", cls);
    if (e.kind >= sut::CLIENT) {expect_attr(C, e, true, ok, ok ? "after creating" : "after a failed creation", cls);}
    if (ok) {S.eps[es] = e;} else {cache_ep(C, e, false);}
  } else if (o.code == "de") {
    destroy_ep(C, o.id, S, slot * 10000 + o.arg(2));
  } else {
    internal_error("unknown op %s", o.code.c_str());
  }
}

// ---------------------------------------------------------------- readers and listeners
void reader_op(Ctxt & C, const Op & o)
{
  set_op(o.id);
  u64 t0 = now();
  sut::Ret r;
  size_t n = 0;
  std::vector<sut::NodeName> v;
  std::vector<sut::EpInfo> inf;
  sut::NT nt;
  bool has_ret = true;
  i64 k = o.arg(1);
  // each reader has remote participants of its own
  const i64 rb = o.task % 2;
  const Gid remote = part_gid(5 + 3 * rb + o.arg(2) % 3, C.style);
  switch (k % 12) {
    case 0: r = sut::n_nodes(C.c, &n); break;
    case 1: r = sut::node_names(C.c, o.arg(2) & 1, nullptr, &v); break;
    case 2: r = sut::names_and_types(C.c, 1, nullptr, &nt); break;
    case 3: r = sut::info_by_topic(C.c, topic(o.arg(2) % NTOP), o.arg(3) & 1, 0, nullptr, &inf); break;
    case 4: r = sut::by_node(C.c, node_name(o.arg(2) % NNAMES), node_ns(o.arg(2) % NNAMES), o.arg(3) & 1, 0, nullptr, &nt);
      if (!r.exc && r.ret == sut::NODE_MISSING) {r.ret = 0;}
      break;
    case 5: r = sut::get_count(C.c, topic(o.arg(2) % NTOP), o.arg(3) & 1, &n); break;
    case 6: r = sut::add_participant(C.c, remote, enclave(o.arg(3) % 4)); C.g.add_participant(remote, enclave(o.arg(3) % 4)); break;
    case 7: {
        sut::PMsg m;
        m.gid = remote;
        for (i64 i = 0; i < o.arg(3) % 3; ++i) {
          sut::NodeMsg nm;
          nm.name = "remote_node_" + std::to_string(i);
          nm.ns = "/remote";
          nm.writers.push_back(ep_gid(40000 + 100 * rb + 10 * (o.arg(2) % 3) + i, C.style));
          m.nodes.push_back(nm);
        }
        r = sut::update(C.c, m);
        C.g.update(m);
        break;
      }
    case 8: {
        model::Ep e;
        e.topic = topic(o.arg(3) % NTOP);
        e.type = type(0);
        e.part = remote;
        Gid g = ep_gid(40000 + 100 * rb + 10 * (o.arg(2) % 3) + o.arg(3) % 3, C.style);
        r = sut::add_entity(C.c, g, e.topic, e.type, e.hash, e.part, e.qos, false, 0);
        C.g.add_entity(g, e, false);
        has_ret = false;
        break;
      }
    case 9: {
        Gid g = ep_gid(40000 + 100 * rb + 10 * (o.arg(2) % 3) + o.arg(3) % 3, C.style);
        r = sut::remove_entity(C.c, g, false, 1);
        C.g.remove_entity(g, false);
        has_ret = false;
        break;
      }
    case 10: r = sut::remove_participant(C.c, remote); C.g.remove_participant(remote); has_ret = false; break;
    default: {std::string s; r = sut::dump(C.c, &s); break;}
  }
  if (r.exc || (has_ret && r.ret)) {violation("unexpected-error", "a query or discovery update failed: %d %s", r.ret, r.what.c_str());}
  if (now() != t0 && !C.p.param("slow")) {
    violation("blocked", "%s waited %llu ns for a stalled announcement", k % 12 < 6 || k % 12 == 11 ? "a query" : "a discovery update",
      static_cast<unsigned long long>(now() - t0));
  }
  if (C.in_publish) {count("probe.read_during_announcement");}
}

void want_ok_cb(const sut::Ret & r) {if (r.exc || r.ret) {violation("unexpected-error", "installing the change callback failed");}}
/// What a thread woken by the change callback looks at.
std::string observe(Ctxt & C)
{
  std::vector<sut::NodeName> v;
  sut::NT ntv;
  std::vector<sut::EpInfo> inf;
  sut::node_names(C.c, true, nullptr, &v);
  std::string s = model::canon(v, true);
  sut::names_and_types(C.c, 0, nullptr, &ntv);
  s += model::canon(ntv);
  for (i64 t = 0; t < NTOP; ++t) {
    for (int r = 0; r < 2; ++r) {
      sut::info_by_topic(C.c, topic(t), r, 0, nullptr, &inf);
      s += model::canon(inf);
    }
  }
  return s;
}

void quiescent_check(Ctxt & C, const char * when)
{
  set_op(64000);
  check_all(C.c, C.g, NTOP, NNAMES, 0, C.mode_prop == PROP_DUP ? "wrong-attribution" : C.mode_prop == PROP_FAIL ? "not-rolled-back" : "lost-operation", when, C.merged);
}

/// A long life before the run proper: more operations than 16 bits can count, by one thread.
void churn(Ctxt & C, u64 n)
{
  set_op(63050);
  const u64 how = n % 4;
  const i64 name = 45;
  C.churning = true;
  C.churn_nodes = C.churn_gids = 0;
  for (auto & x : C.g.message(C.me).nodes) {++C.churn_nodes; C.churn_gids += x.readers.size() + x.writers.size();}
  u64 calls = 0;
  auto call = [&](sut::CtxOp kind, bool add, const Gid & a, const Gid & b) {
      ++calls;
      const size_t d = kind == sut::NODE ? 0 : kind >= sut::CLIENT ? 2 : 1;
      if (kind == sut::NODE) {C.churn_nodes += add ? 1 : static_cast<size_t>(-1);}
      C.churn_gids += add ? d : 0 - d;
      const int seen = C.notified;
      sut::Ret x = sut::ctx_op(C.x, kind, add, a, b, node_name(name), node_ns(name));
      if (C.watched && C.notified == seen) {violation("missing-notification", "change %llu of a long life did not invoke the installed callback", static_cast<unsigned long long>(calls));}
      if (!x.ok()) {violation("wrong-result", "operation %llu of a long life failed with %d", static_cast<unsigned long long>(calls), x.ret);}
      if (C.churn_pubs != calls) {violation("lost-announcement", "%llu operations made %llu announcements", static_cast<unsigned long long>(calls), static_cast<unsigned long long>(C.churn_pubs));}
    };
  if (how) {call(sut::NODE, true, Gid(), Gid());}
  for (u64 k = 0; k < n; ++k) {
    // fresh gids, or the same again and again
    const Gid a = ep_gid(how == 1 ? 2 : static_cast<i64>(500000 + 2 * k), C.style), b = ep_gid(how == 1 ? 3 : static_cast<i64>(500001 + 2 * k), C.style);
    const sut::CtxOp kind = how == 0 ? sut::NODE : how == 3 ? sut::SERVICE : static_cast<sut::CtxOp>(1 + k % 2);
    call(kind, true, a, b);
    call(kind, false, a, b);
  }
  if (how) {call(sut::NODE, false, Gid(), Gid());}
  C.churning = false;
  count("probe.long_life", calls);
}

void run(Plan & p)
{
  Ctxt C(p);
  C.mode_prop = p.prop == "C03" ? PROP_SERIAL : p.prop == "C04" ? PROP_FAIL : p.prop == "C11" ? PROP_DUP : p.prop == "C06" ? PROP_NOTIFY : PROP_STALL;
  C.merged = p.param("dup") != 0;
  C.style = p.param("style");
  C.p_refuse = p.param("p_refuse");
  C.p_stall = p.param("p_stall");
  C.me = part_gid(0, C.style);
  if (p.param("before")) {
    // a context that existed before, possibly at the same address
    set_op(60300);
    Rng r(static_cast<u64>(p.param("before")));
    sut::Ctx * x = sut::ctx_new(C.me);
    sut::add_participant(sut::ctx_cache(x), C.me, enclave(2));
    u64 sent = 0;
    sut::ctx_set_publish(x, [&sent](const sut::PMsg &) {++sent; return 0;});
    u64 n = 1 + r.below(3), made = 0;
    i64 like = 0;   // its first node is one the other context is going to have
    for (auto & o : p.ops) {
      if (o.code == "cn") {
        like = o.arg(2);
        break;
      }
    }
    for (u64 k = 0; k < n; ++k) {
      i64 at = k ? 20 + static_cast<i64>(k) : like;
      const sut::CtxOp kind = static_cast<sut::CtxOp>(1 + r.below(2));
      Gid e = ep_gid(static_cast<i64>(k), C.style);
      ++made;
      bool ok = sut::ctx_op(x, sut::NODE, true, Gid(), Gid(), node_name(at), node_ns(at)).ret == sut::OK;
      if (r.below(2)) {
        if (!ok) {violation("wrong-result", "an operation of an earlier context failed");}
        continue;
      }
      ++made;
      ok = sut::ctx_op(x, kind, true, e, Gid(), node_name(at), node_ns(at)).ret == sut::OK && ok;
      if (r.below(2)) {
        made += 2;
        ok = sut::ctx_op(x, kind, false, e, Gid(), node_name(at), node_ns(at)).ret == sut::OK && ok;
        ok = sut::ctx_op(x, sut::NODE, false, Gid(), Gid(), node_name(at), node_ns(at)).ret == sut::OK && ok;
      }
      if (!ok) {violation("wrong-result", "an operation of an earlier context failed");}
    }
    if (sent != made) {violation("lost-announcement", "%llu operations of an earlier context made %llu announcements", static_cast<unsigned long long>(made), static_cast<unsigned long long>(sent));}
    sut::ctx_delete(x);
  }
  C.x = sut::ctx_new(C.me);
  C.c = sut::ctx_cache(C.x);
  int apps = static_cast<int>(p.param("apps", 2)), readers = static_cast<int>(p.param("readers"));
  int phases = static_cast<int>(p.param("phases", 1));
  Ctxt P(p);   // the intra-process peer, if any
  sut::ctx_set_publish(C.x, [&C](const sut::PMsg & m) {return on_publish(C, m);});
  sut::add_participant(C.c, C.me, enclave(1));
  C.g.add_participant(C.me, enclave(1));
  const bool coupled = p.param("peer") == 1, twin = p.param("peer") == 2;   // twin: another participant of the same process
  if (p.param("peer")) {
    P.mode_prop = C.mode_prop;
    P.style = C.style;
    P.merged = C.merged;
    P.p_refuse = C.p_refuse;
    P.p_stall = C.p_stall;
    P.me = part_gid(1, C.style);
    P.x = sut::ctx_new(P.me);
    P.c = sut::ctx_cache(P.x);
    sut::ctx_set_publish(P.x, [&P](const sut::PMsg & m) {return on_publish(P, m);});
    sut::add_participant(P.c, P.me, enclave(2));
    P.g.add_participant(P.me, enclave(2));
    if (coupled) {
      P.peer = C.x;
      C.peer = P.x;
    }
  }
  if (p.param("change_cb")) {
    Ctxt * cp = &C;
    sut::set_callback(C.c, [cp]() {count("probe.callback_invoked"); sim::yield(); (void)cp;});
  }
  if (p.param("watch")) {
    C.watched = true;
    Ctxt * cp = &C;
    want_ok_cb(sut::set_callback(C.c, [cp]() {
        count("probe.callback_invoked");
        auto it = cp->act.find(self());
        if (it != cp->act.end() && it->second.op >= 0) {it->second.notified++;}
        for (i64 k = 0; k < cp->p.param("cb_yield"); ++k) {sim::yield();}
        cp->notified++;
      }));
  }
  // nodes shared by all threads
  i64 save_refuse = C.p_refuse, save_stall = C.p_stall;
  C.p_refuse = C.p_stall = 0;
  set_op(63000);
  for (i64 k = 0; k < p.param("shared_nodes"); ++k) {
    NodeInst n;
    n.name = C.merged ? k % 2 : k < 2 ? 7 + k : 28 + k;
    n.shared = true;
    if (ctx_call(C, 63000, sut::NODE, true, Gid(), Gid(), n.name)) {C.shared.nodes[1000 + k] = n;}
  }
  if (p.param("churn")) {churn(C, static_cast<u64>(p.param("churn")));}
  C.p_refuse = save_refuse;
  C.p_stall = save_stall;
  auto ops = by_task(p, apps + readers + 1);
  int peer_app = p.param("peer") ? apps : 0;     // the last application thread works on the peer
  std::string watch_last;
  int wid = -1;
  if (C.watched) {
    wid = spawn("watcher", [&]() {
          int seen = 0;
          set_op(50000);
          watch_last = observe(C);
          for (int k = 1; ; ++k) {
            wait_until([&]() {return C.notified != seen || C.apps_done;}, "a change notification");
            if (C.notified == seen) {break;}
            seen = C.notified;
            set_op(50000 + k);
            watch_last = observe(C);
          }
        });
  }
  for (int ph = 0; ph < phases; ++ph) {
    C.pub_mode = static_cast<int>(p.param("p_mode" + std::to_string(ph)));
    set_op(63100 + ph);
    sut::ctx_set_pub(C.x, !(C.pub_mode & 1), !(C.pub_mode & 2));
    if (C.pub_mode) {note_fault(C.pub_mode == 1 ? "no_publisher" : C.pub_mode == 2 ? "no_publish_function" : "no_publisher_and_no_function");}
    std::vector<int> ids;
    for (int t = 1; t <= apps + readers; ++t) {
      bool app = t <= apps;
      ids.push_back(spawn(app ? "app" + std::to_string(t) : "reader" + std::to_string(t), [&, t, ph, app]() {
          for (auto & o : ops[static_cast<size_t>(t)]) {
            if (o.arg(0) != ph) {continue;}
            if (app) {app_op(t == peer_app ? P : C, o, t);} else {reader_op(C, o);}
          }
        }));
    }
    for (int id : ids) {join(id);}
    if (C.in_publish) {violation("lost-announcement", "an announcement never returned");}
    if (!coupled) {quiescent_check(C, "when all operations had returned");}
    if (twin) {quiescent_check(P, "when all operations on the other participant of the process had returned");}
    if (C.last_is_current && !C.last_ok.empty()) {
      std::string w = mcanon(C, C.g.message(C.me));
      if (C.last_ok != w) {violation("lost-operation", "the last announcement is not the final state: %s", diff(C.last_ok, w).c_str());}
    }
  }
  if (C.watched) {
    C.apps_done = true;
    join(wid);
    set_op(60100);
    std::string fin = observe(C);
    if (fin != watch_last) {
      violation("missed-notification", "a thread that queried after every notification ended with a stale graph: %s", diff(watch_last, fin).c_str());
    }
  }
  // recovery: the next successful announcement is complete
  C.pub_mode = 0;
  C.p_refuse = C.p_stall = 0;
  set_op(63200);
  sut::ctx_set_pub(C.x, true, true);
  if (!ctx_call(C, 63200, sut::NODE, true, Gid(), Gid(), 9)) {violation("wrong-result", "an operation failed although announcing works");}
  if (!coupled) {quiescent_check(C, "after the next successful announcement");}
  if (coupled) {
    // each sees what the other announced last
    for (int k = 0; k < 2; ++k) {
      Ctxt & A = k ? P : C, & B = k ? C : P;
      if (!A.last_is_current || A.last_ok.empty()) {continue;}
      std::vector<sut::NodeName> v;
      sut::node_names(B.c, false, nullptr, &v);
      std::set<std::string> have;
      for (auto & n : v) {have.insert(n.ns + "|" + n.name);}
      for (auto & n : A.g.message(A.me).nodes) {
        if (!have.count(n.ns + "|" + n.name)) {violation("lost-operation", "the same-process peer does not see node %s", n.name.c_str());}
      }
    }
  }
  set_op(64001);
  sut::ctx_delete(C.x);
  if (P.x) {sut::ctx_delete(P.x);}
  if (live_blocks()) {violation("leak", "%llu blocks of the library are still allocated at the end", static_cast<unsigned long long>(live_blocks()));}
}

// ---------------------------------------------------------------- generation
void gen_app(Plan & p, Rng & r, int phase, int t, bool dup, int n)
{
  // node names: private ones differ between threads unless `dup`
  for (int i = 0; i < n; ++i) {
    i64 slot = static_cast<i64>(r.below(dup ? 4 : 2));
    // 0 and 2 differ in the namespace only, 0 and 1 in the name; see also the other pools of names
    static const i64 few[4][4] = {{0, 0, 1, 2}, {3, 3, 4, 0}, {0, 0, 5, 2}, {4, 4, 3, 1}};
    i64 name = dup ? few[p.param("few")][r.below(4)] : (t - 1) * 2 + slot;
    if (!dup && t > 3) {name = 10 + (t - 3) * 2 + slot;}
    i64 nslot = r.below(3) == 0 && p.param("shared_nodes") ? 1000 + static_cast<i64>(r.below(static_cast<u64>(p.param("shared_nodes")))) : slot;
    switch (r.below(8)) {
      case 0: case 1: add_op(p, t, "cn", {phase, slot, name}); break;
      case 2: add_op(p, t, "dn", {phase, slot}); break;
      case 3: case 4: case 5:
        add_op(p, t, "ce", {phase, nslot, static_cast<i64>(r.below(3)), 1 + static_cast<i64>(r.below(4)), static_cast<i64>(r.below(NTOP)), static_cast<i64>(r.below(4)), r.below(3) == 0});
        break;
      default: add_op(p, t, "de", {phase, nslot, static_cast<i64>(r.below(3))}); break;
    }
    if (i == 0) {p.ops.back().code = "cn"; p.ops.back().a = {phase, slot, name};}
  }
}
void gen_readers(Plan & p, Rng & r, int phase, int first, int readers, int n)
{
  for (int t = first; t < first + readers; ++t) {
    for (int i = 0; i < n; ++i) {
      add_op(p, t, "r", {phase, static_cast<i64>(r.below(12)), static_cast<i64>(r.below(12)), static_cast<i64>(r.below(12))});
    }
  }
}
void gen(Plan & p, Rng & r, int prop)
{
  p.params["style"] = static_cast<i64>(r.below(4));
  p.params["change_cb"] = static_cast<i64>(r.below(2));
  int apps = 1 + static_cast<int>(r.below(4)), readers = 0, phases = 1;
  p.params["shared_nodes"] = static_cast<i64>(r.below(3));
  switch (prop) {
    case PROP_SERIAL:
      apps = 2 + static_cast<int>(r.below(3));
      p.params["p_refuse"] = r.below(3) ? 0 : static_cast<i64>(r.below(300));
      readers = static_cast<int>(r.below(2));
      p.params["query_in_publish"] = static_cast<i64>(r.below(2));
      break;
    case PROP_FAIL:
      phases = 1 + static_cast<int>(r.below(3));
      p.params["p_refuse"] = 50 + static_cast<i64>(r.below(700));
      for (int i = 0; i < phases; ++i) {p.params["p_mode" + std::to_string(i)] = r.below(3) ? 0 : static_cast<i64>(r.below(4));}
      readers = static_cast<int>(r.below(2));
      break;
    case PROP_DUP:
      p.params["dup"] = 1;
      p.params["few"] = r.below(2) ? 0 : static_cast<i64>(r.below(4));
      p.params["shared_nodes"] = static_cast<i64>(r.below(4));
      apps = 1 + static_cast<int>(r.below(3));
      p.params["p_refuse"] = r.below(2) ? 0 : static_cast<i64>(r.below(400));
      phases = 1 + static_cast<int>(r.below(2));
      break;
    case PROP_NOTIFY:
      p.params["p_refuse"] = r.below(3) ? 200 + static_cast<i64>(r.below(600)) : 0;
      for (int i = 0; i < phases; ++i) {p.params["p_mode" + std::to_string(i)] = r.below(4) ? 0 : static_cast<i64>(r.below(4));}
      readers = static_cast<int>(r.below(2));
      break;
    default:
      p.params["p_stall"] = 100 + static_cast<i64>(r.below(900));
      p.params["p_refuse"] = r.below(3) ? 0 : 100;
      readers = 1 + static_cast<int>(r.below(2));
      p.params["query_in_publish"] = static_cast<i64>(r.below(2));
      p.params["peer"] = apps >= 2 && r.below(4) == 0;
      break;
  }
  if (prop != PROP_STALL && r.below(6) == 0) {p.params["p_stall"] = 20 + static_cast<i64>(r.below(300));}
  if (prop == PROP_NOTIFY) {
    p.params["change_cb"] = 0;
    p.params["watch"] = 1;
    p.params["cb_yield"] = static_cast<i64>(r.below(3));
  } else if (prop != PROP_STALL && apps >= 2 && r.below(6) == 0) {
    p.params["peer"] = 2;
  }
  p.params["apps"] = apps;
  if (r.below(10) == 0) {
    p.params["reuse"] = 1;
    p.params["before"] = 1 + static_cast<i64>(r.below(100000));
  }
  p.params["readers"] = readers;
  p.params["phases"] = phases;
  if (prop != PROP_NOTIFY && r.below(14) == 0) {
    // a participant of many nodes, or of many endpoints
    p.params["shared_nodes"] = 1 + static_cast<i64>(r.below(24));
    size_t n = r.below(2) ? r.below(60) : r.below(10);
    if (r.below(20) == 0) {n += 80 + r.below(120);}
    const bool crowd = r.below(100) == 0;   // more than a byte can count
    if (crowd) {
      p.params["crowd"] = 1;
      if (r.below(2)) {p.params["shared_nodes"] = 256 + static_cast<i64>(r.below(3) ? r.below(60) : 0);} else {n = 256 + (r.below(3) ? r.below(60) : 0);}
    }
    i64 one = 1000 + static_cast<i64>(r.below(static_cast<u64>(p.params["shared_nodes"])));
    bool same = crowd || r.below(2);
    i64 kind = crowd ? 1 + static_cast<i64>(r.below(2)) : static_cast<i64>(r.below(5));
    for (size_t k = 0; k < n; ++k) {
      i64 node = same ? one : 1000 + static_cast<i64>(r.below(static_cast<u64>(p.params["shared_nodes"])));
      add_op(p, 1, "ce", {0, node, 10 + static_cast<i64>(k), kind ? kind : 1 + static_cast<i64>(r.below(4)), static_cast<i64>(r.below(NTOP)), static_cast<i64>(r.below(4))});
      if (!crowd && r.below(3) == 0) {add_op(p, 1, "de", {0, node, 10 + static_cast<i64>(r.below(k + 1))});}
    }
  }
  for (int ph = 0; ph < phases; ++ph) {
    for (int t = 1; t <= apps; ++t) {gen_app(p, r, ph, t, prop == PROP_DUP, 1 + static_cast<int>(r.below(prop == PROP_DUP ? 9 : 6)));}
    gen_readers(p, r, ph, apps + 1, readers, 1 + static_cast<int>(r.below(7)));
  }
}
void gen_c03(Plan & p, Rng & r) {gen(p, r, PROP_SERIAL);}
void gen_c04(Plan & p, Rng & r) {gen(p, r, PROP_FAIL);}
void gen_c11(Plan & p, Rng & r) {gen(p, r, PROP_DUP);}
void gen_c06(Plan & p, Rng & r) {gen(p, r, PROP_NOTIFY);}
void gen_c12(Plan & p, Rng & r) {gen(p, r, PROP_STALL);}
}  // namespace

extern const World kCtxWorlds[] = {
  {"C03", "ctx-serial", 1, gen_c03, run},
  {"C04", "ctx-fail", 1, gen_c04, run},
  {"C11", "ctx-samename", 1, gen_c11, run},
  {"C06", "ctx-callback", 1, gen_c06, run},
  {"C12", "ctx-stall", 1, gen_c12, run},
};
