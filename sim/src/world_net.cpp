// World "net": participants in several processes, connected by a simulated DDS network.
// Decides C01, C02, C09 and C10.
#include "worlds.h"
#include "util.h"
#include <algorithm>
#include <deque>
#include <memory>

using namespace sim;
using namespace util;

namespace
{
const int NTOP = 6;
const int NNAMES = 16;         // 0..9 used by applications, 10.. by the closing announcements
const u64 NEVER = ~0ULL;
const u64 MS = 1000000ULL, SEC = 1000000000ULL;

enum EvKind {EV_PART, EV_EP_ADD, EV_EP_DEL, EV_ANN, EV_LEFT};
struct Ev
{
  int kind = 0;
  u64 ready = 0;
  Gid gid;                     // endpoint
  bool reader = false;
  model::Ep ep;
  sut::PMsg msg;
};
/// What one graph was told about one endpoint or participant, with the window of each telling.
struct NodesAt {u64 b, e; bool present; std::vector<sut::NodeMsg> nodes;};
struct EnclAt {u64 b, e; bool present; std::string enclave;};
struct EpAt {u64 b, e; bool present; model::Ep ep;};
template<typename T>
std::vector<const T *> candidates(const std::vector<T> & v, u64 qb, u64 qe)
{
  std::vector<const T *> out;
  for (size_t i = 0; i < v.size(); ++i) {
    if (v[i].b < qe && (i + 1 == v.size() || v[i + 1].e > qb)) {out.push_back(&v[i]);}
  }
  return out;
}
struct Proc;
struct Link
{
  Proc * src = nullptr, * dst = nullptr;
  bool connected = false;
  std::deque<Ev> q[4];         // participant, writers, readers, announcements
  int busy = 0;
  bool removing = false, discovering = false;
  u64 down_since = 0;          // the destination hears nothing since then (0: it does)
  u64 lease = 0;
  std::vector<NodesAt> nodes;
  std::vector<EnclAt> encl;
  std::map<std::pair<Gid, bool>, std::vector<EpAt>> eps;
  bool known() const {return nodes.back().present || encl.back().present;}
};
struct NodeRef {i64 name;};
struct Endpoint {int kind; Gid a, b; i64 topic, type, node;};
struct AppState {std::map<i64, i64> nodes; std::map<i64, Endpoint> eps;};
struct Active {bool on = false; sut::CtxOp kind; bool add; Gid a, b; std::string name, ns; int publishes = 0, outcome = 0;};
struct Proc
{
  int slot, inc, index;
  Gid gid;
  std::string enclave;
  sut::Ctx * x = nullptr;
  sut::Cache * c = nullptr;
  bool alive = true;
  model::Graph truth;                               // own nodes and associations
  std::map<std::pair<Gid, bool>, model::Ep> eps;    // endpoints that exist in DDS
  bool has_ann = false;
  sut::PMsg ann;
  std::vector<int> tasks, apps;
  u64 events = 0;              // it has begun to process
  std::map<int, Active> act;
  std::map<int, AppState> state;
};
struct Net
{
  Plan & p;
  i64 style;
  bool calm = false, stop = false;
  bool chk_names = false, chk_eps = false, chk_final = false;
  bool ghost = false;
  u64 lease, max_delay;
  i64 p_refuse, p_stall, p_delay, p_dup, p_supersede;
  std::vector<std::unique_ptr<Proc>> procs;
  std::vector<std::unique_ptr<Link>> links;
  std::set<std::pair<int, int>> cut;                // partitioned slots
  std::vector<std::vector<Op>> ops;
  int nproc_tasks = 0;
  explicit Net(Plan & pl)
  : p(pl), style(pl.param("style")), lease(0), max_delay(0), p_refuse(0), p_stall(0), p_delay(0), p_dup(0), p_supersede(0) {}
  bool is_cut(int a, int b) const {return cut.count({std::min(a, b), std::max(a, b)}) > 0;}
  Proc * live(int slot)
  {
    for (auto & x : procs) {if (x->alive && x->slot == slot) {return x.get();}}
    return nullptr;
  }
  Proc * by_gid(const Gid & part)
  {
    for (auto & x : procs) {if (x->gid == part) {return x.get();}}
    return nullptr;
  }
};

// ---------------------------------------------------------------- the network
u64 draw_delay(Net & N)
{
  if (N.calm) {return 1;}
  i64 d = decide(K_NET, 0, [&](Rng & r) -> i64 {
        if (!r.chance(static_cast<double>(N.p_delay) / 1000)) {return 0;}
        u64 cap = r.below(3) == 0 ? N.max_delay : r.below(2) ? 20 * MS : 50000;
        return 1 + static_cast<i64>(r.below(cap));
      });
  if (d > 0) {note_fault("message_delayed");}
  return static_cast<u64>(d);
}
void enqueue(Net & N, Link & l, int qi, Ev e)
{
  e.ready = now() + draw_delay(N);
  auto & q = l.q[qi];
  if (!q.empty()) {e.ready = std::max(e.ready, q.back().ready);}
  q.push_back(std::move(e));
}
void enqueue_ann(Net & N, Link & l, const sut::PMsg & m)
{
  auto & q = l.q[3];
  if (!q.empty() && !N.calm) {
    // keep-last history of one sample: an announcement not yet received is lost to the newer one
    if (decide(K_HARN, 0, [&](Rng & r) -> i64 {return r.chance(static_cast<double>(N.p_supersede) / 1000);})) {
      q.clear();
      note_fault("announcement_lost_to_newer");
    }
  }
  Ev e;
  e.kind = EV_ANN;
  e.msg = m;
  enqueue(N, l, 3, e);
  if (!N.calm && decide(K_HARN, 0, [&](Rng & r) -> i64 {return r.chance(static_cast<double>(N.p_dup) / 1000);})) {
    note_fault("announcement_duplicated");
    enqueue(N, l, 3, e);
  }
}
void enqueue_ep(Net & N, Link & l, const Gid & g, bool reader, const model::Ep & ep, bool add)
{
  Ev e;
  e.kind = add ? EV_EP_ADD : EV_EP_DEL;
  e.gid = g;
  e.reader = reader;
  e.ep = ep;
  enqueue(N, l, reader ? 2 : 1, e);
  if (!N.calm && decide(K_HARN, 0, [&](Rng & r) -> i64 {return r.chance(static_cast<double>(N.p_dup) / 2000);})) {
    note_fault("endpoint_discovery_repeated");
    enqueue(N, l, reader ? 2 : 1, e);
  }
}
void connect(Net & N, Link & l)
{
  l.connected = true;
  l.down_since = 0;
  for (auto & q : l.q) {q.clear();}
  if (l.src != l.dst) {
    Ev e;
    e.kind = EV_PART;
    enqueue(N, l, 0, e);
    if (!N.calm && decide(K_HARN, 0, [&](Rng & r) -> i64 {return r.chance(static_cast<double>(N.p_dup) / 2000);})) {
      note_fault("participant_discovery_repeated");
      enqueue(N, l, 0, e);
    }
    if (l.src->has_ann) {enqueue_ann(N, l, l.src->ann);}
  }
  for (auto & x : l.src->eps) {enqueue_ep(N, l, x.first.first, x.first.second, x.second, true);}
}
void make_link(Net & N, Proc * s, Proc * d)
{
  std::unique_ptr<Link> l(new Link());
  l->src = s;
  l->dst = d;
  l->lease = N.lease + (s->index * 7 + d->index * 3) % 5 * N.lease / 8;
  l->nodes.push_back(NodesAt{0, 0, false, {}});
  l->encl.push_back(EnclAt{0, 0, false, ""});
  N.links.push_back(std::move(l));
  if (!N.is_cut(s->slot, d->slot) || s == d) {connect(N, *N.links.back());}
}
void broadcast_ep(Net & N, Proc * s, const Gid & g, bool reader, const model::Ep & ep, bool add)
{
  for (size_t i = 0; i < N.links.size(); ++i) {
    Link & l = *N.links[i];
    if (l.src == s && l.connected && l.dst->alive) {enqueue_ep(N, l, g, reader, ep, add);}
  }
}
void open_ep(Net & N, Proc * s, const Gid & g, bool reader, const model::Ep & ep)
{
  s->eps[{g, reader}] = ep;
  broadcast_ep(N, s, g, reader, ep, true);
}
void close_ep(Net & N, Proc * s, const Gid & g, bool reader)
{
  auto it = s->eps.find({g, reader});
  if (it == s->eps.end()) {return;}
  model::Ep ep = it->second;
  s->eps.erase(it);
  broadcast_ep(N, s, g, reader, ep, false);
}
bool deliverable(Net & N, const Link & l) {return l.connected && l.dst->alive && (l.src == l.dst || !N.is_cut(l.src->slot, l.dst->slot));}

int on_publish(Net & N, Proc * s, const sut::PMsg & m)
{
  auto it = s->act.find(self());
  if (it == s->act.end() || !it->second.on) {violation("stray-announcement", "an announcement was made outside of any operation");}
  Active & a = it->second;
  a.publishes++;
  i64 outcome = 0, stall = 0;
  bool sent = true;
  if (!N.calm) {
    outcome = decide(K_PUB, 0, [&](Rng & r) -> i64 {
          if (!r.chance(static_cast<double>(N.p_refuse) / 1000)) {return 0;}
          static const int v[] = {1, 2, 10};
          return v[r.below(3)];
        });
    stall = decide(K_STALL, 0, [&](Rng & r) -> i64 {
          return r.chance(static_cast<double>(N.p_stall) / 1000) ? 1 + static_cast<i64>(r.below(2 * SEC)) : 0;
        });
  }
  if (outcome) {
    sent = decide(K_HARN, 0, [&](Rng & r) -> i64 {return r.below(4) == 0;}) != 0;
    note_fault(sent ? "announcement_sent_but_reported_failed" : "announcement_refused");
  }
  if (stall > 0) {note_fault("publish_stalled"); sleep_ns(static_cast<u64>(stall));} else {sim::yield();}
  trace("announce %s%s", sent ? "" : "(refused) ", m.str().c_str());
  if (sent) {
    s->has_ann = true;
    s->ann = m;
    bool partial = !N.calm && N.p.param("p_split") != 0;
    size_t nl = N.links.size();
    for (size_t i = 0; i < nl; ++i) {
      Link & l = *N.links[i];
      if (l.src != s || l.dst == s || !l.connected || !l.dst->alive) {continue;}
      enqueue_ann(N, l, m);
      if (partial) {sim::yield();}
    }
  }
  a.outcome = static_cast<int>(outcome);
  return static_cast<int>(outcome);
}

// ---------------------------------------------------------------- middleware threads of a participant
void process_ann(Net & N, Link & l, const Ev & e)
{
  (void)N;
  NodesAt n;
  n.b = seq();
  n.e = NEVER;
  n.present = true;
  n.nodes = e.msg.nodes;
  l.nodes.push_back(n);
  size_t k = l.nodes.size() - 1;
  l.dst->events++;
  trace("deliver announcement of %s to p%d: %s", l.src->enclave.c_str(), l.dst->slot, e.msg.str().c_str());
  sut::Ret r = sut::update(l.dst->c, e.msg);
  if (r.exc) {violation("unexpected-error", "update_participant_entities threw %s", r.what.c_str());}
  l.nodes[k].e = seq();
  count("probe.announcement_delivered");
}
void set_ep(Link & l, const Gid & g, bool reader, bool present, const model::Ep & ep, int variant)
{
  auto & tl = l.eps[{g, reader}];
  if (tl.empty()) {tl.push_back(EpAt{0, 0, false, model::Ep()});}
  bool was = tl.back().present;
  EpAt a;
  a.b = seq();
  a.e = NEVER;
  a.present = present;
  a.ep = present && was ? tl.back().ep : ep;
  tl.push_back(a);
  size_t k = tl.size() - 1;
  trace("%s %s %s at p%d", present ? "discover" : "lose", reader ? "reader" : "writer", g.str().c_str(), l.dst->slot);
  sut::Ret r = present ? sut::add_entity(l.dst->c, g, ep.topic, ep.type, ep.hash, ep.part, ep.qos, reader, variant) :
    sut::remove_entity(l.dst->c, g, reader, variant);
  if (r.exc) {violation("unexpected-error", "an endpoint update threw %s", r.what.c_str());}
  if ((r.ret != 0) != (was != present)) {
    violation("wrong-result", "%s a %s that was %s reported %s", present ? "discovery of" : "removal of", reader ? "reader" : "writer",
      was ? "known" : "unknown", r.ret ? "a change" : "no change");
  }
  l.eps[{g, reader}][k].e = seq();
}
void process_disc(Net & N, Link & l, const Ev & e);
void check_names(Net & N, Proc * d, u64 qb, u64 qe, const std::vector<sut::NodeName> & ans);
/// What the participant sees right after one discovery event.
void look(Net & N, Proc * d)
{
  if (!N.p.param("look")) {return;}
  std::vector<sut::NodeName> v;
  u64 qb = seq();
  sut::Ret r = sut::node_names(d->c, true, nullptr, &v);
  if (!r.ok()) {violation("unexpected-error", "a query failed with %d %s", r.ret, r.what.c_str());}
  check_names(N, d, qb, seq(), v);
}
void process_lost(Net & N, Link & l)
{
  // DDS: once a participant is gone nothing of it is delivered any more
  l.connected = false;
  l.removing = true;
  l.down_since = 0;
  if (!N.ghost) {
    for (auto & q : l.q) {q.clear();}
    wait_until([&l] {return l.busy == 0;}, "listener");
  } else {
    auto keep = l.q[3];
    for (auto & q : l.q) {q.clear();}
    l.q[3] = keep;
  }
  count("probe.departure_processed");
  l.dst->events++;
  trace("p%d loses %s", l.dst->slot, l.src->enclave.c_str());
  i64 order = decide(K_HARN, 0, [&](Rng & r) -> i64 {return static_cast<i64>(r.below(3));});
  std::vector<std::pair<std::pair<Gid, bool>, model::Ep>> gone;
  for (auto & x : l.eps) {if (!x.second.empty() && x.second.back().present) {gone.push_back({x.first, x.second.back().ep});}}
  if (order == 1) {std::reverse(gone.begin(), gone.end());}
  size_t at = order == 2 ? gone.size() / 2 : order == 1 ? gone.size() : 0;
  for (size_t i = 0; i <= gone.size(); ++i) {
    if (i == at) {
      bool was = l.known();
      u64 b = seq();
      l.nodes.push_back(NodesAt{b, NEVER, false, {}});
      l.encl.push_back(EnclAt{b, NEVER, false, ""});
      size_t kn = l.nodes.size() - 1, ke = l.encl.size() - 1;
      sut::Ret r = sut::remove_participant(l.dst->c, l.src->gid);
      if (r.exc) {violation("unexpected-error", "remove_participant threw %s", r.what.c_str());}
      if ((r.ret != 0) != was) {violation("wrong-result", "removal of a %s participant reported %s", was ? "known" : "unknown", r.ret ? "a change" : "no change");}
      l.nodes[kn].e = l.encl[ke].e = seq();
    }
    if (i < gone.size()) {set_ep(l, gone[i].first.first, gone[i].first.second, false, gone[i].second, static_cast<int>(order & 1));}
  }
  look(N, l.dst);
  l.removing = false;
  // back again in the meantime?
  if (l.src->alive && !N.is_cut(l.src->slot, l.dst->slot)) {connect(N, l);}
}
void process_disc(Net & N, Link & l, const Ev & e)
{
  switch (e.kind) {
    case EV_PART: {
        EnclAt a;
        a.b = seq();
        a.e = NEVER;
        a.present = true;
        a.enclave = l.src->enclave;
        l.encl.push_back(a);
        size_t k = l.encl.size() - 1;
        trace("p%d discovers %s", l.dst->slot, a.enclave.c_str());
        sut::Ret r = sut::add_participant(l.dst->c, l.src->gid, l.src->enclave);
        if (r.exc) {violation("unexpected-error", "add_participant threw %s", r.what.c_str());}
        l.encl[k].e = seq();
        look(N, l.dst);
        break;
      }
    case EV_EP_ADD: case EV_EP_DEL:
      set_ep(l, e.gid, e.reader, e.kind == EV_EP_ADD, e.ep, 0);
      break;
    default:
      process_lost(N, l);
  }
}
/// One delivery thread of a participant: announcements (ann) or discovery.
void deliver_loop(Net & N, Proc * d, bool ann)
{
  int n = 0;
  for (;;) {
    Link * best = nullptr;
    int bq = 0;
    u64 when = NEVER;
    auto scan = [&]() {
        best = nullptr;
        when = NEVER;
        for (auto & lp : N.links) {
          Link & l = *lp;
          if (l.dst != d) {continue;}
          if (!ann && l.connected && l.down_since && l.down_since + l.lease < when) {when = l.down_since + l.lease; best = &l; bq = -1;}
          if (!deliverable(N, l) && !(N.ghost && ann)) {continue;}
          for (int k = ann ? 3 : 0; k < (ann ? 4 : 3); ++k) {
            if (!l.q[k].empty() && l.q[k].front().ready < when) {when = l.q[k].front().ready; best = &l; bq = k;}
          }
        }
        return best && when <= now();
      };
    if (!scan()) {
      if (N.stop && !best) {return;}
      if (best) {
        // conditions must not depend on how often they are evaluated
        const u64 until = when;
        wait_until_for([&]() {return scan() || when < until || N.stop;}, until - now(), "network");
      } else {
        wait_until([&]() {scan(); return best || N.stop;}, "network");
      }
      continue;
    }
    Link & l = *best;
    set_op(70000 + n++);
    if (bq < 0) {process_lost(N, l); continue;}
    Ev e = l.q[bq].front();
    l.q[bq].pop_front();
    if (ann) {
      l.busy++;
      process_ann(N, l, e);
      l.busy--;
    } else {
      l.discovering = true;
      process_disc(N, l, e);
      l.discovering = false;
    }
  }
}

// ---------------------------------------------------------------- applications
void truth_apply(Proc * s, const Active & a)
{
  model::Graph & g = s->truth;
  switch (a.kind) {
    case sut::NODE: if (a.add) {g.add_node(s->gid, a.name, a.ns);} else {g.remove_node(s->gid, a.name, a.ns);} break;
    case sut::PUBLISHER: g.associate(a.a, s->gid, a.name, a.ns, false, a.add); break;
    case sut::SUBSCRIPTION: g.associate(a.a, s->gid, a.name, a.ns, true, a.add); break;
    case sut::CLIENT:
      g.associate(a.a, s->gid, a.name, a.ns, false, a.add);
      g.associate(a.b, s->gid, a.name, a.ns, true, a.add);
      break;
    default:
      g.associate(a.a, s->gid, a.name, a.ns, true, a.add);
      g.associate(a.b, s->gid, a.name, a.ns, false, a.add);
  }
}
bool ctx_call(Proc * s, sut::CtxOp kind, bool add, const Gid & a, const Gid & b, i64 name)
{
  Active & A = s->act[self()];
  A = Active();
  A.on = true;
  A.kind = kind;
  A.add = add;
  A.a = a;
  A.b = b;
  A.name = node_name(name);
  A.ns = node_ns(name);
  trace("p%d: %s %d %s", s->slot, add ? "create" : "destroy", kind, A.name.c_str());
  sut::Ret r = sut::ctx_op(s->x, kind, add, a, b, A.name, A.ns);
  if (r.exc) {violation("unexpected-error", "a Context operation threw: %s", r.what.c_str());}
  A.on = false;
  bool ok = r.ret == sut::OK;
  if (ok || !add) {truth_apply(s, A);}
  ev(static_cast<u64>(kind), static_cast<u64>(r.ret));
  return ok;
}
bool ep_is_reader(int kind, bool second) {return kind == sut::SUBSCRIPTION || (kind == sut::CLIENT && second) || (kind == sut::SERVICE && !second);}
void drop_ep(Net & N, Proc * s, AppState & S, i64 key)
{
  auto it = S.eps.find(key);
  if (it == S.eps.end()) {return;}
  Endpoint e = it->second;
  S.eps.erase(it);
  ctx_call(s, static_cast<sut::CtxOp>(e.kind), false, e.a, e.b, e.node);
  close_ep(N, s, e.a, ep_is_reader(e.kind, false));
  if (e.kind >= sut::CLIENT) {close_ep(N, s, e.b, ep_is_reader(e.kind, true));}
}
void app_op(Net & N, Proc * s, int role, const Op & o)
{
  set_op(o.id);
  AppState & S = s->state[role];
  i64 slot = o.arg(1);
  if (o.code == "nap") {sleep_ns(static_cast<u64>(std::max<i64>(1, o.arg(1)))); return;}
  i64 name = role * 3 + slot;
  if (o.code == "cn") {
    if (S.nodes.count(slot)) {return;}
    if (ctx_call(s, sut::NODE, true, Gid(), Gid(), name)) {S.nodes[slot] = name;}
  } else if (o.code == "dall") {
    // the application shuts its nodes down one right after the other
    while (!S.nodes.empty()) {
      Op d = o;
      d.code = "dn";
      d.a = {o.arg(0), S.nodes.begin()->first};
      app_op(N, s, role, d);
    }
  } else if (o.code == "dn") {
    if (!S.nodes.count(slot)) {return;}
    std::vector<i64> mine;
    for (auto & e : S.eps) {if (e.first / 10000 == slot) {mine.push_back(e.first);}}
    for (i64 e : mine) {drop_ep(N, s, S, e);}
    S.nodes.erase(slot);
    ctx_call(s, sut::NODE, false, Gid(), Gid(), name);
  } else if (o.code == "ce") {
    if (!S.nodes.count(slot) || S.eps.count(slot * 10000 + o.arg(2))) {return;}
    Endpoint e;
    e.kind = static_cast<int>(std::min<i64>(4, std::max<i64>(1, o.arg(3))));
    e.a = ep_gid(5000 * s->index + 2 * o.id, N.style);
    e.b = ep_gid(5000 * s->index + 2 * o.id + 1, N.style);
    e.topic = o.arg(4);
    e.type = o.arg(5);
    e.node = name;
    model::Ep m;
    m.topic = topic(e.topic);
    m.type = type(e.type % 5);
    m.hash = hash(e.type);
    m.qos = qos(e.type + e.topic);
    m.part = s->gid;
    open_ep(N, s, e.a, ep_is_reader(e.kind, false), m);
    if (e.kind >= sut::CLIENT) {open_ep(N, s, e.b, ep_is_reader(e.kind, true), m);}
    if (ctx_call(s, static_cast<sut::CtxOp>(e.kind), true, e.a, e.b, name)) {
      S.eps[slot * 10000 + o.arg(2)] = e;
    } else {
      close_ep(N, s, e.a, ep_is_reader(e.kind, false));
      if (e.kind >= sut::CLIENT) {close_ep(N, s, e.b, ep_is_reader(e.kind, true));}
    }
  } else if (o.code == "re") {
    // an endpoint is replaced by another one of its kind
    auto it = S.eps.find(slot * 10000 + o.arg(2));
    if (it == S.eps.end()) {return;}
    Op c = o;
    c.code = "ce";
    c.a = {o.arg(0), slot, o.arg(2), it->second.kind, o.arg(3), o.arg(4)};
    drop_ep(N, s, S, slot * 10000 + o.arg(2));
    app_op(N, s, role, c);
  } else if (o.code == "de") {
    drop_ep(N, s, S, slot * 10000 + o.arg(2));
  } else {
    internal_error("unknown op %s", o.code.c_str());
  }
}

// ---------------------------------------------------------------- observers
std::string nn(const sut::NodeName & n) {return n.ns + "|" + n.name + "|" + n.enclave;}
void check_names(Net & N, Proc * d, u64 qb, u64 qe, const std::vector<sut::NodeName> & ans)
{
  std::vector<std::string> a;
  for (auto & n : ans) {if (n.enclave != d->enclave) {a.push_back(nn(n));}}
  std::sort(a.begin(), a.end());
  // one announced state per remote participant must explain the answer
  std::vector<std::vector<std::vector<std::string>>> cand;
  std::string desc;
  for (auto & lp : N.links) {
    Link & l = *lp;
    if (l.dst != d || l.src == d) {continue;}
    std::set<std::vector<std::string>> s;
    for (auto * x : candidates(l.nodes, qb, qe)) {
      for (auto * y : candidates(l.encl, qb, qe)) {
        std::vector<std::string> v;
        for (auto & n : x->nodes) {v.push_back(n.ns + "|" + n.name + "|" + y->enclave);}
        std::sort(v.begin(), v.end());
        s.insert(v);
      }
    }
    desc += l.src->enclave + ":";
    for (auto & v : s) {
      desc += " {";
      for (auto & x : v) {desc += x + " ";}
      desc += "}";
    }
    desc += "\n";
    cand.push_back(std::vector<std::vector<std::string>>(s.begin(), s.end()));
  }
  std::set<std::vector<std::string>> sums;
  sums.insert(std::vector<std::string>());
  for (auto & c : cand) {
    std::set<std::vector<std::string>> nx;
    for (auto & s : sums) {
      for (auto & v : c) {
        std::vector<std::string> m = s;
        m.insert(m.end(), v.begin(), v.end());
        std::sort(m.begin(), m.end());
        // what is in `a` already bounds the search
        if (std::includes(a.begin(), a.end(), m.begin(), m.end())) {nx.insert(m);}
      }
    }
    sums.swap(nx);
  }
  if (!sums.count(a)) {
    std::string got;
    for (auto & x : a) {got += x + "\n";}
    violation("never-announced", "p%d reports remote nodes\n%swhich is no combination of the states received from each participant:\n%s",
      d->slot, got.c_str(), desc.c_str());
  }
  if (!a.empty()) {count("probe.remote_nodes_seen");}
}
void check_eps(Net & N, Proc * d, u64 qb, u64 qe, const std::string & top, bool reader, const std::vector<sut::EpInfo> & ans)
{
  std::map<Gid, const sut::EpInfo *> got;
  for (auto & e : ans) {
    if (!got.emplace(e.gid, &e).second) {violation("wrong-endpoint", "endpoint %s is reported twice", e.gid.str().c_str());}
  }
  for (auto & lp : N.links) {
    Link & l = *lp;
    if (l.dst != d) {continue;}
    std::vector<const sut::EpInfo *> mine;
    for (auto & x : l.eps) {
      if (x.first.second != reader) {continue;}
      auto c = candidates(x.second, qb, qe);
      bool may = false, must = true;
      const model::Ep * ep = nullptr;
      for (auto * k : c) {
        bool here = k->present && k->ep.topic == top;
        may |= here;
        must &= here;
        if (here) {ep = &k->ep;}
      }
      auto it = got.find(x.first.first);
      if (it == got.end()) {
        if (must && !c.empty()) {violation("missing-endpoint", "p%d does not report the discovered %s %s", d->slot, reader ? "reader" : "writer", x.first.first.str().c_str());}
        continue;
      }
      if (!may) {violation("ghost-endpoint", "p%d reports %s %s which is gone or never was on that topic", d->slot, reader ? "reader" : "writer", x.first.first.str().c_str());}
      const sut::EpInfo & e = *it->second;
      if (e.type != ep->type || e.hash != ep->hash || !(e.qos == ep->qos) || e.kind != (reader ? 2 : 1)) {
        violation("wrong-endpoint", "endpoint is reported as %s instead of type %s hash %s qos %s", e.str().c_str(), ep->type.c_str(), ep->hash.str().c_str(), ep->qos.str().c_str());
      }
      mine.push_back(&e);
      got.erase(it);
    }
    if (l.src == d || mine.empty()) {continue;}
    // one state of the participant must explain who they belong to
    bool ok = false;
    std::string desc;
    for (auto * x : candidates(l.nodes, qb, qe)) {
      for (auto * y : candidates(l.encl, qb, qe)) {
        model::Graph g;
        if (x->present || y->present) {g.parts[l.src->gid].nodes = x->nodes;}
        bool all = true;
        for (auto * e : mine) {
          auto w = g.owner(e->gid, l.src->gid, reader);
          all &= w.first == e->node && w.second == e->ns;
          if (!all) {desc = w.second + "|" + w.first;}
        }
        ok |= all;
      }
    }
    if (!ok) {
      std::string s;
      for (auto * e : mine) {s += e->gid.str() + " -> " + e->ns + "|" + e->node + "\n";}
      violation("wrong-owner", "p%d attributes endpoints of %s to\n%swhich no state received from it explains (e.g. %s)", d->slot,
        l.src->enclave.c_str(), s.c_str(), desc.c_str());
    }
    count("probe.remote_endpoints_seen");
  }
  if (!got.empty()) {violation("ghost-endpoint", "p%d reports endpoint %s nobody told it about", d->slot, got.begin()->first.str().c_str());}
}
void check_topics(Net & N, Proc * d, u64 qb, u64 qe, const sut::NT & ans)
{
  std::map<std::string, std::set<std::string>> must, may, got;
  for (auto & t : ans) {for (auto & y : t.second) {got[t.first].insert(y);}}
  for (auto & lp : N.links) {
    if (lp->dst != d) {continue;}
    for (auto & x : lp->eps) {
      auto c = candidates(x.second, qb, qe);
      bool all = !c.empty();
      for (auto * k : c) {
        if (k->present) {may[k->ep.topic].insert(k->ep.type);} else {all = false;}
      }
      if (all) {must[c[0]->ep.topic].insert(c[0]->ep.type);}
    }
  }
  for (auto & t : must) {for (auto & y : t.second) {if (!got[t.first].count(y)) {violation("missing-endpoint", "p%d does not report topic %s with type %s", d->slot, t.first.c_str(), y.c_str());}}}
  for (auto & t : got) {for (auto & y : t.second) {if (!may[t.first].count(y)) {violation("ghost-endpoint", "p%d reports topic %s with type %s", d->slot, t.first.c_str(), y.c_str());}}}
}
void observe(Net & N, Proc * d, const Op & o)
{
  set_op(o.id);
  if (o.arg(1) > 0) {sleep_ns(static_cast<u64>(o.arg(1)));} else {sim::yield();}
  if (o.arg(5)) {
    // the moment something is processed is the one to look at
    u64 was = d->events;
    if (wait_until_for([&]() {return d->events != was || N.stop;}, 2000000000ULL, "an event")) {count("probe.query_while_processing");}
  }
  i64 k = o.arg(2);
  bool reader = o.arg(4) & 1;
  std::string top = topic(o.arg(3) % NTOP);
  u64 qb = seq();
  auto must = [&](const sut::Ret & r) {
      if (!r.ok()) {violation("unexpected-error", "a query failed with %d %s", r.ret, r.what.c_str());}
    };
  if (k < 4 ? N.chk_names : N.chk_names && !N.chk_eps) {
    std::vector<sut::NodeName> v;
    must(sut::node_names(d->c, true, nullptr, &v));
    check_names(N, d, qb, seq(), v);
  } else if (k < 8) {
    std::vector<sut::EpInfo> v;
    must(sut::info_by_topic(d->c, top, reader, 0, nullptr, &v));
    u64 qe = seq();
    if (N.chk_eps) {check_eps(N, d, qb, qe, top, reader, v);}
  } else {
    sut::NT nt;
    must(sut::names_and_types(d->c, 0, nullptr, &nt));
    u64 qe = seq();
    if (N.chk_eps) {check_topics(N, d, qb, qe, nt);}
  }
}

// ---------------------------------------------------------------- the environment
void start_proc(Net & N, int slot, int inc)
{
  std::unique_ptr<Proc> up(new Proc());
  Proc * s = up.get();
  s->slot = slot;
  s->inc = inc;
  s->index = static_cast<int>(N.procs.size());
  s->gid = part_gid(slot * 4 + inc, N.style);
  s->enclave = enclave(s->index == 0 ? 1 : 4 + s->index);
  s->x = sut::ctx_new(s->gid);
  s->c = sut::ctx_cache(s->x);
  Net * np = &N;
  sut::ctx_set_publish(s->x, [np, s](const sut::PMsg & m) {return on_publish(*np, s, m);});
  sut::add_participant(s->c, s->gid, s->enclave);
  s->truth.add_participant(s->gid, s->enclave);
  if (s->index == 0) {
    Churn life;
    long_life(N.p, s->c, s->truth, s->gid, N.style, life);
    set_op(60000);
  }
  N.procs.push_back(std::move(up));
  make_link(N, s, s);
  for (size_t i = 0; i + 1 < N.procs.size(); ++i) {
    Proc * o = N.procs[i].get();
    if (!o->alive) {continue;}
    make_link(N, s, o);
    make_link(N, o, s);
  }
  std::string id = "p" + std::to_string(slot) + (inc ? "'" : "");
  s->tasks.push_back(spawn(id + ".listener", [np, s]() {deliver_loop(*np, s, true);}));
  s->tasks.push_back(spawn(id + ".discovery", [np, s]() {deliver_loop(*np, s, false);}));
  for (int role = 0; role < 3; ++role) {
    size_t t = static_cast<size_t>(slot * 10 + role);
    bool any = false;
    for (auto & o : N.ops[t]) {any |= o.arg(0) == inc;}
    if (!any) {continue;}
    int x = spawn(id + (role == 2 ? ".observer" : role ? ".appB" : ".appA"), [np, s, t, inc, role]() {
          for (auto & o : np->ops[t]) {
            if (o.arg(0) != inc) {continue;}
            if (role == 2) {observe(*np, s, o);} else {app_op(*np, s, role, o);}
          }
        });
    s->tasks.push_back(x);
    s->apps.push_back(x);
  }
}
void stop_proc(Net & N, Proc * s, bool graceful)
{
  s->alive = false;
  for (int t : s->tasks) {kill_task(t);}
  for (auto & lp : N.links) {
    Link & l = *lp;
    if (l.src == s && l.connected && l.dst->alive) {
      if (graceful) {
        Ev e;
        e.kind = EV_LEFT;
        enqueue(N, l, 0, e);
      } else if (!l.down_since) {
        l.down_since = now();
      }
    }
  }
}
void heal(Net & N)
{
  N.cut.clear();
  for (auto & lp : N.links) {
    Link & l = *lp;
    if (!l.src->alive || !l.dst->alive) {continue;}
    l.down_since = 0;
    if (!l.connected && !l.removing) {connect(N, l);}
  }
}
bool quiet(Net & N)
{
  for (auto & lp : N.links) {
    Link & l = *lp;
    if (!l.dst->alive) {continue;}
    if (l.busy || l.removing || l.discovering) {return false;}
    if (l.src->alive ? !l.connected : l.connected) {return false;}
    for (auto & q : l.q) {if (l.connected && !q.empty()) {return false;}}
  }
  return true;
}
void env_op(Net & N, const Op & o)
{
  set_op(o.id);
  sleep_ns(static_cast<u64>(std::max<i64>(1, o.arg(0))));
  int a = static_cast<int>(o.arg(1)), b = static_cast<int>(o.arg(2));
  if (o.code == "cut") {
    if (a == b || N.is_cut(a, b)) {return;}
    note_fault("partition");
    trace("cut %d-%d", a, b);
    N.cut.insert({std::min(a, b), std::max(a, b)});
    for (auto & lp : N.links) {
      Link & l = *lp;
      if (l.connected && N.is_cut(l.src->slot, l.dst->slot) && l.src != l.dst && !l.down_since) {l.down_since = now();}
    }
  } else if (o.code == "heal") {
    if (!N.cut.empty()) {note_fault("heal");}
    trace("heal");
    heal(N);
  } else if (o.code == "crash" || o.code == "leave") {
    Proc * s = N.live(a);
    int n = 0;
    for (auto & x : N.procs) {n += x->alive;}
    if (!s || n < 2) {return;}
    note_fault(o.code == "crash" ? "participant_crash" : "participant_leave");
    trace("%s p%d", o.code.c_str(), a);
    stop_proc(N, s, o.code == "leave");
  } else if (o.code == "restart") {
    if (N.live(a) || N.procs.size() >= 7) {return;}
    int inc = 0;
    for (auto & x : N.procs) {if (x->slot == a) {inc = std::max(inc, x->inc + 1);}}
    note_fault("participant_restart");
    trace("restart p%d", a);
    start_proc(N, a, inc);
  } else {
    internal_error("unknown op %s", o.code.c_str());
  }
}

void run(Plan & p)
{
  Net N(p);
  N.chk_names = p.prop == "C02" || p.prop == "C10";
  N.chk_eps = p.prop == "C09" || p.prop == "C10";
  N.ghost = p.param("ghost") != 0;
  N.lease = static_cast<u64>(p.param("lease_ms", 3000)) * MS;
  N.max_delay = static_cast<u64>(p.param("delay_ms", 500)) * MS + 1;
  N.p_refuse = p.param("p_refuse");
  N.p_stall = p.param("p_stall");
  N.p_delay = p.param("p_delay");
  N.p_dup = p.param("p_dup");
  N.p_supersede = p.param("p_supersede");
  N.ops = by_task(p, 100);
  int n = static_cast<int>(p.param("n", 2));
  set_op(60000);
  for (int s = 0; s < n; ++s) {start_proc(N, s, 0);}
  for (auto & o : N.ops[99]) {env_op(N, o);}
  // faults stop
  set_op(60001);
  for (size_t i = 0; i < N.procs.size(); ++i) {
    Proc * s = N.procs[i].get();
    if (!s->alive) {continue;}
    for (int t : s->apps) {join(t);}
  }
  N.calm = true;
  trace("calm");
  heal(N);
  for (auto & s : N.procs) {
    if (!s->alive) {continue;}
    if (p.param("end_none") == 2 && s->has_ann && model::canon(s->ann) == model::canon(s->truth.message(s->gid))) {
      // its last announcement went out and says how things are
      count("probe.no_closing_announcement");
      continue;
    }
    if (!ctx_call(s.get(), sut::NODE, true, Gid(), Gid(), 10 + s->slot)) {
      violation("wrong-result", "creating a node failed although announcing works");
    }
    if (p.param("end_none") && !ctx_call(s.get(), sut::NODE, false, Gid(), Gid(), 10 + s->slot)) {
      violation("wrong-result", "destroying a node failed although announcing works");
    }
  }
  u64 bound = N.lease * 2 + N.max_delay * 2 + 5 * SEC;
  if (!wait_until_for([&]() {return quiet(N);}, bound, "convergence")) {
    violation("no-progress", "discovery has not settled %llu s after the last fault", static_cast<unsigned long long>(bound / SEC));
  }
  set_op(60002);
  model::Graph all;
  for (auto & s : N.procs) {
    if (!s->alive) {continue;}
    all.parts[s->gid] = s->truth.parts[s->gid];
    for (auto & e : s->eps) {all.eps(e.first.second)[e.first.first] = e.second;}
  }
  for (auto & s : N.procs) {
    if (!s->alive) {continue;}
    std::string when = "p" + std::to_string(s->slot) + " after everything settled";
    if (p.prop == "C02") {
      std::vector<sut::NodeName> v;
      sut::node_names(s->c, true, nullptr, &v);
      if (model::canon(v, true) != model::canon(all.node_names(), true)) {
        violation("never-announced", "%s: %s", when.c_str(), diff(model::canon(v, true), model::canon(all.node_names(), true)).c_str());
      }
    } else {
      check_all(s->c, all, NTOP, NNAMES, 0, p.prop == "C10" ? "left-over" : p.prop == "C09" ? "wrong-owner" : "not-converged", when.c_str());
    }
  }
  count("probe.converged_runs");
  N.stop = true;
  for (auto & s : N.procs) {if (s->alive) {for (int t : s->tasks) {join(t);}}}
  for (auto & s : N.procs) {if (s->alive) {sut::ctx_delete(s->x);}}
}

// ---------------------------------------------------------------- generation
void gen(Plan & p, Rng & r, const char * prop)
{
  std::string P = prop;
  p.params["style"] = static_cast<i64>(r.below(4));
  int n = 2 + static_cast<int>(r.below(3));
  if (n == 4 && r.below(2)) {n = 3;}
  p.params["n"] = n;
  static const i64 leases[] = {200, 1000, 3000, 10000};
  p.params["lease_ms"] = leases[r.below(4)];
  static const i64 delays[] = {1, 50, 500, 3000};
  p.params["delay_ms"] = delays[r.below(4)];
  p.params["p_delay"] = r.below(5) ? static_cast<i64>(r.below(1000)) : 0;
  p.params["p_dup"] = r.below(2) ? static_cast<i64>(r.below(400)) : 0;
  p.params["p_supersede"] = r.below(2) ? static_cast<i64>(r.below(700)) : 0;
  p.params["p_refuse"] = r.below(2) ? static_cast<i64>(r.below(300)) : 0;
  p.params["p_stall"] = r.below(3) ? 0 : static_cast<i64>(r.below(300));
  p.params["p_split"] = static_cast<i64>(r.below(2));
  p.params["end_none"] = static_cast<i64>(r.below(4)) % 3;
  bool many = r.below(3) == 0;           // applications of several nodes
  bool fine = r.below(3) == 0;           // everything at (nearly) the same instant
  auto nap = [&]() -> i64 {
      if (fine) {return 1 + static_cast<i64>(r.below(3));}
      static const u64 caps[] = {1000, 1000000, 300000000, 4000000000ULL};
      return 1 + static_cast<i64>(r.below(caps[r.below(4)]));
    };
  int nfault = static_cast<int>(r.below(P == "C10" || P == "C01" ? 7 : 4));
  if (P == "C10" && nfault == 0) {nfault = 1;}
  p.params["look"] = P == "C10" || P == "C02" ? static_cast<i64>(r.below(2)) : 0;
  int restarts = 0;
  std::set<int> down;
  if (P == "C10" && r.below(3) == 0) {
    // the connection is lost for long enough to be taken for a departure
    i64 lease = p.params["lease_ms"] * static_cast<i64>(MS);
    add_op(p, 99, "cut", {nap(), static_cast<i64>(r.below(static_cast<u64>(n))), static_cast<i64>(r.below(static_cast<u64>(n)))});
    add_op(p, 99, "heal", {lease + static_cast<i64>(r.below(static_cast<u64>(lease)))});
  }
  for (int i = 0; i < nfault; ++i) {
    i64 a = static_cast<i64>(r.below(static_cast<u64>(n))), b = static_cast<i64>(r.below(static_cast<u64>(n)));
    switch (r.below(P == "C10" ? 7 : 6)) {
      case 0: case 1: add_op(p, 99, "cut", {nap(), a, b}); break;
      case 2: add_op(p, 99, "heal", {nap()}); break;
      case 3: add_op(p, 99, "crash", {nap(), a}); down.insert(static_cast<int>(a)); break;
      case 4: add_op(p, 99, "leave", {nap(), a}); down.insert(static_cast<int>(a)); break;
      default:
        if (down.empty() || restarts >= 2) {add_op(p, 99, r.below(2) ? "crash" : "leave", {nap(), a}); down.insert(static_cast<int>(a));} else {
          add_op(p, 99, "restart", {nap(), *down.begin()});
          down.erase(down.begin());
          restarts++;
        }
    }
  }
  const bool crowd = r.below(1500) == 0;   // more than a byte can count
  int bulk = crowd || r.below(16) == 0 ? static_cast<int>(r.below(static_cast<u64>(n))) : -1;
  int incs = restarts ? 2 : 1;
  for (int s = 0; s < n; ++s) {
    for (int inc = 0; inc < incs; ++inc) {
      if (inc && r.below(2)) {continue;}
      int apps = n >= 4 || restarts ? 1 : 1 + static_cast<int>(r.below(2));
      for (int role = 0; role < apps; ++role) {
        int k = 1 + static_cast<int>(r.below(8));
        if (bulk == s && role == 0 && inc == 0) {
          // one participant with a lot of nodes or endpoints
          i64 nn = 1 + static_cast<i64>(r.below(3)), ne = static_cast<i64>(r.below(50));
          if (!crowd && r.below(4) == 0) {p.params["mid"] = 1; nn = 10 + static_cast<i64>(r.below(60)); ne = static_cast<i64>(r.below(6));}
          if (crowd) {p.params["crowd"] = 1; (r.below(2) ? nn : ne) = 256 + static_cast<i64>(r.below(3) ? r.below(40) : 0);}
          // (the names of the others end at 13)
          for (i64 x = 0; x < nn; ++x) {add_op(p, s * 10, "cn", {inc, x < 3 ? x : 20 + x});}
          i64 kind = static_cast<i64>(crowd ? 1 + r.below(2) : r.below(5)), one = crowd ? 1 : static_cast<i64>(r.below(2));
          for (i64 x = 0; x < ne; ++x) {
            add_op(p, s * 10, "ce", {inc, one ? 0 : static_cast<i64>(r.below(static_cast<u64>(std::min<i64>(nn, 3)))), 3 + x, kind ? kind : 1 + static_cast<i64>(r.below(4)),
                static_cast<i64>(r.below(one ? 1 : NTOP)), static_cast<i64>(r.below(6))});
          }
        }
        for (int i = 0; i < k; ++i) {
          i64 slot = many && i < 3 ? i : static_cast<i64>(r.below(many ? 3 : 2));
          i64 t = s * 10 + role;
          if (many && i > 0 && i < 3) {
            add_op(p, static_cast<int>(t), "cn", {inc, slot});
            continue;
          }
          switch (i == 0 ? 0 : r.below(9)) {
            case 0: add_op(p, static_cast<int>(t), "cn", {inc, slot}); break;
            case 1: add_op(p, static_cast<int>(t), "dn", {inc, slot}); break;
            case 2: case 3: case 4:
              add_op(p, static_cast<int>(t), "ce", {inc, slot, static_cast<i64>(r.below(3)), 1 + static_cast<i64>(r.below(4)), static_cast<i64>(r.below(NTOP)), static_cast<i64>(r.below(6))});
              break;
            case 5: add_op(p, static_cast<int>(t), "de", {inc, slot, static_cast<i64>(r.below(3))}); break;
            case 6: add_op(p, static_cast<int>(t), "re", {inc, slot, static_cast<i64>(r.below(3)), static_cast<i64>(r.below(NTOP)), static_cast<i64>(r.below(6))}); break;
            default: add_op(p, static_cast<int>(t), "nap", {inc, nap()}); break;
          }
        }
        if (r.below(many ? 2 : 5) == 0) {
          if (r.below(2)) {add_op(p, static_cast<int>(s * 10 + role), "nap", {inc, nap()});}
          add_op(p, static_cast<int>(s * 10 + role), "dall", {inc});
        }
      }
      if (P != "C01" && (n < 4 || r.below(2))) {
        const bool with_events = r.below(2);
        int k = 1 + static_cast<int>(r.below(with_events && bulk >= 0 ? 40 : 6));
        for (int i = 0; i < k; ++i) {
          i64 at_event = with_events && r.below(3);
          add_op(p, s * 10 + 2, "q", {inc, at_event && r.below(4) ? 0 : r.below(3) ? nap() : 0, static_cast<i64>(r.below(10)), static_cast<i64>(r.below(NTOP)), static_cast<i64>(r.below(2)), at_event});
        }
      }
    }
  }
}
void gen_c01(Plan & p, Rng & r) {gen(p, r, "C01");}
void gen_c02(Plan & p, Rng & r) {gen(p, r, "C02");}
void gen_c09(Plan & p, Rng & r) {gen(p, r, "C09");}
void gen_c10(Plan & p, Rng & r) {gen(p, r, "C10");}

// ---------------------------------------------------------------- order of discovery (C09)
const int PE = 8, PE_LARGE = 200, PP = 3;      // endpoints, participants
model::Ep fact_ep(i64 part, i64 seed, i64 style)
{
  model::Ep e;
  e.topic = topic(seed % NTOP);
  e.type = type(seed % 5);
  e.hash = hash(seed % 5);
  e.qos = qos(seed);
  e.part = part_gid(part, style);
  return e;
}
sut::PMsg fact_ann(i64 part, i64 seed, i64 style)
{
  sut::PMsg m;
  m.gid = part_gid(part, style);
  Rng r(static_cast<u64>(seed) * 77003 + static_cast<u64>(part));
  std::set<i64> used[2];
  std::set<i64> names;
  bool large = seed >= 1000;
  const bool crowd = seed >= 2000;
  size_t n = crowd && seed % 2 ? 256 + (r.below(3) ? r.below(60) : 0) : large ? 5 + r.below(30) : seed ? r.below(4) : 0;
  for (size_t k = 0; k < n; ++k) {
    i64 x = crowd ? static_cast<i64>(k) : static_cast<i64>(r.below(large ? 60 : 6));
    if (!names.insert(x).second) {continue;}
    sut::NodeMsg nm;
    if (crowd && k == 3) {
      // one node of many endpoints
      const i64 last = 1256 + static_cast<i64>(r.below(3) ? r.below(40) : 0);
      for (i64 e = 1000; e < last; ++e) {(seed % 4 < 2 ? nm.readers : nm.writers).push_back(ep_gid(e, style));}
    }
    nm.name = node_name(x);
    nm.ns = node_ns(x);
    for (int rd = 0; rd < 2; ++rd) {
      for (size_t j = r.below(large ? 30 : 4); j-- > 0; ) {
        i64 e = static_cast<i64>(r.below(large ? PE_LARGE : PE));
        if (used[rd].insert(e).second) {(rd ? nm.readers : nm.writers).push_back(ep_gid(e, style));}
      }
    }
    m.nodes.push_back(nm);
  }
  return m;
}
struct Fact {int key; Op o;};
void apply_fact(sut::Cache * c, model::Graph & g, const Op & o, i64 style)
{
  sut::Ret r;
  if (o.code == "part") {
    r = sut::add_participant(c, part_gid(o.arg(0), style), enclave(o.arg(0)));
    g.add_participant(part_gid(o.arg(0), style), enclave(o.arg(0)));
  } else if (o.code == "unpart") {
    bool want = g.remove_participant(part_gid(o.arg(0), style));
    r = sut::remove_participant(c, part_gid(o.arg(0), style));
    if (!r.exc && (r.ret != 0) != want) {violation("wrong-result", "removal of %s participant reported %d", want ? "a known" : "an unknown", r.ret);}
  } else if (o.code == "ann") {
    sut::PMsg m = fact_ann(o.arg(0), o.arg(1), style);
    r = sut::update(c, m);
    g.update(m);
  } else {
    bool reader = o.arg(2) & 1;
    Gid gid = ep_gid(o.arg(1), style);
    model::Ep e = fact_ep(o.arg(0), o.arg(3), style);
    bool want;
    if (o.code == "ep") {
      want = g.add_entity(gid, e, reader);
      r = sut::add_entity(c, gid, e.topic, e.type, e.hash, e.part, e.qos, reader, static_cast<int>(o.arg(4)));
    } else {
      want = g.remove_entity(gid, reader);
      r = sut::remove_entity(c, gid, reader, static_cast<int>(o.arg(4)));
    }
    if (!r.exc && (r.ret != 0) != want) {
      violation("wrong-result", "%s of a %s endpoint reported %s", o.code == "ep" ? "discovery" : "removal",
        want == (o.code == "ep") ? "unknown" : "known", r.ret ? "a change" : "no change");
    }
  }
  if (r.exc) {violation("unexpected-error", "%s threw %s", o.code.c_str(), r.what.c_str());}
}
int fact_key(const Op & o, bool leaves)
{
  // where participants leave, everything about one of them keeps its order
  if (o.code == "part" || o.code == "unpart" || (o.code == "ann" && leaves)) {return 100 + static_cast<int>(o.arg(0));}
  if (o.code == "ann") {return 200 + static_cast<int>(o.arg(0));}
  return 2 * static_cast<int>(o.arg(1)) + static_cast<int>(o.arg(2) & 1);
}
void run_order(Plan & p)
{
  i64 style = p.param("style");
  int threads = static_cast<int>(p.param("threads"));
  model::Graph g1;
  sut::Cache * c1 = sut::cache_new();
  if (p.param("churn")) {
    Gid local = part_gid(7, style);
    if (!sut::add_participant(c1, local, enclave(1)).ok()) {violation("unexpected-error", "add_participant failed");}
    g1.add_participant(local, enclave(1));
    Churn life;
    long_life(p, c1, g1, local, style, life);
    if (!sut::remove_participant(c1, local).ret) {violation("wrong-result", "removal of a known participant reported no change");}
    g1.remove_participant(local);
  }
  for (auto & o : p.ops) {
    set_op(o.id);
    apply_fact(c1, g1, o, style);
    if (o.id % 4 == 0 || p.param("each")) {check_all(c1, g1, NTOP, 6, 0, "wrong-owner", "after a discovery event");}
  }
  // the same facts in another order; those about one endpoint, or one participant's announcements, keep theirs
  std::map<int, std::deque<Op>> streams;
  bool leaves = false;
  for (auto & o : p.ops) {leaves |= o.code == "unpart";}
  for (auto & o : p.ops) {streams[fact_key(o, leaves)].push_back(o);}
  std::vector<std::vector<Op>> per(static_cast<size_t>(std::max(1, threads)));
  Rng r(static_cast<u64>(p.param("perm")));
  std::map<int, size_t> owner;
  while (!streams.empty()) {
    auto it = streams.begin();
    std::advance(it, static_cast<long>(r.below(streams.size())));
    size_t t = owner.emplace(it->first, r.below(per.size())).first->second;
    per[t].push_back(it->second.front());
    it->second.pop_front();
    if (it->second.empty()) {streams.erase(it);}
  }
  sut::Cache * c2 = sut::cache_new();
  std::vector<int> ids;
  std::vector<model::Graph> gs(per.size());
  for (size_t t = 0; t < per.size(); ++t) {
    ids.push_back(spawn("discovery" + std::to_string(t), [&, t]() {
        for (auto & o : per[t]) {
          set_op(o.id);
          apply_fact(c2, gs[t], o, style);
        }
      }));
  }
  for (int id : ids) {join(id);}
  set_op(64000);
  check_all(c2, g1, NTOP, 6, 0, "order-dependent", "after the same discovery events in another order");
  check_all(c1, g1, NTOP, 6, 0, "wrong-owner", "after all discovery events");
  sut::cache_delete(c1);
  sut::cache_delete(c2);
  if (live_blocks()) {violation("leak", "%llu blocks are still allocated at the end", static_cast<unsigned long long>(live_blocks()));}
}
void gen_order(Plan & p, Rng & r)
{
  p.params["style"] = static_cast<i64>(r.below(4));
  p.params["threads"] = 1 + static_cast<i64>(r.below(3));
  p.params["perm"] = 1 + static_cast<i64>(r.below(1000000));
  p.params["each"] = static_cast<i64>(r.below(2));
  int n = 2 + static_cast<int>(r.below(24));
  bool leaves = r.below(2);
  bool large = r.below(20) == 0;
  if (large) {n += 60; p.params["each"] = 0;}
  if (r.below(300) == 0) {n += 200 + static_cast<int>(r.below(300)); p.params["each"] = 0;}
  for (int i = 0; i < n; ++i) {
    i64 part = static_cast<i64>(r.below(PP)), e = static_cast<i64>(r.below(large ? PE_LARGE : PE)), rd = static_cast<i64>(r.below(2));
    // an endpoint belongs to one participant, with few exceptions when it is announced again
    i64 owner = r.below(8) ? e % PP : part;
    switch (r.below(leaves ? 12 : 10)) {
      case 10: case 11: add_op(p, 0, "unpart", {part}); break;
      case 0: case 1: add_op(p, 0, "part", {part}); break;
      case 2: case 3: case 4: add_op(p, 0, "ann", {part, static_cast<i64>(r.below(20)) + (large ? 1000 : 0)}); break;
      case 5: add_op(p, 0, "unep", {owner, e, rd, 0, static_cast<i64>(r.below(2))}); break;
      default: add_op(p, 0, "ep", {owner, e, rd, static_cast<i64>(r.below(30)), 0}); break;
    }
  }
  if (r.below(700) == 0) {
    // more than a byte can count: announced nodes, endpoints of a node, or of a topic
    p.params["each"] = 0;
    p.params["crowd"] = 1;
    i64 part = static_cast<i64>(r.below(PP)), rd = static_cast<i64>(r.below(2));
    add_op(p, 0, "ann", {part, 2000 + static_cast<i64>(r.below(100))});
    if (r.below(2)) {
      const i64 last = 1256 + static_cast<i64>(r.below(3) ? r.below(60) : 0);
      for (i64 e = 1000; e < last; ++e) {add_op(p, 0, "ep", {part, e, rd, static_cast<i64>(r.below(3)) * 5 * NTOP, 0});}
    }
  }
}
}  // namespace

extern const World kNetWorlds[] = {
  {"C01", "net", 1, gen_c01, run},
  {"C02", "net-views", 1, gen_c02, run},
  {"C09", "net-owners", 2, gen_c09, run},
  {"C09", "discovery-order", 1, gen_order, run_order},
  {"C10", "net-departures", 1, gen_c10, run},
};
