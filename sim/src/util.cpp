#include "util.h"
#include <algorithm>

namespace util
{
namespace
{
i64 g_pool = 0;
// Pools of names: ordinary ones; ones easily confused (case, prefixes, equal concatenations); long
// ones that differ in the last character only; empty and odd ones. In every pool entries 0 and 2,
// and 1 and 4, share their name, 0, 1 and 5, and 2 and 3, their namespace, and no two both.
const std::string kLong(70, 'q'), kLongNs = "/" + std::string(60, 'w');
const std::string kTopics[4][8] = {
  {"rt/chatter", "rt/a_rather_long_topic_name/which_lives_on_the_heap", "rq/add_two_intsRequest",
    "DCPSParticipant_builtin_topic", "rt/t", "rr/add_two_intsReply", "rt/parameter_events", "rt/diagnostics/aggregated/level_of_everything"},
  {"rt/chatter", "rt/Chatter", "rq/chatter", "chatter", "rt/chatte", "rr/chatter", "rt/chatter/", "rt/chatter2"},
  {"rt/" + kLong + "a", "rt/" + kLong + "b", "rq/" + kLong + "a", kLong + "a", "rt/" + kLong, "rr/" + kLong, "rt/" + kLong + "c", "rt/" + kLong + "aa"},
  {"rt/", "rt/ ", "rt", "/", "rt/\xc3\xa9", "rt//", "rt/%s%n", "rt/\n"}};
const std::string kTypes[4][5] = {
  {"std_msgs::msg::dds_::String_", "a", "example_interfaces::srv::dds_::AddTwoInts_Request_", "sensor_msgs::msg::dds_::PointCloud2_", "native::Type"},
  {"a::dds_::String_", "a::String_", "a::dds_::string_", "a::dds_::String", "A::dds_::String_"},
  {kLong + "a", kLong + "b", kLong + "dds_::a", kLong, kLong + "aa"},
  {"", " ", "dds_::", "%s%n", "\xff"}};
const std::string kNames[4][6] = {
  {"talker", "listener", "talker", "a_node_with_a_name_long_enough_for_the_heap", "listener", "talker_2"},
  {"nt", "alker", "nt", "talker", "alker", "NT"},
  {kLong + "a", kLong + "b", kLong + "a", kLong + "c", kLong + "b", kLong},
  {"", "%s%n", "", " ", "%s%n", "\xc3\xa9"}};
const std::string kSpaces[4][6] = {
  {"/", "/", "/ns", "/ns", "/a/deeply/nested/namespace/of/a/robot", "/"},
  {"/", "/", "/a", "/a", "/at", "/"},
  {kLongNs, kLongNs, kLongNs + "a", kLongNs + "a", kLongNs + "b", kLongNs},
  {"/", "/", "", "", "//", "/"}};
const std::string kEnclaves[4][4] = {
  {"/", "/enclave", "/a/rather/long/enclave/name/for/this/participant", ""},
  {"/", "/enclave", "/Enclave", ""},
  {kLong + "a", kLong + "b", kLong, ""},
  {"/", " ", "//", ""}};
}  // namespace
void set_pool(i64 n) {g_pool = n & 3;}
std::string topic(i64 n)
{
  if (n < 8) {return kTopics[g_pool][n < 0 ? 0 : n];}
  if (n % 5 == 4) {return "rt/" + std::string(static_cast<size_t>(250 + n), 't');}
  return "rt/topic_number_" + std::to_string(n);
}
std::string type(i64 n)
{
  if (n < 5) {return kTypes[g_pool][n < 0 ? 0 : n];}
  return "pkg::msg::dds_::Type" + std::to_string(n) + "_";
}
std::string node_name(i64 n)
{
  if (n < 6) {return kNames[g_pool][n < 0 ? 0 : n];}
  if (n % 7 == 1) {return std::string(static_cast<size_t>(250 + n), 'n');}   // longer than a DDS name may be
  return "node_" + std::to_string(n);
}
std::string node_ns(i64 n)
{
  // many share the name or the namespace but no two share both
  if (n < 6) {return kSpaces[g_pool][n < 0 ? 0 : n];}
  return n % 2 ? "/" : "/ns" + std::to_string(n % 3);
}
std::string enclave(i64 n)
{
  if (n < 4) {return kEnclaves[g_pool][n < 0 ? 0 : n];}
  return "/enclave_" + std::to_string(n);
}
Hash hash(i64 n)
{
  Hash h;
  if (n <= 0) {return h;}
  h.version = 1;
  sim::Rng r(static_cast<u64>(n) * 7919);
  for (int i = 0; i < 32; ++i) {h.v[i] = static_cast<uint8_t>(r.next());}
  if (n == 2) {memset(h.v, 0, 32);}
  if (n == 3) {memset(h.v, 0xff, 32);}
  if (n == 4) {h.version = 254;}
  return h;
}
Qos qos(i64 n)
{
  Qos q;
  sim::Rng r(static_cast<u64>(n) * 104729 + 5);
  q.history = 1 + static_cast<int>(r.below(2));
  q.depth = n == 0 ? 10 : r.below(100);
  q.rel = 1 + static_cast<int>(r.below(2));
  q.dur = 1 + static_cast<int>(r.below(2));
  q.liv = r.below(2) ? sut::LIV_AUTO : sut::LIV_TOPIC;
  if (n % 3 == 1) {q.deadline.s = 1 + r.below(5); q.deadline.ns = r.below(1000000000);}
  if (n % 3 == 2) {q.lease.s = 1 + r.below(5); q.lifespan.ns = r.below(1000000000);}
  q.avoid = n % 5 == 4;
  if (n % 4 == 3) {
    // values an application would hardly choose, but which fit: nothing may be rounded, clamped or replaced
    static const sut::Dur d[] = {{0, 0}, {0, 1}, {0, 999999999}, {1, 1000000000}, {4294967296ULL, 5}, {9223372036ULL, 854775807ULL}, {UINT64_MAX, UINT64_MAX}, {2, 147483648}};
    static const uint64_t depths[] = {0, 1, 255, 256, 65536, 4294967296ULL, UINT64_MAX};
    q.history = static_cast<int>(r.below(4));
    q.depth = depths[r.below(7)];
    q.rel = static_cast<int>(r.below(5));
    q.dur = static_cast<int>(r.below(5));
    q.liv = static_cast<int>(r.below(6));
    q.deadline = d[r.below(8)];
    q.lifespan = d[r.below(8)];
    q.lease = d[r.below(8)];
  }
  return q;
}
Gid ep_gid(i64 n, i64 style) {return sut::mkgid(static_cast<uint32_t>(1000 + n), static_cast<int>(style));}
Gid part_gid(i64 n, i64 style) {return sut::mkgid(static_cast<uint32_t>(1 + n), static_cast<int>(style));}

std::vector<std::vector<sim::Op>> by_task(const sim::Plan & p, int ntasks)
{
  std::vector<std::vector<sim::Op>> v(static_cast<size_t>(ntasks));
  for (auto & o : p.ops) {if (o.task >= 0 && o.task < ntasks) {v[static_cast<size_t>(o.task)].push_back(o);}}
  return v;
}
void add_op(sim::Plan & p, int task, const std::string & code, const std::vector<i64> & a)
{
  sim::Op o;
  o.id = static_cast<int>(p.ops.size()) + 1;
  o.task = task;
  o.code = code;
  o.a = a;
  p.ops.push_back(o);
}
std::string diff(const std::string & got, const std::string & want)
{
  return "got:\n" + got + "expected:\n" + want;
}
static void must(const sut::Ret & r, const char * q, const char * cls, const char * when)
{
  if (!r.ok()) {
    sim::violation(cls, "%s: %s failed (ret %d, exception %d %s)", when, q, r.ret, r.exc, r.what.c_str());
  }
}
static void same(const std::string & got, const std::string & want, const char * q, const char * cls, const char * when)
{
  if (got != want) {sim::violation(cls, "%s: %s: %s", when, q, diff(got, want).c_str());}
}
void check_all(
  sut::Cache * c, const model::Graph & g, int ntopics, int nnames, int demangle, const char * cls,
  const char * when, bool merged)
{
  size_t n = 0;
  must(sut::n_nodes(c, &n), "get_number_of_nodes", cls, when);
  same(std::to_string(n), std::to_string(g.n_nodes()), "number of nodes", cls, when);
  std::vector<sut::NodeName> nn;
  must(sut::node_names(c, true, nullptr, &nn), "get_node_names", cls, when);
  same(model::canon(nn, true), model::canon(g.node_names(), true), "node names", cls, when);
  must(sut::node_names(c, false, nullptr, &nn), "get_node_names", cls, when);
  same(model::canon(nn, false), model::canon(g.node_names(), false), "node names", cls, when);
  sut::NT nt;
  must(sut::names_and_types(c, demangle, nullptr, &nt), "get_names_and_types", cls, when);
  same(model::canon(nt), model::canon(g.names(demangle)), "names and types", cls, when);
  for (int t = 0; t < ntopics; ++t) {
    for (int r = 0; r < 2; ++r) {
      must(sut::get_count(c, topic(t), r, &n), "get_count", cls, when);
      same(std::to_string(n), std::to_string(g.count(topic(t), r)), "count", cls, when);
      std::vector<sut::EpInfo> v;
      must(sut::info_by_topic(c, topic(t), r, demangle, nullptr, &v), "info_by_topic", cls, when);
      same(model::canon(v), model::canon(g.info(topic(t), r, demangle)), r ? "readers info" : "writers info", cls, when);
    }
  }
  for (int k = 0; k < nnames; ++k) {
    for (int r = 0; r < 2; ++r) {
      auto want = g.by_node(node_name(k), node_ns(k), r, demangle);
      sut::Ret ret = sut::by_node(c, node_name(k), node_ns(k), r, demangle, nullptr, &nt);
      if (want.empty()) {
        if (ret.exc || ret.ret != sut::NODE_MISSING) {
          sim::violation(cls, "%s: query of the missing node %s%s gave %d", when, node_ns(k).c_str(), node_name(k).c_str(), ret.ret);
        }
        continue;
      }
      must(ret, "names_and_types_by_node", cls, when);
      if (merged) {
        // nodes sharing the name answer together for all their endpoints
        model::Names u;
        for (auto & w : want) {for (auto & x : w) {u[x.first].insert(x.second.begin(), x.second.end());}}
        want = {u};
      }
      bool ok = false;
      for (auto & w : want) {ok |= model::canon(w) == model::canon(nt);}
      if (!ok) {same(model::canon(nt), model::canon(want[0]), "names and types by node", cls, when);}
    }
  }
}
/// A long life before the run proper: more operations than 16 bits can count, by one thread, leaving nothing behind.
void long_life(sim::Plan & p, sut::Cache * c, const model::Graph & base, const Gid & local, i64 st, Churn & life)
{
  const u64 n = static_cast<u64>(p.param("churn"));
  if (!n) {return;}
  sim::set_op(60400);
  sim::Rng r(n);
  u64 how = n % 7;
  const Gid other = part_gid(8, st);
  const bool watched = life.watched;
  if (how == 4 && watched) {how = 0;}
  const size_t n0 = base.n_nodes();
  size_t mine = 0;
  for (auto & x : base.message(local).nodes) {(void)x; ++mine;}
  sut::PMsg got, one, two;
  one.gid = two.gid = other;
  for (int k = 0; k < 3; ++k) {
    sut::NodeMsg m;
    m.name = "churned_" + std::to_string(k);
    m.ns = "/churn";
    m.writers.push_back(ep_gid(700000 + k, st));
    (k ? two : one).nodes.push_back(m);
  }
  u64 before = 0;
  bool mine_on = false, flip = false;
  auto must = [&](const sut::Ret & x, int want, bool changes, u64 k) {
      if (x.exc || x.ret != want) {
        sim::violation("wrong-result", "operation %llu of a long life reported %d", static_cast<unsigned long long>(k), x.exc ? -1 : x.ret);
      }
      const bool on = watched || mine_on;
      if (on && changes && life.calls == before) {
        sim::violation("missing-notification", "change %llu of a long life did not invoke the installed callback", static_cast<unsigned long long>(k));
      }
      if ((!on || !changes) && life.calls != before) {
        sim::violation("needless-notification", "operation %llu of a long life invoked a callback for nothing", static_cast<unsigned long long>(k));
      }
      before = life.calls;
    };
  auto nodes = [&](size_t want, u64 k) {
      size_t have = 0;
      must(sut::n_nodes(c, &have), 0, false, k);
      if (have != want) {
        sim::violation("wrong-answer", "after operation %llu of a long life %zu nodes are counted, expected %zu", static_cast<unsigned long long>(k), have, want);
      }
    };
  life.on = true;
  if (how == 3) {must(sut::add_node(c, local, "churned", "/", &got), 0, true, 0);}
  if (how == 1) {must(sut::add_entity(c, ep_gid(700000, st), "rt/churn", type(0), hash(0), other, qos(0), false, 0), 1, true, 0);}
  for (u64 k = 0; k < n; ++k) {
    const i64 e = static_cast<i64>(r.below(2) ? 700010 : 700020 + k);
    switch (how) {
      case 0:
        must(sut::add_entity(c, ep_gid(e, st), "rt/churn", type(0), hash(0), other, qos(0), k & 1, 0), 1, true, k);
        must(sut::remove_entity(c, ep_gid(e, st), k & 1, 0), 1, true, k);
        break;
      case 1:
        must(sut::update(c, k & 1 ? two : one), 0, true, k);
        nodes(n0 + (k & 1 ? 2 : 1), k);
        if (((k + 4) & 0xff) < 8 || k + 100 > n) {
          std::vector<sut::EpInfo> v;
          must(sut::info_by_topic(c, "rt/churn", false, 0, nullptr, &v), 0, false, k);
          if (v.size() != 1 || v[0].node != (k & 1 ? "_NODE_NAME_UNKNOWN_" : "churned_0")) {
            sim::violation("wrong-owner", "after update %llu of a long life an endpoint is attributed to %s", static_cast<unsigned long long>(k), v.empty() ? "nobody" : v[0].node.c_str());
          }
        }
        break;
      case 2:
        must(sut::add_node(c, local, "churned", "/", &got), 0, true, k);
        if (got.nodes.size() != mine + 1) {sim::violation("wrong-answer", "add_node %llu of a long life returned %zu nodes", static_cast<unsigned long long>(k), got.nodes.size());}
        must(sut::remove_node(c, local, "churned", "/", &got), 0, true, k);
        if (got.nodes.size() != mine) {sim::violation("wrong-answer", "remove_node %llu of a long life returned %zu nodes", static_cast<unsigned long long>(k), got.nodes.size());}
        break;
      case 3:
        for (int add = 1; add >= 0; --add) {
          must(sut::associate(c, ep_gid(e, st), local, "churned", "/", k & 1, add, &got), 0, true, k);
          size_t have = 9;
          for (auto & x : got.nodes) {if (x.name == "churned") {have = x.readers.size() + x.writers.size();}}
          if (got.nodes.size() != mine + 1 || have != static_cast<size_t>(add)) {
            sim::violation("wrong-answer", "association %llu of a long life returned %zu nodes, the one in question with %zu endpoints", static_cast<unsigned long long>(k), got.nodes.size(), have);
          }
        }
        break;
      case 4: {
          mine_on = true;
          Churn * rp = &life;
          const bool old = k & 1;
          must(sut::set_callback(c, [rp, old]() {if (rp->on) {++rp->calls;} else {sim::violation("replaced-callback", "a change callback that had been cleared was invoked (%d)", old);}}), 0, false, k);
          must(sut::update(c, flip ? one : two), 0, true, k);
          flip = !flip;
          if (k % 3) {must(sut::clear_callback(c), 0, false, k); mine_on = false;}
          if (k % 16 == 8) {
            must(sut::update(c, flip ? one : two), 0, true, k);
            flip = !flip;
          }
          break;
        }
      case 5:
        must(sut::add_participant(c, other, "/churned"), 0, true, k);
        must(sut::remove_participant(c, other), 1, true, k);
        break;
      default: nodes(n0, k); break;
    }
  }
  if (how == 3) {must(sut::remove_node(c, local, "churned", "/", &got), 0, true, n);}
  if (how == 1) {must(sut::remove_entity(c, ep_gid(700000, st), false, 0), 1, true, n);}
  if (how == 1 || how == 4) {
    if (how == 4) {
      must(sut::clear_callback(c), 0, false, n);
      mine_on = false;
      must(sut::update(c, one), 0, false, n);
    }
    must(sut::remove_participant(c, other), 1, true, n);
  }
  nodes(n0, n);
  life.on = false;
  sim::count("probe.long_life", n);
}
}  // namespace util
