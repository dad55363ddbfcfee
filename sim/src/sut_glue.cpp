// Glue between the simulator and the code under test (compiled with the same instrumentation).
#include "sut.h"
#include "engine.h"

#include <algorithm>
#include <new>
#include <set>
#include <sstream>
#include <unordered_map>

#include "rcutils/allocator.h"
#include "rcutils/types/string_array.h"
#include "rmw/error_handling.h"
#include "rcutils/strdup.h"
#include "rmw/names_and_types.h"
#include "rmw/topic_endpoint_info_array.h"
#include "rmw/types.h"
#include "rmw_dds_common/context.hpp"
#include "rmw_dds_common/gid_utils.hpp"
#include "rmw_dds_common/graph_cache.hpp"
#include "rmw_dds_common/qos.hpp"
#include "rmw_dds_common/security.hpp"

#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

using rmw_dds_common::GraphCache;
using rmw_dds_common::msg::ParticipantEntitiesInfo;
using sim::HarnessScope;
using sim::NoFaultScope;
using sim::SutScope;

namespace sut
{
struct Cache {GraphCache * g; bool owned;};
struct Ctx
{
  rmw_dds_common::Context * c;
  Cache cache;
  std::function<int(const PMsg &)> * pub_fn;
  rmw_publisher_t * pub;
};

namespace
{
// ---- conversions: arguments live in the simulated heap (so that a reference kept past the call
// is noticed) but building them never fails
template<typename T> struct Arg
{
  T * p;
  template<typename ... A> explicit Arg(A && ... a)
  {
    SutScope s;
    NoFaultScope n;
    p = new T(std::forward<A>(a)...);
  }
  ~Arg()
  {
    SutScope s;
    delete p;
  }
  Arg(const Arg &) = delete;
  T & operator*() {return *p;}
};
struct Str
{
  std::string * p;
  explicit Str(const std::string & v)
  {
    SutScope s;
    NoFaultScope n;
    p = new std::string(v.c_str(), v.size());
  }
  ~Str() {SutScope s; delete p;}
  Str(const Str &) = delete;
  operator const std::string &() const {return *p;}
};
struct RG
{
  rmw_gid_t * p;
  explicit RG(const Gid & g)
  {
    SutScope s;
    NoFaultScope n;
    p = new rmw_gid_t();
    p->implementation_identifier = "sim";
    memcpy(p->data, g.b, 16);
  }
  ~RG() {SutScope s; delete p;}
  RG(const RG &) = delete;
  operator const rmw_gid_t &() const {return *p;}
};
rmw_time_t to_time(const Dur & d) {rmw_time_t t; t.sec = d.s; t.nsec = d.ns; return t;}
Dur from_time(const rmw_time_t & t) {Dur d; d.s = t.sec; d.ns = t.nsec; return d;}
rmw_qos_profile_t to_qos(const Qos & q)
{
  rmw_qos_profile_t r;
  memset(&r, 0, sizeof(r));
  r.history = static_cast<rmw_qos_history_policy_t>(q.history);
  r.depth = q.depth;
  r.reliability = static_cast<rmw_qos_reliability_policy_t>(q.rel);
  r.durability = static_cast<rmw_qos_durability_policy_t>(q.dur);
  r.deadline = to_time(q.deadline);
  r.lifespan = to_time(q.lifespan);
  r.liveliness = static_cast<rmw_qos_liveliness_policy_t>(q.liv);
  r.liveliness_lease_duration = to_time(q.lease);
  r.avoid_ros_namespace_conventions = q.avoid;
  return r;
}
Qos from_qos(const rmw_qos_profile_t & r)
{
  Qos q;
  q.history = r.history;
  q.depth = r.depth;
  q.rel = r.reliability;
  q.dur = r.durability;
  q.deadline = from_time(r.deadline);
  q.lifespan = from_time(r.lifespan);
  q.liv = r.liveliness;
  q.lease = from_time(r.liveliness_lease_duration);
  q.avoid = r.avoid_ros_namespace_conventions;
  return q;
}
rosidl_type_hash_t to_hash(const Hash & h)
{
  rosidl_type_hash_t r;
  memset(&r, 0, sizeof(r));
  r.version = static_cast<uint8_t>(h.version);
  memcpy(r.value, h.v, 32);
  return r;
}
Hash from_hash(const rosidl_type_hash_t & r)
{
  Hash h;
  h.version = r.version;
  memcpy(h.v, r.value, 32);
  return h;
}
Gid from_msg_gid(const rmw_dds_common::msg::Gid & g)
{
  Gid r;
  memcpy(r.b, g.data.data(), 16);
  return r;
}
void to_msg(const PMsg & in, ParticipantEntitiesInfo & out)
{
  memcpy(out.gid.data.data(), in.gid.b, 16);
  for (const auto & n : in.nodes) {
    out.node_entities_info_seq.emplace_back();
    auto & o = out.node_entities_info_seq.back();
    o.node_name = std::string(n.name.c_str());
    o.node_namespace = std::string(n.ns.c_str());
    for (const auto & g : n.readers) {
      o.reader_gid_seq.emplace_back();
      memcpy(o.reader_gid_seq.back().data.data(), g.b, 16);
    }
    for (const auto & g : n.writers) {
      o.writer_gid_seq.emplace_back();
      memcpy(o.writer_gid_seq.back().data.data(), g.b, 16);
    }
  }
}
void read_string(const std::string & s, std::string * out)
{
  sim::check_range(s.data(), s.size(), false, __builtin_return_address(0));
  HarnessScope h;
  out->assign(s.data(), s.size());
}
/// Called with in_sut set: the reads take part in race and memory checking.
void from_msg(const ParticipantEntitiesInfo & in, PMsg * out)
{
  out->gid = from_msg_gid(in.gid);
  size_t n = in.node_entities_info_seq.size();
  {HarnessScope h; out->nodes.clear(); out->nodes.resize(n);}
  for (size_t i = 0; i < n; ++i) {
    const auto & o = in.node_entities_info_seq[i];
    NodeMsg & m = out->nodes[i];
    read_string(o.node_name, &m.name);
    read_string(o.node_namespace, &m.ns);
    for (const auto & g : o.reader_gid_seq) {
      Gid x = from_msg_gid(g);
      HarnessScope h;
      m.readers.push_back(x);
    }
    for (const auto & g : o.writer_gid_seq) {
      Gid x = from_msg_gid(g);
      HarnessScope h;
      m.writers.push_back(x);
    }
  }
}

/// Runs the real call: exceptions become codes, and no lock may stay held afterwards.
template<typename F>
Ret call(const char * name, F && f)
{
  Ret r;
  int locks = sim::locks_held();
  int scope = sim::in_sut;
  sim::in_sut = 1;
  try {
    r.ret = static_cast<int>(f());
  } catch (const std::bad_alloc &) {
    r.exc = 1;
  } catch (const std::exception & e) {
    r.exc = 2;
    HarnessScope h;
    r.what = e.what();
  } catch (...) {
    r.exc = 2;
  }
  sim::in_sut = scope;
  if (sim::locks_held() != locks) {
    sim::violation("lock-held", "%s returned with a lock held: %s", name, sim::locks_desc().c_str());
  }
  return r;
}

// ---- the caller-supplied allocator of a query
struct QState
{
  QAlloc * q;
  std::set<void *> live;
};
bool q_fail(QState * s)
{
  HarnessScope h;
  int n = s->q->n_alloc++;
  int from = s->q->fail_from, len = s->q->fail_len;
  bool f = sim::decide(sim::K_ALLOC, 0, [n, from, len](sim::Rng &) -> sim::i64 {
        return from >= 0 && n >= from && n < from + len;
      }) != 0;
  if (f) {s->q->failed++; sim::note_fault("caller_allocator_failed");}
  return f;
}
void * q_alloc(size_t n, void * st)
{
  QState * s = static_cast<QState *>(st);
  if (q_fail(s)) {return nullptr;}
  void * p = sim::arena_alloc(n, false);
  HarnessScope h;
  s->live.insert(p);
  return p;
}
void q_free(void * p, void * st)
{
  if (!p) {return;}
  QState * s = static_cast<QState *>(st);
  {
    HarnessScope h;
    if (!s->live.erase(p)) {
      sim::violation(
        "bad-dealloc", "the caller's allocator was asked to release memory it does not own%s",
        sim::in_arena(p) ? " (already released, or from another allocator)" : "");
    }
  }
  sim::arena_free(p, "deallocate");
}
void * q_realloc(void * p, size_t n, void * st)
{
  QState * s = static_cast<QState *>(st);
  if (q_fail(s)) {return nullptr;}
  void * q = sim::arena_alloc(n, false);
  if (p) {
    size_t old = reinterpret_cast<uint32_t *>(reinterpret_cast<char *>(p) - 16)[1];
    memcpy(q, p, old < n ? old : n);
    q_free(p, st);
  }
  HarnessScope h;
  s->live.insert(q);
  return q;
}
void * q_zalloc(size_t n, size_t sz, void * st)
{
  QState * s = static_cast<QState *>(st);
  if (q_fail(s)) {return nullptr;}
  s->q->zero_alloc_used = true;
  void * p = sim::arena_alloc(n * sz, true);
  HarnessScope h;
  s->live.insert(p);
  return p;
}
struct QueryAllocator
{
  QAlloc dflt;
  QState st;
  rcutils_allocator_t * a;  // in the simulated heap: gone after the query
  explicit QueryAllocator(QAlloc * q)
  {
    st.q = q ? q : &dflt;
    SutScope s;
    NoFaultScope n;
    a = new rcutils_allocator_t();
    a->allocate = q_alloc;
    a->deallocate = q_free;
    a->reallocate = q_realloc;
    a->zero_allocate = q_zalloc;
    a->state = &st;
  }
  ~QueryAllocator() {SutScope s; delete a;}
  void owned(const void * p, const char * what)
  {
    HarnessScope h;
    if (p && !st.live.count(const_cast<void *>(p))) {
      sim::violation("foreign-memory", "%s is not memory of the caller's allocator", what);
    }
  }
  void check_empty(const char * query, const char * when)
  {
    if (!st.live.empty()) {
      sim::violation(
        "leak", "%s %s left %zu block(s) of the caller's allocator allocated", query, when,
        st.live.size());
    }
  }
};
void read_cstr(const char * p, std::string * out)
{
  size_t n = 0;
  for (;; ++n) {
    sim::check_range(p + n, 1, false, __builtin_return_address(0));
    if (!p[n]) {break;}
  }
  HarnessScope h;
  out->assign(p, n);
}
typedef GraphCache::DemangleFunctionT DF;
struct DemangleTopic {int m; std::string operator()(const std::string & s) const {return demangle_topic(m, s);}};
struct DemangleType {int m; std::string operator()(const std::string & s) const {return demangle_type(m, s);}};
}  // namespace

std::string demangle_topic(int mode, const std::string & s)
{
  if (mode == 0) {return s;}
  if (s.size() > 3 && s[0] == 'r' && s[1] == 't' && s[2] == '/') {return s.substr(2);}
  return "";
}
std::string demangle_type(int mode, const std::string & s)
{
  if (mode == 0) {return s;}
  auto p = s.find("dds_::");
  if (p == std::string::npos) {return s;}
  return s.substr(0, p) + s.substr(p + 6);
}

Cache * cache_new()
{
  Cache * c = new Cache;
  c->owned = true;
  SutScope s;
  NoFaultScope n;
  c->g = new GraphCache();
  return c;
}
void cache_delete(Cache * c)
{
  if (c->owned) {
    SutScope s;
    delete c->g;
  }
  delete c;
}
Ret add_entity(
  Cache * c, const Gid & gid, const std::string & topic, const std::string & type, const Hash & hash,
  const Gid & part, const Qos & qos, bool reader, int variant)
{
  RG g(gid), p(part);
  Str to(topic), ty(type);
  Arg<rosidl_type_hash_t> h(to_hash(hash));
  Arg<rmw_qos_profile_t> q(to_qos(qos));
  GraphCache * gc = c->g;
  return call("add_entity", [&] {
             switch (variant) {
               case 0: return reader ? gc->add_reader(g, to, ty, *h, p, *q) : gc->add_writer(g, to, ty, *h, p, *q);
               case 1: return gc->add_entity(g, to, ty, *h, p, *q, reader);
               case 2: return reader ? gc->add_reader(g, to, ty, p, *q) : gc->add_writer(g, to, ty, p, *q);
               default: return gc->add_entity(g, to, ty, p, *q, reader);
             }
           });
}
Ret remove_entity(Cache * c, const Gid & gid, bool reader, int variant)
{
  RG g(gid);
  return call("remove_entity", [&] {
             if (variant & 1) {return c->g->remove_entity(g, reader);}
             return reader ? c->g->remove_reader(g) : c->g->remove_writer(g);
           });
}
Ret update(Cache * c, const PMsg & m)
{
  Arg<ParticipantEntitiesInfo> a;
  {
    SutScope s;
    NoFaultScope n;
    to_msg(m, *a);
  }
  return call("update_participant_entities", [&] {c->g->update_participant_entities(*a); return 0;});
}
Ret add_participant(Cache * c, const Gid & gid, const std::string & enclave)
{
  RG g(gid);
  Str e(enclave);
  return call("add_participant", [&] {c->g->add_participant(g, e); return 0;});
}
Ret remove_participant(Cache * c, const Gid & gid)
{
  RG g(gid);
  return call("remove_participant", [&] {return c->g->remove_participant(g);});
}
namespace
{
template<typename F> Ret msg_call(const char * name, PMsg * out, F && f)
{
  return call(name, [&] {
             ParticipantEntitiesInfo m = f();
             if (out) {NoFaultScope n; from_msg(m, out);}
             return 0;
           });
}
}  // namespace
Ret add_node(Cache * c, const Gid & part, const std::string & name, const std::string & ns, PMsg * out)
{
  RG p(part);
  Str a(name), b(ns);
  return msg_call("add_node", out, [&] {return c->g->add_node(p, a, b);});
}
Ret remove_node(Cache * c, const Gid & part, const std::string & name, const std::string & ns, PMsg * out)
{
  RG p(part);
  Str a(name), b(ns);
  return msg_call("remove_node", out, [&] {return c->g->remove_node(p, a, b);});
}
Ret associate(
  Cache * c, const Gid & ep, const Gid & part, const std::string & name, const std::string & ns,
  bool reader, bool add, PMsg * out)
{
  RG e(ep), p(part);
  Str a(name), b(ns);
  return msg_call("associate", out, [&] {
             if (add) {return reader ? c->g->associate_reader(e, p, a, b) : c->g->associate_writer(e, p, a, b);}
             return reader ? c->g->dissociate_reader(e, p, a, b) : c->g->dissociate_writer(e, p, a, b);
           });
}
Ret get_count(Cache * c, const std::string & topic, bool reader, size_t * n)
{
  Str t(topic);
  Arg<size_t> out(static_cast<size_t>(777));
  Ret r = call("get_count", [&] {
        return reader ? c->g->get_reader_count(t, out.p) : c->g->get_writer_count(t, out.p);
      });
  *n = *out;
  return r;
}
Ret info_by_topic(
  Cache * c, const std::string & topic, bool reader, int demangle, QAlloc * q, std::vector<EpInfo> * out)
{
  QueryAllocator al(q);
  Str t(topic);
  Arg<rmw_topic_endpoint_info_array_t> arr(rmw_get_zero_initialized_topic_endpoint_info_array());
  rmw_topic_endpoint_info_array_t * a = arr.p;
  Ret r = call("info_by_topic", [&] {
        DF d;
        {NoFaultScope n; d = DemangleType{demangle};}
        return reader ? c->g->get_readers_info_by_topic(t, d, al.a, a) :
               c->g->get_writers_info_by_topic(t, d, al.a, a);
      });
  if (r.ok()) {
    SutScope s;
    NoFaultScope nf;
    al.owned(a->info_array, "info_array");
    {HarnessScope h; out->clear();}
    for (size_t i = 0; i < a->size; ++i) {
      const rmw_topic_endpoint_info_t & e = a->info_array[i];
      EpInfo * x;
      {HarnessScope h; out->emplace_back(); x = &out->back();}
      const char * strs[3] = {e.node_name, e.node_namespace, e.topic_type};
      std::string * dst[3] = {&x->node, &x->ns, &x->type};
      for (int k = 0; k < 3; ++k) {
        HarnessScope h;
        if (!strs[k]) {sim::violation("wrong-answer", "endpoint information with a null string");}
        al.owned(strs[k], "an endpoint info string");
        SutScope s2;
        read_cstr(strs[k], dst[k]);
      }
      x->hash = from_hash(e.topic_type_hash);
      x->kind = e.endpoint_type;
      memcpy(x->gid.b, e.endpoint_gid, 16);
      x->qos = from_qos(e.qos_profile);
    }
  } else {
    al.check_empty("info_by_topic", "failed and");
  }
  {
    SutScope s;
    rmw_ret_t f = rmw_topic_endpoint_info_array_fini(a, al.a);
    HarnessScope h;
    if (f != RMW_RET_OK && r.ok()) {sim::violation("bad-output", "the result of info_by_topic cannot be finalized");}
  }
  al.check_empty("info_by_topic", "after finalizing");
  rmw_reset_error();
  return r;
}
namespace
{
void read_nt(QueryAllocator & al, rmw_names_and_types_t * nt, NT * out)
{
  SutScope s;
  NoFaultScope nf;
  {HarnessScope h; out->clear();}
  al.owned(nt->names.data, "names");
  al.owned(nt->types, "types");
  for (size_t i = 0; i < nt->names.size; ++i) {
    {
      HarnessScope h;
      out->emplace_back();
      if (!nt->names.data[i]) {sim::violation("wrong-answer", "null topic name in a successful answer");}
      al.owned(nt->names.data[i], "a topic name");
    }
    read_cstr(nt->names.data[i], &out->back().first);
    al.owned(nt->types[i].data, "a type array");
    for (size_t k = 0; k < nt->types[i].size; ++k) {
      {
        HarnessScope h;
        out->back().second.emplace_back();
        if (!nt->types[i].data[k]) {sim::violation("wrong-answer", "null type name in a successful answer");}
        al.owned(nt->types[i].data[k], "a type name");
      }
      read_cstr(nt->types[i].data[k], &out->back().second.back());
    }
  }
}
template<typename F> Ret nt_query(const char * name, QAlloc * q, NT * out, F && f)
{
  QueryAllocator al(q);
  Arg<rmw_names_and_types_t> nt(rmw_get_zero_initialized_names_and_types());
  Ret r = call(name, [&] {return f(al.a, nt.p);});
  if (r.ok()) {read_nt(al, nt.p, out);} else {al.check_empty(name, "failed and");}
  {
    SutScope s;
    rmw_ret_t x = rmw_names_and_types_fini(nt.p);
    HarnessScope h;
    if (x != RMW_RET_OK && r.ok()) {sim::violation("bad-output", "the result of %s cannot be finalized", name);}
  }
  al.check_empty(name, "after finalizing");
  rmw_reset_error();
  return r;
}
}  // namespace
Ret names_and_types(Cache * c, int demangle, QAlloc * q, NT * out)
{
  return nt_query("names_and_types", q, out, [&](rcutils_allocator_t * a, rmw_names_and_types_t * nt) {
             DF d, e;
             {NoFaultScope n; d = DemangleTopic{demangle}; e = DemangleType{demangle};}
             return c->g->get_names_and_types(d, e, a, nt);
           });
}
Ret by_node(
  Cache * c, const std::string & name, const std::string & ns, bool reader, int demangle, QAlloc * q, NT * out)
{
  Str sn(name), ss(ns);
  return nt_query("names_and_types_by_node", q, out, [&](rcutils_allocator_t * a, rmw_names_and_types_t * nt) {
             DF d, e;
             {NoFaultScope n; d = DemangleTopic{demangle}; e = DemangleType{demangle};}
             return reader ? c->g->get_reader_names_and_types_by_node(sn, ss, d, e, a, nt) :
                    c->g->get_writer_names_and_types_by_node(sn, ss, d, e, a, nt);
           });
}
Ret n_nodes(Cache * c, size_t * n)
{
  size_t v = 0;
  Ret r = call("get_number_of_nodes", [&] {v = c->g->get_number_of_nodes(); return 0;});
  *n = v;
  return r;
}
Ret node_names(Cache * c, bool enclaves, QAlloc * q, std::vector<NodeName> * out)
{
  QueryAllocator al(q);
  struct Three {rcutils_string_array_t a[3];};
  Arg<Three> t;
  for (int i = 0; i < 3; ++i) {t.p->a[i] = rcutils_get_zero_initialized_string_array();}
  rcutils_string_array_t * arr = t.p->a;
  Ret r = call("get_node_names", [&] {
        return c->g->get_node_names(&arr[0], &arr[1], enclaves ? &arr[2] : nullptr, al.a);
      });
  int k = enclaves ? 3 : 2;
  if (r.ok()) {
    SutScope s;
    NoFaultScope nf;
    {
      HarnessScope h;
      out->clear();
      for (int i = 0; i < k; ++i) {
        al.owned(arr[i].data, "a name array");
        if (arr[i].size != arr[0].size) {sim::violation("wrong-answer", "get_node_names arrays differ in size");}
      }
      if (arr[0].size < 100000) {out->resize(arr[0].size);}
    }
    for (size_t j = 0; j < arr[0].size; ++j) {
      std::string * dst[3] = {&(*out)[j].name, &(*out)[j].ns, &(*out)[j].enclave};
      for (int i = 0; i < k; ++i) {
        {
          HarnessScope h;
          if (!arr[i].data[j]) {sim::violation("wrong-answer", "null entry in get_node_names");}
          al.owned(arr[i].data[j], "a node name");
        }
        read_cstr(arr[i].data[j], dst[i]);
      }
    }
  } else {
    al.check_empty("get_node_names", "failed and");
  }
  for (int i = 0; i < k; ++i) {
    SutScope s;
    rcutils_ret_t x = rcutils_string_array_fini(&arr[i]);
    HarnessScope h;
    if (x != RCUTILS_RET_OK && r.ok()) {sim::violation("bad-output", "the result of get_node_names cannot be finalized");}
  }
  al.check_empty("get_node_names", "after finalizing");
  rmw_reset_error();
  return r;
}
Ret refused(Cache * c, int kind, int bad, const std::string & name, const std::string & ns, bool reader)
{
  QueryAllocator al(nullptr);
  struct Outs {rcutils_string_array_t a[3]; rmw_names_and_types_t nt; rcutils_allocator_t none;};
  Arg<Outs> o;
  Arg<size_t> count(static_cast<size_t>(777));
  Str sn(name), ss(ns);
  Outs * t = o.p;
  memset(t, 0, sizeof(*t));
  for (int i = 0; i < 3; ++i) {t->a[i] = rcutils_get_zero_initialized_string_array();}
  t->nt = rmw_get_zero_initialized_names_and_types();
  t->none = rcutils_get_zero_initialized_allocator();
  bool names = kind < 2;
  auto fill = [&](rcutils_string_array_t * a, size_t n) {
      SutScope s;
      NoFaultScope nf;
      if (rcutils_string_array_init(a, n, al.a) != RCUTILS_RET_OK) {sim::internal_error("cannot fill an output");}
      for (size_t k = 0; k < n; ++k) {a->data[k] = rcutils_strdup("earlier", *al.a);}
    };
  // bad: 0..2 an output that holds something, 3 no usable allocator, 4 no output
  if (names && bad < 3) {fill(&t->a[kind == 0 ? bad : bad % 2], 1 + static_cast<size_t>(bad) % 2);}
  if (!names && kind != 3 && bad < 3) {
    SutScope s;
    NoFaultScope nf;
    if (rmw_names_and_types_init(&t->nt, 1, al.a) != RMW_RET_OK) {sim::internal_error("cannot fill an output");}
    t->nt.names.data[0] = rcutils_strdup("earlier", *al.a);
  }
  Outs before = *t;
  std::set<void *> live = al.st.live;
  rcutils_allocator_t * a = bad == 3 ? &t->none : al.a;
  Ret r = call("a call with invalid arguments", [&] {
        if (kind == 3) {return reader ? c->g->get_reader_count(sn, nullptr) : c->g->get_writer_count(sn, nullptr);}
        if (names) {
          return c->g->get_node_names(bad == 4 ? nullptr : &t->a[0], &t->a[1], kind == 0 ? &t->a[2] : nullptr, a);
        }
        DF d, e;
        {NoFaultScope n; d = DemangleTopic{0}; e = DemangleType{0};}
        rmw_names_and_types_t * nt = bad == 4 ? nullptr : &t->nt;
        if (kind == 2) {return c->g->get_names_and_types(d, e, a, nt);}
        return reader ? c->g->get_reader_names_and_types_by_node(sn, ss, d, e, a, nt) :
               c->g->get_writer_names_and_types_by_node(sn, ss, d, e, a, nt);
      });
  if (memcmp(&before, t, sizeof(before)) != 0) {
    sim::violation("bad-output", "a query refused for invalid arguments (%d/%d, result %d) changed the caller's outputs", kind, bad, r.ret);
  }
  if (al.st.live != live) {
    sim::violation("leak", "a query refused for invalid arguments (%d/%d) allocated or released memory of the caller", kind, bad);
  }
  {
    SutScope s;
    for (int i = 0; i < 3; ++i) {static_cast<void>(rcutils_string_array_fini(&t->a[i]));}
    static_cast<void>(rmw_names_and_types_fini(&t->nt));
  }
  al.check_empty("a query with invalid arguments", "after finalizing");
  rmw_reset_error();
  return r;
}
Ret dump(Cache * c, std::string * out)
{
  // The stream is the harness's own; only the library's part runs simulated.
  std::ostringstream os;
  Ret r = call("operator<<", [&] {os << *c->g; return 0;});
  *out = os.str();
  return r;
}
Ret gid_text(const Gid & g, std::string * out)
{
  std::ostringstream os;
  RG x(g);
  Ret r = call("operator<<", [&] {using rmw_dds_common::operator<<; os << static_cast<const rmw_gid_t &>(x); return 0;});
  *out = os.str();
  return r;
}
namespace
{
/// The installed callback: owns simulated memory, so that invoking a destroyed one is noticed.
struct CallbackFn
{
  int * token;
  const std::function<void()> * fn;
  explicit CallbackFn(const std::function<void()> * f)
  : token(new int(42)), fn(f) {}
  CallbackFn(const CallbackFn & o)
  : token(new int(*o.token)), fn(o.fn) {}
  CallbackFn & operator=(const CallbackFn &) = delete;
  ~CallbackFn()
  {
    *token = 0;
    delete token;
  }
  void operator()() const
  {
    if (*token != 42) {sim::violation("use-after-free", "a destroyed change callback was invoked");}
    int before = *token;
    {
      HarnessScope h;
      (*fn)();
    }
    // the callback object must stay alive while it runs
    if (*token != before) {sim::violation("use-after-free", "the change callback was destroyed while running");}
  }
};
}  // namespace
Ret set_callback(Cache * c, const std::function<void()> & f)
{
  const std::function<void()> * keep = new std::function<void()>(f);  // lives as long as the run
  CallbackFn * cb;
  {
    SutScope s;
    NoFaultScope n;
    cb = new CallbackFn(keep);
  }
  Ret r = call("set_on_change_callback", [&] {c->g->set_on_change_callback(*cb); return 0;});
  SutScope s;
  delete cb;
  return r;
}
Ret clear_callback(Cache * c)
{
  return call("clear_on_change_callback", [&] {c->g->clear_on_change_callback(); return 0;});
}

// ---------------------------------------------------------------- Context
Ctx * ctx_new(const Gid & gid)
{
  Ctx * x = new Ctx;
  x->pub_fn = new std::function<int(const PMsg &)>;
  SutScope s;
  NoFaultScope n;
  x->c = new rmw_dds_common::Context();
  x->pub = new rmw_publisher_t();
  x->c->gid.implementation_identifier = "sim";
  memcpy(x->c->gid.data, gid.b, 16);
  x->c->pub = x->pub;
  x->c->sub = nullptr;
  x->c->thread_is_running.store(false);
  x->c->listener_thread_gc = nullptr;
  x->c->graph_guard_condition = nullptr;
  x->cache.g = &x->c->graph_cache;
  x->cache.owned = false;
  return x;
}
void ctx_delete(Ctx * x)
{
  {
    SutScope s;
    delete x->c;
    delete x->pub;
  }
  delete x->pub_fn;
  delete x;
}
Cache * ctx_cache(Ctx * x) {return &x->cache;}
static void install_publish(Ctx * x)
{
  const std::function<int(const PMsg &)> * fn = x->pub_fn;
  const rmw_publisher_t * expect = x->pub;
  SutScope s;
  NoFaultScope n;
  x->c->publish_callback = [fn, expect](const rmw_publisher_t * pub, const void * msg) -> rmw_ret_t {
      PMsg m;
      {
        NoFaultScope nf;
        from_msg(*static_cast<const ParticipantEntitiesInfo *>(msg), &m);
      }
      HarnessScope h;
      if (pub != expect) {sim::violation("wrong-publisher", "published with another publisher");}
      int r = (*fn)(m);
      {
        // the message must not change while the middleware holds it
        PMsg after;
        SutScope s2;
        NoFaultScope nf;
        from_msg(*static_cast<const ParticipantEntitiesInfo *>(msg), &after);
        HarnessScope h2;
        if (after.str() != m.str()) {sim::violation("message-changed", "the message changed during publish");}
      }
      return r;
    };
}
void ctx_set_publish(Ctx * x, const std::function<int(const PMsg &)> & f)
{
  *x->pub_fn = f;
  install_publish(x);
}
void ctx_set_pub(Ctx * x, bool has_pub, bool has_callback)
{
  {
    SutScope s;
    NoFaultScope n;
    x->c->pub = has_pub ? x->pub : nullptr;
    if (!has_callback) {x->c->publish_callback = nullptr;}
  }
  if (has_callback) {install_publish(x);}
}
Ret ctx_op(
  Ctx * x, CtxOp op, bool add, const Gid & ga, const Gid & gb, const std::string & name, const std::string & ns)
{
  RG a(ga), b(gb);
  Str n(name), s(ns);
  rmw_dds_common::Context * c = x->c;
  Ret r = call("context operation", [&] {
        switch (op) {
          case NODE: return add ? c->add_node_graph(n, s) : c->remove_node_graph(n, s);
          case PUBLISHER: return add ? c->add_publisher_graph(a, n, s) : c->remove_publisher_graph(a, n, s);
          case SUBSCRIPTION: return add ? c->add_subscriber_graph(a, n, s) : c->remove_subscriber_graph(a, n, s);
          case CLIENT: return add ? c->add_client_graph(a, b, n, s) : c->remove_client_graph(a, b, n, s);
          default: return add ? c->add_service_graph(a, b, n, s) : c->remove_service_graph(a, b, n, s);
        }
      });
  rmw_reset_error();
  return r;
}

// ---------------------------------------------------------------- QoS
namespace
{
/// Fills an array the way an rmw implementation would, with the caller's allocator.
rmw_ret_t fill_infos(
  const std::vector<EpInfo> & in, rcutils_allocator_t * a, rmw_topic_endpoint_info_array_t * out)
{
  if (in.empty()) {return RMW_RET_OK;}
  rmw_ret_t r = rmw_topic_endpoint_info_array_init_with_size(out, in.size(), a);
  if (r != RMW_RET_OK) {return r;}
  for (size_t i = 0; i < in.size() && r == RMW_RET_OK; ++i) {
    rmw_topic_endpoint_info_t * e = &out->info_array[i];
    *e = rmw_get_zero_initialized_topic_endpoint_info();
    r = rmw_topic_endpoint_info_set_node_name(e, in[i].node.c_str(), a);
    if (r == RMW_RET_OK) {r = rmw_topic_endpoint_info_set_node_namespace(e, in[i].ns.c_str(), a);}
    if (r == RMW_RET_OK) {r = rmw_topic_endpoint_info_set_topic_type(e, in[i].type.c_str(), a);}
    rmw_qos_profile_t q = to_qos(in[i].qos);
    if (r == RMW_RET_OK) {r = rmw_topic_endpoint_info_set_qos_profile(e, &q);}
  }
  if (r != RMW_RET_OK) {
    rmw_ret_t f = rmw_topic_endpoint_info_array_fini(out, a);
    (void)f;
  }
  return r;
}
}  // namespace
Ret best_available(
  bool subscription, const std::string & topic, Qos * qos, QAlloc * q,
  const std::function<int(const std::string & topic, bool mangle)> & on_query, Cache * backing,
  const std::function<ProviderResult()> & provider, int * queried)
{
  QueryAllocator al(q);
  Arg<rmw_node_t> node;
  Arg<rmw_context_t> ctx;
  Str t(topic), name(std::string("resolver")), ns(std::string("/"));
  {
    SutScope s;
    memset(node.p, 0, sizeof(rmw_node_t));
    memset(ctx.p, 0, sizeof(rmw_context_t));
    node.p->implementation_identifier = "sim";
    node.p->name = name.p->c_str();
    node.p->namespace_ = ns.p->c_str();
    node.p->context = ctx.p;
    ctx.p->options.allocator = *al.a;
  }
  Arg<rmw_qos_profile_t> prof(to_qos(*qos));
  int nq = 0;
  rmw_dds_common::GetEndpointInfoByTopicFunction fn;
  auto get = [&](
    const rmw_node_t * n, rcutils_allocator_t * a, const char * tn, bool mangle,
    rmw_topic_endpoint_info_array_t * out) -> rmw_ret_t {
      int pre;
      {
        HarnessScope h;
        ++nq;
        if (n != node.p) {sim::violation("wrong-query", "the peers were queried for another node");}
        if (a->state != &al.st) {sim::violation("foreign-memory", "the peers were queried with another allocator");}
        if (out->size || out->info_array) {sim::violation("wrong-query", "the peer array is not zero initialized");}
        std::string tstr;
        {SutScope s2; read_cstr(tn, &tstr);}
        pre = on_query(tstr, mangle);
      }
      if (pre) {return pre;}
      if (backing) {
        DF d;
        {NoFaultScope nf; d = DemangleType{0};}
        return subscription ? backing->g->get_writers_info_by_topic(tn, d, a, out) :
               backing->g->get_readers_info_by_topic(tn, d, a, out);
      }
      ProviderResult pr;
      {HarnessScope h; pr = provider();}
      rmw_ret_t r = fill_infos(pr.infos, a, out);
      {HarnessScope h; ProviderResult().infos.swap(pr.infos);}
      if (r == RMW_RET_OK && pr.ret) {
        // a provider that fails late cleans up after itself
        rmw_ret_t f = rmw_topic_endpoint_info_array_fini(out, a);
        (void)f;
        return pr.ret;
      }
      return r;
    };
  {
    SutScope s;
    NoFaultScope nf;
    fn = std::ref(get);
  }
  Ret r = call("best_available", [&] {
        return subscription ?
               rmw_dds_common::qos_profile_get_best_available_for_topic_subscription(node.p, t.p->c_str(), prof.p, fn) :
               rmw_dds_common::qos_profile_get_best_available_for_topic_publisher(node.p, t.p->c_str(), prof.p, fn);
      });
  *qos = from_qos(*prof);
  *queried = nq;
  al.check_empty("best_available", r.ok() ? "succeeded and" : "failed and");
  rmw_reset_error();
  return r;
}
Ret best_refused(bool subscription, int bad, Qos * qos, int * queried)
{
  Arg<rmw_node_t> node;
  memset(node.p, 0, sizeof(rmw_node_t));
  Arg<rmw_qos_profile_t> prof(to_qos(*qos));
  Arg<rmw_topic_endpoint_info_array_t> infos(rmw_get_zero_initialized_topic_endpoint_info_array());
  Str t(std::string("topic"));
  int nq = 0;
  rmw_dds_common::GetEndpointInfoByTopicFunction fn;
  auto get = [&](
    const rmw_node_t *, rcutils_allocator_t *, const char *, bool, rmw_topic_endpoint_info_array_t *) -> rmw_ret_t {
      ++nq;
      return RMW_RET_ERROR;
    };
  {
    SutScope s;
    NoFaultScope nf;
    fn = std::ref(get);
  }
  Ret r = call("best_available with an invalid argument", [&] {
        if (bad >= 3) {
          auto i = bad == 3 ? nullptr : infos.p;
          auto q = bad == 4 ? nullptr : prof.p;
          return subscription ? rmw_dds_common::qos_profile_get_best_available_for_subscription(i, q) :
                 rmw_dds_common::qos_profile_get_best_available_for_publisher(i, q);
        }
        auto n = bad == 0 ? nullptr : node.p;
        auto c = bad == 1 ? nullptr : t.p->c_str();
        auto q = bad == 2 ? nullptr : prof.p;
        return subscription ? rmw_dds_common::qos_profile_get_best_available_for_topic_subscription(n, c, q, fn) :
               rmw_dds_common::qos_profile_get_best_available_for_topic_publisher(n, c, q, fn);
      });
  *qos = from_qos(*prof);
  *queried = nq;
  rmw_reset_error();
  return r;
}
Ret check_compatible(const Qos & pub, const Qos & sub, int * compat, std::string * reason)
{
  rmw_qos_compatibility_type_t c = RMW_QOS_COMPATIBILITY_OK;
  char buf[2048];
  memset(buf, 0, sizeof(buf));
  rmw_qos_profile_t p = to_qos(pub), s = to_qos(sub);
  Ret r = call("qos_profile_check_compatible", [&] {
        return rmw_dds_common::qos_profile_check_compatible(p, s, &c, buf, sizeof(buf));
      });
  *compat = c;
  if (reason) {*reason = buf;}
  rmw_reset_error();
  return r;
}
Ret encode_hash(const Hash & h, std::string * out)
{
  Arg<rosidl_type_hash_t> th(to_hash(h));
  Str s(*out);
  Ret r = call("encode_type_hash_for_user_data_qos", [&] {
        return rmw_dds_common::encode_type_hash_for_user_data_qos(*th, *s.p);
      });
  out->assign(s.p->data(), s.p->size());
  rmw_reset_error();
  return r;
}
Ret parse_hash(const std::vector<uint8_t> & data, bool null_data, Hash * out)
{
  Arg<rosidl_type_hash_t> th(to_hash(*out));
  uint8_t * buf = nullptr;
  {
    SutScope s;
    // exactly as large as the data: any read beyond it is out of bounds
    if (!null_data) {buf = static_cast<uint8_t *>(sim::arena_alloc(data.size(), false));}
  }
  if (buf && !data.empty()) {memcpy(buf, data.data(), data.size());}
  Ret r = call("parse_type_hash_from_user_data", [&] {
        return rmw_dds_common::parse_type_hash_from_user_data(buf, data.size(), *th);
      });
  *out = from_hash(*th);
  if (buf) {
    SutScope s;
    sim::arena_free(buf, "release of the user data");
  }
  rmw_reset_error();
  return r;
}

// ---------------------------------------------------------------- security
Ret security_files(
  int overload, bool pkcs11, const std::string & prefix, const std::string & root,
  std::map<std::string, std::string> * inout, bool * result)
{
  Str p(prefix), ro(root);
  Arg<std::unordered_map<std::string, std::string>> m;
  {
    SutScope s;
    NoFaultScope n;
    for (const auto & kv : *inout) {m.p->emplace(std::string(kv.first.c_str()), std::string(kv.second.c_str()));}
  }
  Ret r = call("get_security_files", [&] {
        return overload ? rmw_dds_common::get_security_files(pkcs11, p, ro, *m.p) :
               rmw_dds_common::get_security_files(p, ro, *m.p);
      });
  *result = r.ret != 0;
  inout->clear();
  for (const auto & kv : *m.p) {
    (*inout)[std::string(kv.first.data(), kv.first.size())] = std::string(kv.second.data(), kv.second.size());
  }
  return r;
}
}  // namespace sut
