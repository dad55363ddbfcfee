// Helpers of the demonstrations.
#ifndef DEMO_H_
#define DEMO_H_
#include <sys/stat.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "rcutils/allocator.h"
#include "rcutils/types/string_array.h"
#include "rmw/names_and_types.h"
#include "rmw/qos_profiles.h"
#include "rmw/topic_endpoint_info_array.h"
#include "rmw/types.h"
#include "rmw_dds_common/context.hpp"
#include "rmw_dds_common/gid_utils.hpp"
#include "rmw_dds_common/graph_cache.hpp"
#include "rmw_dds_common/qos.hpp"
#include "rmw_dds_common/security.hpp"

#define CHECK(c, ...) do {if (!(c)) {fprintf(stderr, "FAILED (line %d): ", __LINE__); fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\n"); _Exit(1);}} while (0)

using rmw_dds_common::Context;
using rmw_dds_common::GraphCache;
using PMsg = rmw_dds_common::msg::ParticipantEntitiesInfo;
using NMsg = rmw_dds_common::msg::NodeEntitiesInfo;
typedef std::chrono::steady_clock Clock;

inline void ms(int n) {std::this_thread::sleep_for(std::chrono::milliseconds(n));}
inline rmw_gid_t G(int host, int entity)
{
  rmw_gid_t g;
  memset(&g, 0, sizeof(g));
  g.implementation_identifier = "demo";
  for (int i = 0; i < 8; ++i) {g.data[i] = 0x11;}
  g.data[8] = static_cast<uint8_t>(host);
  g.data[12] = static_cast<uint8_t>(entity >> 8);
  g.data[15] = static_cast<uint8_t>(entity);
  return g;
}
inline rmw_dds_common::msg::Gid M(const rmw_gid_t & g)
{
  rmw_dds_common::msg::Gid m;
  rmw_dds_common::convert_gid_to_msg(&g, &m);
  return m;
}
inline NMsg node(const std::string & name, const std::vector<rmw_gid_t> & readers = {}, const std::vector<rmw_gid_t> & writers = {}, const std::string & ns = "/")
{
  NMsg n;
  n.node_name = name;
  n.node_namespace = ns;
  for (auto & g : readers) {n.reader_gid_seq.push_back(M(g));}
  for (auto & g : writers) {n.writer_gid_seq.push_back(M(g));}
  return n;
}
inline PMsg announce(const rmw_gid_t & part, const std::vector<NMsg> & nodes)
{
  PMsg m;
  m.gid = M(part);
  for (auto & n : nodes) {m.node_entities_info_seq.push_back(n);}
  return m;
}
inline std::string same(const std::string & s) {return s;}
inline void add_ep(GraphCache & c, int host, int entity, bool reader, const std::string & topic = "t", const std::string & type = "T", int part = 1)
{
  c.add_entity(G(host, entity), topic, type, rosidl_get_zero_initialized_type_hash(), G(host, part), rmw_qos_profile_default, reader);
}
// An allocator which counts, can fail, and can call something first
struct Alloc
{
  std::atomic<long> live{0}, calls{0};
  long fail_at = -1;
  std::function<void()> before;
  rcutils_allocator_t a;
  Alloc()
  {
    a.state = this;
    a.allocate = [](size_t n, void * s) -> void * {return self(s)->take(malloc, n);};
    a.zero_allocate = [](size_t n, size_t m, void * s) -> void * {return self(s)->take([](size_t k) {return calloc(1, k);}, n * m);};
    a.deallocate = [](void * p, void * s) {if (p) {self(s)->live--; free(p);}};
    a.reallocate = [](void * p, size_t n, void * s) -> void * {
        if (!p) {return self(s)->take(malloc, n);}
        return self(s)->calls++ == self(s)->fail_at ? nullptr : realloc(p, n);
      };
  }
  static Alloc * self(void * s) {return static_cast<Alloc *>(s);}
  template<typename F> void * take(F f, size_t n)
  {
    if (before) {auto b = before; b();}
    if (calls++ == fail_at) {return nullptr;}
    live++;
    return f(n ? n : 1);
  }
};
struct Names {std::vector<std::string> v; rmw_ret_t ret;};
// "namespace|name|enclave" of every node
inline Names names(const GraphCache & c, rcutils_allocator_t * a = nullptr)
{
  rcutils_allocator_t d = rcutils_get_default_allocator();
  if (!a) {a = &d;}
  rcutils_string_array_t n = rcutils_get_zero_initialized_string_array(), ns = n, e = n;
  Names r;
  r.ret = c.get_node_names(&n, &ns, &e, a);
  if (r.ret == RMW_RET_OK) {
    for (size_t i = 0; i < n.size; ++i) {
      r.v.push_back(std::string(ns.data[i] ? ns.data[i] : "(null)") + "|" + (n.data[i] ? n.data[i] : "(null)") + "|" + (e.data[i] ? e.data[i] : "(null)"));
    }
    (void)!rcutils_string_array_fini(&n);
    (void)!rcutils_string_array_fini(&ns);
    (void)!rcutils_string_array_fini(&e);
  }
  return r;
}
struct Info {rmw_ret_t ret; std::map<int, std::string> owner; std::map<int, rmw_qos_profile_t> qos; std::map<int, std::string> type;};
// who owns the endpoints of a topic
inline Info infos(const GraphCache & c, bool readers, const std::string & topic = "t", rcutils_allocator_t * a = nullptr)
{
  rcutils_allocator_t d = rcutils_get_default_allocator();
  if (!a) {a = &d;}
  rmw_topic_endpoint_info_array_t r = rmw_get_zero_initialized_topic_endpoint_info_array();
  Info i;
  i.ret = readers ? c.get_readers_info_by_topic(topic, same, a, &r) : c.get_writers_info_by_topic(topic, same, a, &r);
  if (i.ret == RMW_RET_OK) {
    for (size_t k = 0; k < r.size; ++k) {
      auto & e = r.info_array[k];
      int id = e.endpoint_gid[12] << 8 | e.endpoint_gid[15];
      i.owner[id] = e.node_name;
      i.qos[id] = e.qos_profile;
      i.type[id] = e.topic_type;
    }
    (void)!rmw_topic_endpoint_info_array_fini(&r, a);
  }
  return i;
}
inline size_t by_node(const GraphCache & c, bool readers, const std::string & name, rmw_ret_t * ret = nullptr)
{
  rcutils_allocator_t d = rcutils_get_default_allocator();
  rmw_names_and_types_t nt = rmw_get_zero_initialized_names_and_types();
  rmw_ret_t r = readers ? c.get_reader_names_and_types_by_node(name, "/", same, same, &d, &nt) : c.get_writer_names_and_types_by_node(name, "/", same, same, &d, &nt);
  size_t n = r == RMW_RET_OK ? nt.names.size : 0;
  if (r == RMW_RET_OK) {(void)!rmw_names_and_types_fini(&nt);}
  if (ret) {*ret = r;}
  return n;
}
// A participant with a publish function of choice
struct Part
{
  Context x;
  rmw_publisher_t pub;
  explicit Part(int host = 1)
  {
    memset(&pub, 0, sizeof(pub));
    x.gid = G(host, 1);
    x.pub = &pub;
    x.publish_callback = [](const rmw_publisher_t *, const void *) {return RMW_RET_OK;};
    x.graph_cache.add_participant(x.gid, "/");
  }
  void on_publish(std::function<rmw_ret_t(const PMsg &)> f)
  {
    x.publish_callback = [f](const rmw_publisher_t *, const void * m) {return f(*static_cast<const PMsg *>(m));};
  }
};
inline bool lists(const PMsg & m, const rmw_gid_t & g, bool reader)
{
  auto k = M(g);
  for (auto & n : m.node_entities_info_seq) {
    for (auto & x : (reader ? n.reader_gid_seq : n.writer_gid_seq)) {if (x == k) {return true;}}
  }
  return false;
}
// waits for a flag, false after a while
inline bool soon(std::atomic<bool> & f, int limit_ms = 20000)
{
  for (int i = 0; i < limit_ms; ++i) {
    if (f) {return true;}
    ms(1);
  }
  return false;
}
inline void watchdog(int seconds)
{
  std::thread([seconds]() {
      std::this_thread::sleep_for(std::chrono::seconds(seconds));
      fprintf(stderr, "FAILED: something is stuck\n");
      _Exit(1);
    }).detach();
}
#endif
