// Plain interface between the worlds and the code under test.
// Only sut_glue.cpp includes the repository's headers.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace sut
{
struct Gid
{
  uint8_t b[16];
  Gid() {memset(b, 0, 16);}
  bool operator<(const Gid & o) const {return memcmp(b, o.b, 16) < 0;}
  bool operator==(const Gid & o) const {return memcmp(b, o.b, 16) == 0;}
  bool operator!=(const Gid & o) const {return !(*this == o);}
  std::string str() const;
};
/// Deterministic gid number n; `style` spreads the distinguishing byte over the storage.
Gid mkgid(uint32_t n, int style = 0);

struct Dur
{
  uint64_t s = 0, ns = 0;
  bool operator==(const Dur & o) const {return s == o.s && ns == o.ns;}
  bool operator!=(const Dur & o) const {return !(*this == o);}
};
struct Qos
{
  int history = 1;
  uint64_t depth = 10;
  int rel = 1, dur = 2;
  Dur deadline, lifespan;
  int liv = 1;
  Dur lease;
  bool avoid = false;
  bool operator==(const Qos & o) const
  {
    return history == o.history && depth == o.depth && rel == o.rel && dur == o.dur &&
           deadline == o.deadline && lifespan == o.lifespan && liv == o.liv && lease == o.lease &&
           avoid == o.avoid;
  }
  std::string str() const;
};
enum {REL_SYS = 0, REL_RELIABLE = 1, REL_BE = 2, REL_UNKNOWN = 3, REL_BEST = 4};
enum {DUR_SYS = 0, DUR_TL = 1, DUR_VOL = 2, DUR_UNKNOWN = 3, DUR_BEST = 4};
enum {LIV_SYS = 0, LIV_AUTO = 1, LIV_NODE = 2, LIV_TOPIC = 3, LIV_UNKNOWN = 4, LIV_BEST = 5};
extern const Dur kBestDur;  // the best-available duration marker
extern const Dur kInfDur;

struct Hash
{
  int version = 0;
  uint8_t v[32];
  Hash() {memset(v, 0, 32);}
  bool operator==(const Hash & o) const {return version == o.version && memcmp(v, o.v, 32) == 0;}
  bool operator!=(const Hash & o) const {return !(*this == o);}
  std::string str() const;
};

struct NodeMsg
{
  std::string name, ns;
  std::vector<Gid> readers, writers;
  bool operator==(const NodeMsg & o) const
  {
    return name == o.name && ns == o.ns && readers == o.readers && writers == o.writers;
  }
};
struct PMsg
{
  Gid gid;
  std::vector<NodeMsg> nodes;
  std::string str() const;
};
struct EpInfo
{
  std::string node, ns, type;
  Hash hash;
  int kind = 0;  // 1 publisher, 2 subscription
  Gid gid;
  Qos qos;
  std::string str() const;
};

enum {OK = 0, ERROR = 1, BAD_ALLOC = 10, INVALID_ARG = 11, NODE_MISSING = 203};
/// exc: 0 none, 1 std::bad_alloc, 2 another exception
struct Ret
{
  int exc = 0;
  int ret = 0;
  std::string what;
  bool ok() const {return !exc && ret == OK;}
};

/// The caller-supplied allocator of a query: fails allocations [fail_from, fail_from+fail_len).
struct QAlloc
{
  int fail_from = -1;
  int fail_len = 0;
  // results
  int n_alloc = 0;
  int failed = 0;
  bool zero_alloc_used = false;
};

// ---------------------------------------------------------------- GraphCache
struct Cache;
Cache * cache_new();
void cache_delete(Cache *);
Ret add_entity(
  Cache *, const Gid &, const std::string & topic, const std::string & type, const Hash &,
  const Gid & part, const Qos &, bool reader, int variant);
Ret remove_entity(Cache *, const Gid &, bool reader, int variant);
Ret update(Cache *, const PMsg &);
Ret add_participant(Cache *, const Gid &, const std::string & enclave);
Ret remove_participant(Cache *, const Gid &);
Ret add_node(Cache *, const Gid & part, const std::string & name, const std::string & ns, PMsg *);
Ret remove_node(Cache *, const Gid & part, const std::string & name, const std::string & ns, PMsg *);
Ret associate(
  Cache *, const Gid & ep, const Gid & part, const std::string & name, const std::string & ns,
  bool reader, bool add, PMsg *);
Ret get_count(Cache *, const std::string & topic, bool reader, size_t *);
/// demangle: 0 identity, 1 ROS-like ("rt/x" -> "/x", anything else hidden; types lose a "dds_::")
Ret info_by_topic(
  Cache *, const std::string & topic, bool reader, int demangle, QAlloc *, std::vector<EpInfo> *);
typedef std::vector<std::pair<std::string, std::vector<std::string>>> NT;
Ret names_and_types(Cache *, int demangle, QAlloc *, NT *);
Ret by_node(
  Cache *, const std::string & name, const std::string & ns, bool reader, int demangle, QAlloc *,
  NT *);
Ret n_nodes(Cache *, size_t *);
struct NodeName
{
  std::string name, ns, enclave;
  bool operator<(const NodeName & o) const
  {
    if (name != o.name) {return name < o.name;}
    if (ns != o.ns) {return ns < o.ns;}
    return enclave < o.enclave;
  }
  bool operator==(const NodeName & o) const
  {
    return name == o.name && ns == o.ns && enclave == o.enclave;
  }
};
Ret node_names(Cache *, bool enclaves, QAlloc *, std::vector<NodeName> *);
/// A query with an invalid argument. kind: 0/1 node names with/without enclaves, 2 names and types,
/// 3 counts, 4 by node; bad: 0..2 an output that already holds something, 3 an unusable allocator,
/// 4 no output. Reports outputs that changed.
Ret refused(Cache *, int kind, int bad, const std::string & name, const std::string & ns, bool reader);
Ret dump(Cache *, std::string *);
/// What a gid is printed as.
Ret gid_text(const Gid &, std::string *);
Ret set_callback(Cache *, const std::function<void()> &);
Ret clear_callback(Cache *);

std::string demangle_topic(int mode, const std::string & s);
std::string demangle_type(int mode, const std::string & s);

// ---------------------------------------------------------------- Context
struct Ctx;
Ctx * ctx_new(const Gid &);
void ctx_delete(Ctx *);
Cache * ctx_cache(Ctx *);
/// publish: called for each message handed to the middleware; returns the rmw_ret_t.
void ctx_set_publish(Ctx *, const std::function<int(const PMsg &)> &);
void ctx_set_pub(Ctx *, bool has_pub, bool has_callback);
enum CtxOp {NODE = 0, PUBLISHER = 1, SUBSCRIPTION = 2, CLIENT = 3, SERVICE = 4};
/// a: publisher/subscription gid, client request publisher or service request subscriber;
/// b: client response subscriber or service response publisher.
Ret ctx_op(
  Ctx *, CtxOp, bool add, const Gid & a, const Gid & b, const std::string & name,
  const std::string & ns);

// ---------------------------------------------------------------- QoS
/// The endpoint info provider: returns an rmw_ret_t; fills infos.
struct ProviderResult {int ret = 0; std::vector<EpInfo> infos;};
/// Provider backed by a cache (the real composition) or by the harness.
Ret best_available(
  bool subscription, const std::string & topic, Qos * qos, QAlloc *,
  const std::function<int(const std::string & topic, bool mangle)> & on_query, Cache * backing,
  const std::function<ProviderResult()> & provider, int * queried);
/// A resolution without a node (0), topic (1), profile (2), or, directly, without peers (3) or profile (4).
Ret best_refused(bool subscription, int bad, Qos * qos, int * queried);
Ret check_compatible(const Qos & pub, const Qos & sub, int * compat, std::string * reason);
Ret encode_hash(const Hash &, std::string *);
Ret parse_hash(const std::vector<uint8_t> &, bool null_data, Hash *);

// ---------------------------------------------------------------- security
Ret security_files(
  int overload /*0: without, 1: with pkcs11 flag*/, bool pkcs11, const std::string & prefix,
  const std::string & root, std::map<std::string, std::string> * inout, bool * result);
}  // namespace sut
