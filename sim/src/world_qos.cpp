// Worlds "qos" (C13: best-available resolution while endpoints come and go) and
// "hash" (C14: type hashes through the discovery channel).
#include "worlds.h"
#include "util.h"
#include <algorithm>
#include <deque>

using namespace sim;
using namespace util;

namespace
{
// ---------------------------------------------------------------- C13
const int NTOPICS = 2;

sut::Dur dur_pool(u64 n)
{
  // default, equal seconds with different nanoseconds, pure nanoseconds, large, infinite
  static const sut::Dur d[] = {{0, 0}, {1, 0}, {1, 500}, {2, 1}, {0, 7}, {5, 999999999}, {1, 499}, {3600, 0}, {100000, 3}, {9223372036ULL, 854775807ULL}, {2147483647, 999999999}, {0, 999999999}};
  return d[n % 12];
}
Qos peer_qos(i64 seed, bool odd)
{
  Qos q;
  Rng r(static_cast<u64>(seed) * 6151 + 11);
  // peers are mostly alike, so that "all of them" is often true
  q.rel = r.below(4) ? sut::REL_RELIABLE : sut::REL_BE;
  q.dur = r.below(4) ? sut::DUR_TL : sut::DUR_VOL;
  q.liv = r.below(3) ? sut::LIV_TOPIC : sut::LIV_AUTO;
  if (r.below(3)) {q.deadline = dur_pool(r.below(12));}
  if (r.below(3)) {q.lease = dur_pool(r.below(12));}
  q.depth = r.below(50);
  q.history = 1 + static_cast<int>(r.below(2));
  q.lifespan = dur_pool(r.below(12));
  if (odd && r.below(6) == 0) {q.rel = r.below(2) ? sut::REL_UNKNOWN : sut::REL_SYS;}
  if (odd && r.below(6) == 0) {q.dur = r.below(2) ? sut::DUR_UNKNOWN : sut::DUR_SYS;}
  if (odd && r.below(6) == 0) {q.liv = r.below(2) ? sut::LIV_UNKNOWN : sut::LIV_SYS;}
  return q;
}
/// bits of `best`: which policies are "best available"
Qos request(i64 seed, i64 best)
{
  Qos q;
  Rng r(static_cast<u64>(seed) * 3571 + 17);
  q.history = static_cast<int>(r.below(4));
  q.depth = r.below(200);
  q.rel = static_cast<int>(r.below(4));
  q.dur = static_cast<int>(r.below(4));
  q.liv = r.below(4) ? (r.below(2) ? sut::LIV_AUTO : sut::LIV_TOPIC) : (r.below(2) ? sut::LIV_SYS : sut::LIV_UNKNOWN);
  q.deadline = dur_pool(r.below(12));
  q.lease = dur_pool(r.below(12));
  q.lifespan = r.below(4) ? dur_pool(r.below(12)) : sut::kBestDur;
  q.avoid = r.below(2);
  if (best & 1) {q.rel = sut::REL_BEST;}
  if (best & 2) {q.dur = sut::DUR_BEST;}
  if (best & 4) {q.liv = sut::LIV_BEST;}
  if (best & 8) {q.deadline = sut::kBestDur;}
  if (best & 16) {q.lease = sut::kBestDur;}
  return q;
}
bool less(const sut::Dur & a, const sut::Dur & b) {return a.s != b.s ? a.s < b.s : a.ns < b.ns;}
/// The documented rules (qos.hpp).
Qos resolve(bool sub, Qos q, const std::vector<Qos> & peers)
{
  const sut::Dur dflt;
  bool all_rel = true, all_tl = true, all_man = true, any_man = false;
  sut::Dur dl, le;
  for (auto & p : peers) {
    all_rel &= p.rel == sut::REL_RELIABLE;
    all_tl &= p.dur == sut::DUR_TL;
    all_man &= p.liv == sut::LIV_TOPIC;
    any_man |= p.liv == sut::LIV_TOPIC;
    if (p.deadline != dflt && (dl == dflt || (sub ? less(dl, p.deadline) : less(p.deadline, dl)))) {dl = p.deadline;}
    if (p.lease != dflt && (le == dflt || (sub ? less(le, p.lease) : less(p.lease, le)))) {le = p.lease;}
  }
  if (q.rel == sut::REL_BEST) {q.rel = !sub || all_rel ? sut::REL_RELIABLE : sut::REL_BE;}
  if (q.dur == sut::DUR_BEST) {q.dur = !sub || all_tl ? sut::DUR_TL : sut::DUR_VOL;}
  if (q.liv == sut::LIV_BEST) {q.liv = (sub ? all_man : any_man) ? sut::LIV_TOPIC : sut::LIV_AUTO;}
  if (q.deadline == sut::kBestDur) {q.deadline = dl;}
  if (q.lease == sut::kBestDur) {q.lease = le;}
  return q;
}
struct Mut
{
  u64 inv = 0, ret = ~0ULL;
  bool done = false;
  bool add = false;
  bool reader = false;
  Gid ep;
  std::string topic;
  Qos qos;
};
struct Q
{
  Plan & p;
  i64 style;
  sut::Cache * c = nullptr;
  std::vector<std::deque<Mut>> hist;   // per task, in program order
  explicit Q(Plan & pl)
  : p(pl), style(pl.param("style")) {}
};
void check_accepted(bool sub, const Qos & orig, const Qos & got, const std::vector<Qos> & peers)
{
  const sut::Dur dflt;
  for (auto & peer : peers) {
    // policies the user fixed are the user's business
    Qos q = got;
    if (orig.rel != sut::REL_BEST) {q.rel = peer.rel;}
    if (orig.dur != sut::DUR_BEST) {q.dur = peer.dur;}
    if (orig.liv != sut::LIV_BEST) {q.liv = peer.liv;}
    if (orig.deadline != sut::kBestDur || (sub && peer.deadline == dflt)) {q.deadline = peer.deadline;}
    if (orig.lease != sut::kBestDur || (sub && peer.lease == dflt)) {q.lease = peer.lease;}
    int compat = 0;
    std::string why;
    sut::Ret r = sub ? sut::check_compatible(peer, q, &compat, &why) : sut::check_compatible(q, peer, &compat, &why);
    if (!r.ok()) {violation("wrong-result", "the compatibility check failed: %d %s", r.ret, r.what.c_str());}
    count("probe.compatibility_checked");
    if (compat == 2) {
      violation("incompatible", "the resolved profile %s is not compatible with the peer %s: %s", got.str().c_str(), peer.str().c_str(), why.c_str());
    }
  }
}
/// Every set of peers that was simultaneously present at some instant of [inv, ret].
std::vector<std::vector<Qos>> snapshots(Q & S, bool readers, const std::string & topic, u64 inv, u64 ret)
{
  size_t n = S.hist.size();
  std::vector<size_t> lo(n, 0), hi(n, 0), cur;
  for (size_t t = 0; t < n; ++t) {
    auto & h = S.hist[t];
    while (lo[t] < h.size() && h[lo[t]].done && h[lo[t]].ret < inv) {++lo[t];}
    hi[t] = lo[t];
    while (hi[t] < h.size() && h[hi[t]].inv < ret) {++hi[t];}
  }
  std::vector<std::vector<Qos>> out;
  cur = lo;
  for (;; ) {
    // an operation that is left out must not have returned before one that is in was called
    bool ok = true;
    for (size_t a = 0; a < n && ok; ++a) {
      if (cur[a] >= S.hist[a].size() || !S.hist[a][cur[a]].done) {continue;}
      for (size_t b = 0; b < n && ok; ++b) {
        if (cur[b] > 0 && S.hist[a][cur[a]].ret < S.hist[b][cur[b] - 1].inv) {ok = false;}
      }
    }
    if (ok) {
      std::vector<Qos> v;
      for (size_t t = 0; t < n; ++t) {
        std::map<Gid, Mut> eps;
        for (size_t k = 0; k < cur[t]; ++k) {
          const Mut & m = S.hist[t][k];
          if (m.reader != readers) {continue;}
          if (m.add) {eps.emplace(m.ep, m);} else {eps.erase(m.ep);}
        }
        for (auto & e : eps) {if (e.second.topic == topic) {v.push_back(e.second.qos);}}
      }
      out.push_back(v);
    }
    size_t t = 0;
    while (t < n && cur[t] == hi[t]) {cur[t] = lo[t]; ++t;}
    if (t == n) {break;}
    ++cur[t];
    if (out.size() > 4000) {break;}
  }
  return out;
}
void resolve_op(Q & S, const Op & o)
{
  set_op(o.id);
  bool sub = o.arg(0) & 1;
  std::string tp = topic(o.arg(1) % NTOPICS);
  const Qos orig = request(o.arg(2), o.arg(3));
  bool backed = o.arg(4) & 1;
  Qos got = orig;
  sut::QAlloc qa;
  if (o.arg(5) >= 0) {
    qa.fail_from = static_cast<int>(o.arg(5));
    qa.fail_len = o.arg(6) ? 1000000 : 1;
  }
  int injected = 0, queried = 0;
  std::vector<std::vector<Qos>> handed;   // what the harness provider handed out, call by call
  bool late_error = o.arg(7) == 2;
  static const int errs[] = {sut::ERROR, sut::BAD_ALLOC, sut::INVALID_ARG, sut::NODE_MISSING, 2, 3};
  auto draw_err = [&]() -> int {
      return static_cast<int>(decide(K_QERR, 0, [&](Rng & r) {return r.below(2) ? static_cast<i64>(errs[r.below(6)]) : 0;}));
    };
  auto on_query = [&](const std::string & t, bool mangle) -> int {
      if (t != tp) {violation("wrong-query", "the peers of topic %s were queried instead of %s", t.c_str(), tp.c_str());}
      if (mangle) {violation("wrong-query", "the peers were queried by the name the middleware uses, not by the topic's");}
      sim::yield();
      if (o.arg(7) == 1) {
        int e = draw_err();
        if (e) {
          injected = e;
          note_fault("peer_query_error");
        }
        return e;
      }
      return 0;
    };
  auto provider = [&]() {
      sut::ProviderResult pr;
      Rng r(static_cast<u64>(o.arg(8)) * 77 + handed.size() * 31 + 1);
      size_t n = r.below(6);
      // more than a byte can count, nearly all of one kind
      const bool crowd = o.arg(8) >= 5000;
      if (crowd) {n = 256 + (r.below(2) ? r.below(3) : r.below(60));}
      i64 one = static_cast<i64>(r.below(30));
      size_t other = r.below(2) ? n : r.below(n + 1);
      std::vector<Qos> v;
      for (size_t k = 0; k < n; ++k) {
        sut::EpInfo e;
        e.node = node_name(static_cast<i64>(r.below(6)));
        e.ns = node_ns(static_cast<i64>(r.below(6)));
        e.type = type(static_cast<i64>(r.below(5)));
        e.kind = sub ? 1 : 2;
        e.qos = peer_qos(crowd && k != other ? one : static_cast<i64>(r.below(30)), true);
        v.push_back(e.qos);
        pr.infos.push_back(e);
      }
      handed.push_back(v);
      if (late_error) {
        pr.ret = draw_err();
        if (pr.ret) {
          injected = pr.ret;
          note_fault("peer_query_error");
        }
      }
      return pr;
    };
  u64 inv = seq();
  sut::Ret r = sut::best_available(sub, tp, &got, &qa, on_query, backed ? S.c : nullptr, provider, &queried);
  u64 ret = seq();
  trace("resolve %s %s -> %d %s", sub ? "sub" : "pub", orig.str().c_str(), r.ret, got.str().c_str());
  ev_str(got.str());
  ev(static_cast<u64>(r.ret), static_cast<u64>(queried));
  if (locks_held()) {violation("lock-held", "resolving left a lock held");}
  if (r.exc) {violation("wrong-result", "resolving threw %s", r.what.c_str());}
  if (qa.failed) {note_fault("caller_allocator_failure");}
  const i64 best = o.arg(3) & 31;
  if (!best) {
    if (queried) {violation("needless-query", "nothing is best available but the peers were queried");}
    if (!r.ok()) {violation("wrong-result", "nothing is best available but resolving returned %d", r.ret);}
    if (!(got == orig)) {violation("changed", "nothing is best available but %s became %s", orig.str().c_str(), got.str().c_str());}
    count("probe.nothing_best_available");
    return;
  }
  if (!r.ok()) {
    bool expected = injected || qa.failed;
    if (!expected) {violation("wrong-result", "resolving failed with %d although the peers were obtained", r.ret);}
    if (injected && !qa.failed && r.ret != injected) {violation("wrong-result", "obtaining the peers failed with %d but resolving returned %d", injected, r.ret);}
    if (qa.failed && !injected && r.ret != sut::BAD_ALLOC) {violation("wrong-result", "memory ran out but resolving returned %d", r.ret);}
    if (!(got == orig)) {violation("changed", "resolving failed but the profile %s became %s", orig.str().c_str(), got.str().c_str());}
    count("probe.failed_resolution");
    return;
  }
  if (injected && queried == 1) {violation("wrong-result", "obtaining the peers failed with %d but resolving succeeded", injected);}
  if (qa.failed && queried == 1) {violation("wrong-result", "obtaining the peers ran out of memory but resolving succeeded");}
  if (!queried && !(!sub && (best & ~3) == 0)) {
    // a publisher's reliability and durability do not depend on the peers
    violation("no-query", "best available policies were resolved without looking at the peers");
  }
  std::vector<std::vector<Qos>> cand;
  if (backed) {cand = snapshots(S, !sub, tp, inv, ret);} else {cand = handed;}
  if (!queried) {cand.assign(1, {});}
  if (cand.size() > 1) {count("probe.resolution_with_concurrent_changes");}
  count("probe.resolutions");
  for (auto & peers : cand) {
    if (resolve(sub, orig, peers) == got) {
      check_accepted(sub, orig, got, peers);
      return;
    }
  }
  std::string want;
  for (size_t k = 0; k < cand.size() && k < 4; ++k) {
    want += resolve(sub, orig, cand[k]).str() + " for";
    for (auto & x : cand[k]) {want += " " + x.str();}
    want += "\n";
  }
  violation("wrong-profile", "%s of topic %s: %s was resolved to %s, but the possible answers are:\n%s",
    sub ? "subscription" : "publisher", tp.c_str(), orig.str().c_str(), got.str().c_str(), want.c_str());
}
void run_qos(Plan & p)
{
  Q S(p);
  S.c = sut::cache_new();
  set_op(60000);
  for (i64 k = 0; k < 3; ++k) {
    if (!sut::add_participant(S.c, part_gid(k, S.style), enclave(k)).ok()) {violation("unexpected-error", "add_participant failed");}
  }
  int tasks = static_cast<int>(p.param("tasks", 2));
  auto ops = by_task(p, tasks + 1);
  S.hist.resize(static_cast<size_t>(tasks + 1));
  auto one = [&](int t, const Op & o) {
      if (o.code == "res") {resolve_op(S, o); return;}
      if (o.code == "refuse") {
        set_op(o.id);
        Qos q = peer_qos(o.arg(1), true), was = q;
        int queried = 0;
        sut::Ret r = sut::best_refused(o.arg(0) & 1, static_cast<int>(o.arg(2)), &q, &queried);
        note_fault("invalid_argument");
        if (r.exc || r.ret != sut::INVALID_ARG) {violation("wrong-result", "resolving with an invalid argument (%d) returned %d", static_cast<int>(o.arg(2)), r.ret);}
        if (queried) {violation("needless-query", "the peers were queried for an invalid request");}
        if (!(q == was)) {violation("changed", "an invalid request changed the profile %s to %s", was.str().c_str(), q.str().c_str());}
        return;
      }
      set_op(o.id);
      Mut m;
      m.add = o.code == "ep";
      m.reader = o.arg(1) & 1;
      i64 k = t * 100 + o.arg(0);
      m.ep = ep_gid(k, S.style);
      m.topic = topic(o.arg(2) % NTOPICS);
      m.qos = peer_qos(o.arg(3), o.arg(4));
      auto & h = S.hist[static_cast<size_t>(t)];
      h.push_back(m);
      Mut & w = h.back();
      w.inv = seq();
      sut::Ret r = m.add ?
        sut::add_entity(S.c, m.ep, m.topic, type(o.arg(0) % 5), hash(o.arg(0)), part_gid(o.arg(0) % 3, S.style), m.qos, m.reader, static_cast<int>(o.arg(5) & 1)) :
        sut::remove_entity(S.c, m.ep, m.reader, static_cast<int>(o.arg(5) & 1));
      w.ret = seq();
      w.done = true;
      if (r.exc) {violation("unexpected-error", "%s threw %s", o.code.c_str(), r.what.c_str());}
    };
  for (auto & o : ops[0]) {one(0, o);}
  std::vector<int> ids;
  for (int t = 1; t <= tasks; ++t) {
    ids.push_back(spawn("task" + std::to_string(t), [&, t]() {for (auto & o : ops[static_cast<size_t>(t)]) {one(t, o);}}));
  }
  for (int id : ids) {join(id);}
  sut::cache_delete(S.c);
  if (live_blocks()) {violation("leak", "%llu blocks are still allocated at the end", static_cast<unsigned long long>(live_blocks()));}
}
void gen_qos(Plan & p, Rng & r)
{
  p.params["style"] = static_cast<i64>(r.below(4));
  int tasks = 1 + static_cast<int>(r.below(4));
  p.params["tasks"] = tasks;
  int resolvers = 1 + static_cast<int>(r.below(static_cast<u64>(tasks)));
  i64 odd = r.below(3) == 0;
  i64 seeds = 3 + static_cast<i64>(r.below(30));
  bool faults = r.below(2);
  bool large = r.below(12) == 0;         // many peers
  auto gen_mut = [&](int t) {
      add_op(p, t, r.below(5) < 3 ? "ep" : "unep", {static_cast<i64>(r.below(large ? 60 : 4)), static_cast<i64>(r.below(2)), static_cast<i64>(r.below(large ? 1 : NTOPICS)),
          static_cast<i64>(r.below(static_cast<u64>(seeds))), odd, static_cast<i64>(r.below(2))});
    };
  int n0 = static_cast<int>(large ? 20 + r.below(100) : r.below(8));
  for (int i = 0; i < n0; ++i) {gen_mut(0);}
  for (int t = 1; t <= tasks; ++t) {
    int n = 2 + static_cast<int>(r.below(t <= resolvers ? 6 : 8));
    for (int i = 0; i < n; ++i) {
      if (t > resolvers || (tasks == 1 && r.below(2))) {gen_mut(t); continue;}
      if (r.below(40) == 0) {
        add_op(p, t, "refuse", {static_cast<i64>(r.below(2)), static_cast<i64>(r.below(30)), static_cast<i64>(r.below(5))});
        continue;
      }
      i64 best = r.below(8) == 0 ? 0 : r.below(2) ? 31 : 1 + static_cast<i64>(r.below(31));
      i64 backed = r.below(4) ? 1 : 0;
      i64 err = 0, from = -1, len = 0;
      if (faults) {
        if (r.below(4) == 0) {err = 1 + static_cast<i64>(r.below(backed ? 1 : 2));} else if (r.below(3) == 0) {
          from = static_cast<i64>(r.below(20));
          len = static_cast<i64>(r.below(2));
        }
      }
      add_op(p, t, "res", {static_cast<i64>(r.below(2)), static_cast<i64>(r.below(NTOPICS)), static_cast<i64>(r.below(1000)), best, backed, from, len, err,
          static_cast<i64>(r.below(1000)) + (backed || r.below(50) ? 0 : 5000)});
    }
  }
}

// ---------------------------------------------------------------- C14
std::string hash_text(const Hash & h)
{
  static const char * x = "0123456789abcdef";
  std::string s = "RIHS";
  s += x[(h.version >> 4) & 15];
  s += x[h.version & 15];
  s += '_';
  for (int i = 0; i < 32; ++i) {s += x[h.v[i] >> 4]; s += x[h.v[i] & 15];}
  return s;
}
Hash any_hash(i64 n)
{
  if (n < 6) {Hash k = hash(n); if (n == 4) {k.version = 1;} return k;}
  Hash h = hash(n);
  if (n % 4 == 0) {h.v[0] = 0;}
  if (n % 4 == 1) {h.v[31] = 0;}
  if (n % 7 == 0) {for (int i = 0; i < 32; ++i) {h.v[i] = static_cast<uint8_t>(i);}}
  return h;
}
/// Is `h` literally written under the key in `d`?
bool contains(const std::vector<uint8_t> & d, const Hash & h)
{
  std::string t = hash_text(h), key = "typehash=";
  auto lower = [](int c) {return c >= 'A' && c <= 'F' ? c + 32 : c;};
  for (size_t i = 0; i + key.size() + t.size() <= d.size(); ++i) {
    if (memcmp(&d[i], key.data(), key.size())) {continue;}
    if (i && isalnum(d[i - 1])) {continue;}
    size_t j = 0;
    const uint8_t * v = &d[i + key.size()];
    // the prefix is literal, digits may be of either case
    while (j < t.size() && (j < 4 ? v[j] == static_cast<uint8_t>(t[j]) : lower(v[j]) == lower(static_cast<unsigned char>(t[j])))) {++j;}
    if (j == t.size()) {return true;}
  }
  return false;
}
/// The middleware's own entries next to ours; never the key, always well formed.
std::string pairs(Rng & r)
{
  std::string s;
  size_t n = r.below(3);
  static const char * keys[] = {"enclave", "a", "securitycontext", "type", "hash", "typehash2", "Typehash", "x9"};
  static const char * vals[] = {"/", "/a/enclave", "=", "a=b", "typehash=1", "RIHS01_", "x y", "0", "\x01\xff", "a,b", "typehash"};
  size_t at = r.below(8);
  for (size_t k = 0; k < n; ++k) {s += std::string(keys[(at + k) % 8]) + "=" + vals[r.below(11)] + ";";}
  if (r.below(40) == 0) {s += "big=" + std::string(r.below(2) ? 200 + r.below(400) : 4000 + r.below(70000), "ax0="[r.below(4)]) + ";";}
  return s;
}
struct Data
{
  bool null = false;
  bool intact = false;      // must decode exactly
  bool absent = false;      // must decode as unset
  bool bad = false;         // must be reported as bad
  Hash h;
  std::vector<uint8_t> d;
};
/// What the channel does with the sender's user data.
Data transmit(const std::string & enc, const Hash & h, i64 mode, i64 seed)
{
  Data x;
  x.h = h;
  Rng r(static_cast<u64>(seed) * 2221 + 9);
  std::string s = enc;
  auto set = [&](const std::string & t) {x.d.assign(t.begin(), t.end());};
  bool unset = h.version == 0;
  switch (mode) {
    case 0:   // unchanged
      set(s);
      x.intact = true;
      note_fault("channel_intact");
      break;
    case 1: {  // embedded
        std::string a = pairs(r), b = pairs(r);
        set(a + s + b);
        x.intact = true;
        if (!x.d.empty() && r.below(4) == 0) {for (size_t k = 1 + r.below(3); k-- > 0; ) {x.d.push_back(0);}}
        note_fault("channel_embedded");
        break;
      }
    case 2:   // truncated anywhere
      if (r.below(2)) {s = pairs(r) + s + pairs(r);}
      set(s.substr(0, r.below(s.size() + 1)));
      note_fault("channel_truncated");
      break;
    case 3: {  // corrupted bytes
        if (r.below(2)) {s = pairs(r) + s + pairs(r);}
        set(s);
        for (size_t k = 1 + r.below(3); k-- > 0 && !x.d.empty(); ) {
          static const uint8_t b[] = {0, ';', '=', 255, 'g', '0', 'A', '_', ' ', 0x80};
          x.d[r.below(x.d.size())] = r.below(2) ? b[r.below(10)] : static_cast<uint8_t>(r.next());
        }
        note_fault("channel_corrupted");
        break;
      }
    case 4: {  // bytes inserted, deleted, pieces repeated or moved
        s = r.below(2) ? s : pairs(r) + s + pairs(r);
        for (size_t k = 1 + r.below(3); k-- > 0; ) {
          size_t i = r.below(s.size() + 1), n = r.below(9);
          switch (r.below(4)) {
            case 0: s.insert(i, std::string(n, "\0;=0aR_\xff"[r.below(8)])); break;
            case 1: s.erase(i, n); break;
            case 2: s.insert(i, s.substr(r.below(s.size() + 1), r.below(40))); break;
            default: s += s.substr(0, r.below(s.size() + 1)); break;
          }
        }
        set(s);
        note_fault("channel_garbled");
        break;
      }
    case 5: {  // a foreign application
        static const char * f[] = {"", ";", "=", "typehash", "typehash=", "typehash=;", "typehash=RIHS01_;", "typehash=RIHS02_", "typehash=RIHS01_zz;",
          "typehash=RIHS", "typehash=R", ";;;;", "a=b;typehash=;", "typehash=1;typehash=RIHS01_", "==", "typehash==", "typehash=;;", "rubbish", "typehash=RIHS1_",
          "typehash=RIHS01", "typehash=RIHS01_0", "typehash=RIHSxx_"};
        std::string t = f[r.below(22)];
        if (r.below(2)) {
          std::string hx;
          size_t n = r.below(2) ? 64 : r.below(140);
          for (size_t k = 0; k < n; ++k) {hx += "0123456789abcdefABCDEFg"[r.below(r.below(8) ? 22 : 23)];}
          t += hx;
        }
        if (r.below(3) == 0) {t += ";";}
        if (r.below(4) == 0) {t += std::string(1, '\0') + "tail";}
        set(t);
        note_fault("channel_foreign");
        break;
      }
    case 6: {  // random bytes
        size_t n = r.below(300);
        for (size_t k = 0; k < n; ++k) {x.d.push_back(r.below(3) ? static_cast<uint8_t>("typehash=RIHS01_;"[r.below(17)]) : static_cast<uint8_t>(r.next()));}
        note_fault("channel_random");
        break;
      }
    case 7: {  // only other people's entries
        set(pairs(r) + "other=1;" + pairs(r));
        x.absent = true;
        note_fault("channel_without_key");
        break;
      }
    case 9: {  // well formed user data whose hash is none
        Hash k = h;
        k.version = 1;
        std::string t = hash_text(k);
        switch (r.below(7)) {
          case 0: t.resize(1 + r.below(t.size() - 1)); break;                      // cut short
          case 1: t.append(1 + r.below(5), "0aF_"[r.below(4)]); break;             // too long
          case 2: t[7 + r.below(64)] = "gGxz -_+."[r.below(9)]; break;             // not a digit
          case 3: t[5] = "023456789"[r.below(9)]; break;                           // another version
          case 4: t[r.below(5)] ^= 0x20; break;                                    // another scheme
          case 5: t[6] = "-0 :"[r.below(4)]; break;                                // another separator
          default: t = t.substr(r.below(2) ? 7 : 1 + r.below(70)); break;          // no prefix
        }
        set(pairs(r) + "typehash=" + t + ";" + pairs(r));
        x.bad = true;
        note_fault("channel_bad_hash");
        break;
      }
    default:
      x.null = true;
      note_fault("channel_null");
      break;
  }
  if (x.intact && unset) {x.absent = true; x.intact = false;}
  return x;
}
struct Wire {Data d; Gid ep;};
void run_hash(Plan & p)
{
  i64 style = p.param("style");
  sut::Cache * c = sut::cache_new();
  std::deque<Wire> wire;
  int tasks = static_cast<int>(p.param("tasks", 1)), receivers = static_cast<int>(p.param("receivers", 1));
  auto ops = by_task(p, tasks + 1);
  int sending = tasks;
  i64 oom = p.param("p_fail");
  std::map<Gid, Hash> shown;   // what the graph must report
  set_op(60000);
  fault_cfg.p_new = static_cast<double>(oom) / 1000;
  fault_cfg.p_malloc = static_cast<double>(oom) / 500;
  auto send = [&](int t, const Op & o) {
      set_op(o.id);
      Hash h = any_hash(o.arg(0));
      std::string enc;
      if (o.arg(3) & 1) {enc = "left over from an earlier use of the string";}
      std::string before = enc;
      u64 f0 = faults_fired_in_op();
      sut::Ret r = sut::encode_hash(h, &enc);
      bool faulted = faults_fired_in_op() != f0;
      if (locks_held()) {violation("lock-held", "encoding left a lock held");}
      ev_str(enc);
      if (r.exc || r.ret) {
        if (!faulted) {violation("wrong-result", "encoding %s failed: %d %s", h.str().c_str(), r.ret, r.what.c_str());}
        if (r.exc == 2) {violation("wrong-result", "encoding threw %s when memory ran out", r.what.c_str());}
        if (r.ret && !r.exc && r.ret != sut::BAD_ALLOC && r.ret != sut::ERROR) {violation("wrong-result", "encoding returned %d when memory ran out", r.ret);}
        count("probe.encoding_failed");
        return;
      }
      if (h.version == 0 && !enc.empty()) {violation("wrong-encoding", "an unset hash was encoded as '%s'", enc.c_str());}
      Wire w;
      w.d = transmit(enc, h, o.arg(1), o.arg(2));
      w.ep = ep_gid(t * 1000 + o.id, style);
      u64 delay = static_cast<u64>(o.arg(4));
      if (delay) {sim::sleep_ns(delay);}
      wire.push_back(w);
    };
  auto receive = [&](const Wire & w, int nth) {
      set_op(50000 + nth);
      Hash got = any_hash(7);   // not what it is going to be
      sut::Ret r = sut::parse_hash(w.d.d, w.d.null, &got);
      if (locks_held()) {violation("lock-held", "decoding left a lock held");}
      std::string what(w.d.d.begin(), w.d.d.end());
      ev_str(got.str());
      ev(static_cast<u64>(r.ret), static_cast<u64>(r.exc));
      for (auto & ch : what) {if (static_cast<unsigned char>(ch) < 32 || static_cast<unsigned char>(ch) > 126) {ch = '?';}}
      trace("decode '%s' -> %d %s", what.c_str(), r.ret, got.str().c_str());
      if (r.exc) {
        if (r.exc == 1 && oom) {count("probe.decoding_out_of_memory"); return;}
        violation("wrong-result", "decoding '%s' threw %s", what.c_str(), r.what.c_str());
      }
      if (w.d.null) {
        if (r.ret != sut::INVALID_ARG) {violation("wrong-result", "decoding null user data returned %d", r.ret);}
        return;
      }
      if (w.d.intact) {
        count("probe.hash_survived");
        if (r.ret) {violation("wrong-result", "decoding the intact user data '%s' failed with %d", what.c_str(), r.ret);}
        if (got != w.d.h) {violation("wrong-hash", "'%s' decoded as %s", what.c_str(), got.str().c_str());}
      } else if (w.d.absent) {
        count("probe.hash_absent");
        if (r.ret) {violation("wrong-result", "user data without a hash, '%s', failed with %d", what.c_str(), r.ret);}
        if (got.version) {violation("wrong-hash", "user data without a hash, '%s', decoded as %s", what.c_str(), got.str().c_str());}
      } else if (w.d.bad) {
        if (!r.ret) {violation("wrong-result", "'%s' has no valid hash but was decoded as %s", what.c_str(), got.str().c_str());}
      } else if (!r.ret && got.version && !contains(w.d.d, got)) {
        violation("wrong-hash", "'%s' decoded as %s, which it does not contain", what.c_str(), got.str().c_str());
      }
      if (r.ret) {count("probe.hash_bad"); got = Hash();}
      {
        NoFaultScope nf;
        sut::Ret a = sut::add_entity(c, w.ep, topic(0), type(0), got, part_gid(0, style), Qos(), false, 0);
        if (a.exc || !a.ret) {violation("unexpected-error", "add_entity failed: %s", a.what.c_str());}
      }
      shown[w.ep] = got;
    };
  std::vector<int> ids;
  for (int t = 1; t <= tasks; ++t) {
    ids.push_back(spawn("sender" + std::to_string(t), [&, t]() {
        for (auto & o : ops[static_cast<size_t>(t)]) {send(t, o);}
        --sending;
      }));
  }
  int nth = 0;
  for (int k = 0; k < receivers; ++k) {
    ids.push_back(spawn("receiver" + std::to_string(k), [&]() {
        for (;; ) {
          set_op(49000);
          wait_until([&]() {return !wire.empty() || !sending;}, "user data");
          if (wire.empty()) {break;}
          Wire w = wire.front();
          wire.pop_front();
          receive(w, nth++);
        }
      }));
  }
  for (int id : ids) {join(id);}
  set_op(64000);
  fault_cfg.p_new = fault_cfg.p_malloc = 0;
  std::vector<sut::EpInfo> v;
  if (!sut::info_by_topic(c, topic(0), false, 0, nullptr, &v).ok()) {violation("unexpected-error", "info_by_topic failed");}
  if (v.size() != shown.size()) {violation("wrong-hash", "%zu endpoints are reported instead of %zu", v.size(), shown.size());}
  for (auto & e : v) {
    if (!shown.count(e.gid) || shown[e.gid] != e.hash) {violation("wrong-hash", "endpoint %s is reported with hash %s", e.gid.str().c_str(), e.hash.str().c_str());}
  }
  sut::cache_delete(c);
  if (live_blocks()) {violation("leak", "%llu blocks are still allocated at the end", static_cast<unsigned long long>(live_blocks()));}
}
void gen_hash(Plan & p, Rng & r)
{
  p.params["style"] = static_cast<i64>(r.below(4));
  int tasks = 1 + static_cast<int>(r.below(3));
  p.params["tasks"] = tasks;
  p.params["receivers"] = 1 + static_cast<i64>(r.below(2));
  static const i64 ps[] = {0, 0, 20, 100, 300};
  p.params["p_fail"] = ps[r.below(5)];
  int n = 2 + static_cast<int>(r.below(24));
  for (int i = 0; i < n; ++i) {
    static const i64 modes[] = {0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9};
    add_op(p, 1 + static_cast<int>(r.below(static_cast<u64>(tasks))), "send",
      {static_cast<i64>(r.below(20)), modes[r.below(15)], static_cast<i64>(r.below(100000)), static_cast<i64>(r.below(2)),
        r.below(3) ? 0 : static_cast<i64>(r.below(1000))});
  }
}
}  // namespace

extern const World kQosWorlds[] = {
  {"C13", "qos", 1, gen_qos, run_qos},
  {"C14", "hash", 1, gen_hash, run_hash},
};
