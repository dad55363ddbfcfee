#include "model.h"
#include <algorithm>

namespace model
{
using sut::EpInfo;
using sut::NodeMsg;
using sut::NodeName;
using sut::PMsg;

bool Graph::add_entity(const Gid & g, const Ep & e, bool reader) {return eps(reader).emplace(g, e).second;}
bool Graph::remove_entity(const Gid & g, bool reader) {return eps(reader).erase(g) > 0;}
void Graph::update(const PMsg & m) {parts[m.gid].nodes = m.nodes;}
void Graph::add_participant(const Gid & g, const std::string & enclave) {parts[g].enclave = enclave;}
bool Graph::remove_participant(const Gid & g) {return parts.erase(g) > 0;}
void Graph::add_node(const Gid & p, const std::string & name, const std::string & ns)
{
  NodeMsg n;
  n.name = name;
  n.ns = ns;
  parts[p].nodes.push_back(n);
}
NodeMsg * Graph::find(const Gid & p, const std::string & name, const std::string & ns)
{
  auto it = parts.find(p);
  if (it == parts.end()) {return nullptr;}
  for (auto & n : it->second.nodes) {if (n.name == name && n.ns == ns) {return &n;}}
  return nullptr;
}
void Graph::remove_node(const Gid & p, const std::string & name, const std::string & ns)
{
  // the last of the nodes with that name: associations are kept in the first one
  auto & v = parts[p].nodes;
  for (size_t i = v.size(); i-- > 0; ) {
    if (v[i].name == name && v[i].ns == ns) {v.erase(v.begin() + static_cast<long>(i)); return;}
  }
}
void Graph::associate(
  const Gid & ep, const Gid & p, const std::string & name, const std::string & ns, bool reader, bool add)
{
  NodeMsg * n = find(p, name, ns);
  if (!n) {return;}
  auto & v = reader ? n->readers : n->writers;
  if (add) {v.push_back(ep); return;}
  auto it = std::find(v.begin(), v.end(), ep);
  if (it != v.end()) {v.erase(it);}
}
PMsg Graph::message(const Gid & p) const
{
  PMsg m;
  m.gid = p;
  auto it = parts.find(p);
  if (it != parts.end()) {m.nodes = it->second.nodes;}
  return m;
}
size_t Graph::count(const std::string & topic, bool reader) const
{
  size_t n = 0;
  for (auto & e : eps(reader)) {n += e.second.topic == topic;}
  return n;
}
std::pair<std::string, std::string> Graph::owner(const Gid & ep, const Gid & p, bool reader) const
{
  auto it = parts.find(p);
  if (it == parts.end()) {return {"_CREATED_BY_BARE_DDS_APP_", "_CREATED_BY_BARE_DDS_APP_"};}
  for (auto & n : it->second.nodes) {
    auto & v = reader ? n.readers : n.writers;
    if (std::find(v.begin(), v.end(), ep) != v.end()) {return {n.name, n.ns};}
  }
  return {"_NODE_NAME_UNKNOWN_", "_NODE_NAMESPACE_UNKNOWN_"};
}
std::vector<EpInfo> Graph::info(const std::string & topic, bool reader, int demangle) const
{
  std::vector<EpInfo> out;
  for (auto & e : eps(reader)) {
    if (e.second.topic != topic) {continue;}
    EpInfo i;
    auto o = owner(e.first, e.second.part, reader);
    i.node = o.first;
    i.ns = o.second;
    i.type = sut::demangle_type(demangle, e.second.type);
    i.hash = e.second.hash;
    i.kind = reader ? 2 : 1;
    i.gid = e.first;
    i.qos = e.second.qos;
    out.push_back(i);
  }
  return out;
}
Names Graph::names(int demangle) const
{
  Names n;
  for (int r = 0; r < 2; ++r) {
    for (auto & e : eps(r)) {
      std::string t = sut::demangle_topic(demangle, e.second.topic);
      if (!t.empty()) {n[t].insert(sut::demangle_type(demangle, e.second.type));}
    }
  }
  return n;
}
std::vector<Names> Graph::by_node(const std::string & name, const std::string & ns, bool reader, int demangle) const
{
  std::vector<Names> out;
  for (auto & p : parts) {
    for (auto & n : p.second.nodes) {
      if (n.name != name || n.ns != ns) {continue;}
      Names x;
      for (auto & g : reader ? n.readers : n.writers) {
        auto it = eps(reader).find(g);
        if (it == eps(reader).end()) {continue;}
        std::string t = sut::demangle_topic(demangle, it->second.topic);
        if (!t.empty()) {x[t].insert(sut::demangle_type(demangle, it->second.type));}
      }
      out.push_back(x);
    }
  }
  return out;
}
size_t Graph::n_nodes() const
{
  size_t n = 0;
  for (auto & p : parts) {n += p.second.nodes.size();}
  return n;
}
std::vector<NodeName> Graph::node_names() const
{
  std::vector<NodeName> v;
  for (auto & p : parts) {
    for (auto & n : p.second.nodes) {
      NodeName x;
      x.name = n.name;
      x.ns = n.ns;
      x.enclave = p.second.enclave;
      v.push_back(x);
    }
  }
  return v;
}
static void put(std::string & s, const std::string & t) {s += t; s += '\x01';}
static void put_gid(std::string & s, const Gid & g) {s.append(reinterpret_cast<const char *>(g.b), 16);}
std::string Graph::key() const
{
  std::string s;
  for (int r = 0; r < 2; ++r) {
    s += r ? "\x02R" : "\x02W";
    for (auto & e : eps(r)) {
      put_gid(s, e.first);
      put(s, e.second.topic);
      put(s, e.second.type);
      put_gid(s, e.second.part);
      s.append(reinterpret_cast<const char *>(e.second.hash.v), 32);
      s += static_cast<char>(e.second.hash.version);
      put(s, e.second.qos.str());
    }
  }
  for (auto & p : parts) {
    s += "\x02P";
    put_gid(s, p.first);
    put(s, p.second.enclave);
    put(s, canon(message(p.first)));
  }
  return s;
}
std::string canon(std::vector<EpInfo> v)
{
  std::vector<std::string> t;
  for (auto & e : v) {t.push_back(e.str());}
  std::sort(t.begin(), t.end());
  std::string s;
  for (auto & x : t) {s += x + "\n";}
  return s;
}
std::string canon(const Names & n)
{
  std::string s;
  for (auto & x : n) {
    s += x.first + ":";
    for (auto & t : x.second) {s += t + ",";}
    s += "\n";
  }
  return s;
}
std::string canon(const sut::NT & n)
{
  Names m;
  std::string dup;
  for (auto & x : n) {
    if (m.count(x.first)) {dup = "!dup " + x.first;}
    auto & s = m[x.first];
    for (auto & t : x.second) {if (!s.insert(t).second) {dup = "!dup type " + t;}}
  }
  return canon(m) + dup;
}
std::string canon(std::vector<NodeName> v, bool enclaves)
{
  std::vector<std::string> t;
  for (auto & n : v) {t.push_back(n.ns + "|" + n.name + (enclaves ? "|" + n.enclave : ""));}
  std::sort(t.begin(), t.end());
  std::string s;
  for (auto & x : t) {s += x + "\n";}
  return s;
}
static std::string gids(std::vector<Gid> v)
{
  std::sort(v.begin(), v.end());
  std::string s;
  for (auto & g : v) {s += g.str() + ",";}
  return s;
}
std::string canon(const PMsg & m)
{
  std::vector<std::string> t;
  for (auto & n : m.nodes) {t.push_back(n.ns + "|" + n.name + "|r" + gids(n.readers) + "|w" + gids(n.writers));}
  std::sort(t.begin(), t.end());
  std::string s = m.gid.str() + "\n";
  for (auto & x : t) {s += x + "\n";}
  return s;
}
std::string canon_merged(const PMsg & m)
{
  std::map<std::pair<std::string, std::string>, std::pair<int, NodeMsg>> x;
  for (auto & n : m.nodes) {
    auto & e = x[{n.ns, n.name}];
    e.first++;
    e.second.readers.insert(e.second.readers.end(), n.readers.begin(), n.readers.end());
    e.second.writers.insert(e.second.writers.end(), n.writers.begin(), n.writers.end());
  }
  std::string s = m.gid.str() + "\n";
  for (auto & e : x) {
    s += e.first.first + "|" + e.first.second + " x" + std::to_string(e.second.first) + "|r" +
      gids(e.second.second.readers) + "|w" + gids(e.second.second.writers) + "\n";
  }
  return s;
}
}  // namespace model
