// Small executable reference model of the graph: single copy, no concurrency.
#pragma once
#include "sut.h"
#include <map>
#include <set>
#include <string>
#include <vector>

namespace model
{
using sut::Gid;
using sut::Hash;
using sut::Qos;

struct Ep
{
  std::string topic, type;
  Hash hash;
  Gid part;
  Qos qos;
  bool operator==(const Ep & o) const
  {
    return topic == o.topic && type == o.type && hash == o.hash && part == o.part && qos == o.qos;
  }
};
struct Part
{
  std::string enclave;
  std::vector<sut::NodeMsg> nodes;
};
typedef std::map<std::string, std::set<std::string>> Names;
struct Graph
{
  std::map<Gid, Ep> writers, readers;
  std::map<Gid, Part> parts;

  std::map<Gid, Ep> & eps(bool reader) {return reader ? readers : writers;}
  const std::map<Gid, Ep> & eps(bool reader) const {return reader ? readers : writers;}
  bool add_entity(const Gid &, const Ep &, bool reader);
  bool remove_entity(const Gid &, bool reader);
  void update(const sut::PMsg &);
  void add_participant(const Gid &, const std::string & enclave);
  bool remove_participant(const Gid &);
  void add_node(const Gid & part, const std::string & name, const std::string & ns);
  void remove_node(const Gid & part, const std::string & name, const std::string & ns);
  void associate(const Gid & ep, const Gid & part, const std::string & name, const std::string & ns, bool reader, bool add);
  sut::NodeMsg * find(const Gid & part, const std::string & name, const std::string & ns);
  sut::PMsg message(const Gid & part) const;

  size_t count(const std::string & topic, bool reader) const;
  /// who an endpoint is attributed to
  std::pair<std::string, std::string> owner(const Gid & ep, const Gid & part, bool reader) const;
  std::vector<sut::EpInfo> info(const std::string & topic, bool reader, int demangle) const;
  Names names(int demangle) const;
  /// every acceptable answer (several nodes may share the name); empty: no such node
  std::vector<Names> by_node(const std::string & name, const std::string & ns, bool reader, int demangle) const;
  size_t n_nodes() const;
  std::vector<sut::NodeName> node_names() const;
  std::string key() const;  // canonical text
};

// Canonical forms of answers (order is not part of the contract; duplicates are).
std::string canon(std::vector<sut::EpInfo> v);
std::string canon(const Names & n);
std::string canon(const sut::NT & n);  // "" + "!dup" when a name occurs twice
std::string canon(std::vector<sut::NodeName> v, bool enclaves);
/// message compared as a multiset of nodes, each with multisets of endpoints
std::string canon(const sut::PMsg & m);
/// nodes of the same name merged: how many there are and which endpoints they hold together
std::string canon_merged(const sut::PMsg & m);
}  // namespace model
