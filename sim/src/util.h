// Pools and helpers shared by the worlds.
#pragma once
#include "engine.h"
#include "model.h"
#include "sut.h"
#include <set>
#include <string>
#include <vector>

namespace util
{
using sim::i64;
using sim::u64;
using sut::Gid;
using sut::Qos;
using sut::Hash;

// Names: short ones and ones long enough to live on the heap.
/// Which of the four pools of names topic() ... enclave() draw from (parameter "pool" of a plan).
void set_pool(i64 n);
std::string topic(i64 n);
std::string type(i64 n);
std::string node_name(i64 n);
std::string node_ns(i64 n);
std::string enclave(i64 n);
Hash hash(i64 n);
Qos qos(i64 n);
Gid ep_gid(i64 n, i64 style);
Gid part_gid(i64 n, i64 style);

/// Splits the operations of a plan by task.
std::vector<std::vector<sim::Op>> by_task(const sim::Plan & p, int ntasks);
void add_op(sim::Plan & p, int task, const std::string & code, const std::vector<i64> & a);

/// The answers of all queries, taken one after the other (meaningful when nothing else runs).
struct Snapshot
{
  std::string text;  // canonical
};
/// Checks every query of the cache against the model; violation of class `cls` on a difference.
/// Only topics 0..ntopics-1 and names 0..nnames-1 are asked individually.
void check_all(
  sut::Cache * c, const model::Graph & g, int ntopics, int nnames, int demangle, const char * cls,
  const char * when, bool merged = false);
std::string diff(const std::string & got, const std::string & want);

/// A long life before a run proper (parameter "churn" of a plan).
struct Churn
{
  bool on = false;       // under way: a change callback only counts
  bool watched = false;  // a change callback is installed throughout
  u64 calls = 0;         // of the change callback
};
void long_life(sim::Plan & p, sut::Cache * c, const model::Graph & base, const Gid & local, i64 style, Churn & life);
}  // namespace util
