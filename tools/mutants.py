#!/usr/bin/env python3
"""Runs the checks against small hand-written changes: mutants.py [PROP|name ...].
Each entry: (name, properties expected to notice, file, old, new[, nth occurrence]).
Works on scratch copies; prints caught/MISSED per property."""
import os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactors import KEEP

G, C, Q, S, U, GH, CH = 'src/graph_cache.cpp', 'src/context.cpp', 'src/qos.cpp', 'src/security.cpp', 'src/gid_utils.cpp', 'include/rmw_dds_common/graph_cache.hpp', 'include/rmw_dds_common/context.hpp'
FINALLOCK = '  std::lock_guard<std::mutex> guard(mutex_);\n'
M = [
    # graph cache: locking
    ('nolock-count', ['C05'], G, 'size_t * count) const\n{\n' + FINALLOCK, 'size_t * count) const\n{\n'),
    ('nolock-nnodes', ['C05'], G, 'get_number_of_nodes() const\n{\n' + FINALLOCK, 'get_number_of_nodes() const\n{\n'),
    ('nolock-clear', ['C06'], G, 'std::lock_guard<std::mutex> lock(mutex_);\n  on_change', 'on_change'),
    ('early-unlock-names', ['C05'], G, '''    __get_names_and_types(
      data_writers_,
      demangle_topic,
      demangle_type,
      topics);
  }
''', '''  }
  {
    std::lock_guard<std::mutex> guard(mutex_);
    __get_names_and_types(
      data_writers_,
      demangle_topic,
      demangle_type,
      topics);
  }
'''),
    ('update-two-steps', ['C05', 'C02'], G, '  it->second.node_entities_info_seq = msg.node_entities_info_seq;\n  GRAPH', '''  it->second.node_entities_info_seq.clear();
  mutex_.unlock();
  mutex_.lock();
  it->second.node_entities_info_seq = msg.node_entities_info_seq;
  GRAPH'''),
    ('notify-before-change', ['C06'], G, '''  std::lock_guard<std::mutex> guard(mutex_);
  bool ret = participants_.erase(participant_gid) > 0;
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, ret);
''', '''  std::unique_lock<std::mutex> guard(mutex_);
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, participants_.count(participant_gid) > 0);
  guard.unlock();
  guard.lock();
  bool ret = participants_.erase(participant_gid) > 0;
'''),
    ('no-notify-update', ['C06'], G, '  it->second.node_entities_info_seq = msg.node_entities_info_seq;\n  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK(this);', '  it->second.node_entities_info_seq = msg.node_entities_info_seq;'),
    ('no-notify-same-size', ['C06'], G, '  it->second.node_entities_info_seq = msg.node_entities_info_seq;\n  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK(this);', '  bool same = it->second.node_entities_info_seq.size() == msg.node_entities_info_seq.size() && !msg.node_entities_info_seq.empty();\n  it->second.node_entities_info_seq = msg.node_entities_info_seq;\n  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, !same);'),
    ('notify-always-remove', ['C06'], G, 'GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, ret);', 'GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK(this);'),
    ('notify-outside-lock', ['C06'], G, '''  std::lock_guard<std::mutex> guard(mutex_);
  bool ret = data_writers_.erase(gid) > 0;
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, ret);
  return ret;''', '''  bool ret;
  std::function<void()> cb;
  {
    std::lock_guard<std::mutex> guard(mutex_);
    ret = data_writers_.erase(gid) > 0;
    cb = on_change_callback_;
  }
  if (ret && cb) {cb();}
  return ret;'''),
    # graph cache: discovery semantics
    ('readd-overwrites', ['C09', 'C05'], G, '''  auto pair = data_readers_.emplace(
    std::piecewise_construct,
    std::forward_as_tuple(gid),
    std::forward_as_tuple(topic_name, type_name, type_hash, participant_gid, qos));
''', '''  auto pair = data_readers_.emplace(
    std::piecewise_construct,
    std::forward_as_tuple(gid),
    std::forward_as_tuple(topic_name, type_name, type_hash, participant_gid, qos));
  if (!pair.second) {pair.first->second.qos = qos;}
'''),
    ('update-needs-participant', ['C01', 'C09'], G, '''  auto it = participants_.find(gid);
  if (participants_.end() == it) {
    auto ret''', '''  auto it = participants_.find(gid);
  if (participants_.end() == it && msg.node_entities_info_seq.empty()) {
    return;
  }
  if (participants_.end() == it) {
    auto ret'''),
    ('add-participant-resets', ['C01', 'C02', 'C09'], G, '  it->second.enclave = enclave;', '  it->second.node_entities_info_seq.clear();\n  it->second.enclave = enclave;'),
    ('update-merges', ['C01', 'C02'], G, '  it->second.node_entities_info_seq = msg.node_entities_info_seq;\n', '''  if (it->second.node_entities_info_seq.size() <= msg.node_entities_info_seq.size() + 1) {
    it->second.node_entities_info_seq = msg.node_entities_info_seq;
  }
'''),
    ('remove-participant-keeps-empty-enclave', ['C10'], G, '  bool ret = participants_.erase(participant_gid) > 0;', '''  auto pit = participants_.find(participant_gid);
  bool ret = pit != participants_.end();
  if (ret && pit->second.enclave.empty()) {pit->second.enclave = "";} else if (ret) {participants_.erase(pit);}'''),
    ('remove-participant-drops-nodes-only', ['C09'], G, '  bool ret = participants_.erase(participant_gid) > 0;', '''  auto pit = participants_.find(participant_gid);
  bool ret = pit != participants_.end();
  if (ret) {pit->second.node_entities_info_seq.clear();}'''),
    ('attribute-by-other-kind', ['C09'], G, 'auto & gid_seq = is_reader ? node_info.reader_gid_seq : node_info.writer_gid_seq;', 'auto & gid_seq = is_reader && !node_info.reader_gid_seq.empty() ? node_info.reader_gid_seq : node_info.writer_gid_seq;'),
    ('placeholder-swap', ['C09'], G, '  return {"", "", EndpointCreator::UNDISCOVERED_ROS_NODE};', '  return {"", "", it->second.node_entities_info_seq.empty() ? EndpointCreator::BARE_DDS_PARTICIPANT : EndpointCreator::UNDISCOVERED_ROS_NODE};'),
    ('gid-compare-12', ['C09', 'C10'], G, 'std::memcmp(gid.data.data(), entity_gid.data, RMW_GID_STORAGE_SIZE)', 'std::memcmp(gid.data.data(), entity_gid.data, RMW_GID_STORAGE_SIZE - 4)'),
    ('gid-order-12', ['C09', 'C10'], U, '    lhs.data + RMW_GID_STORAGE_SIZE,\n    rhs.data,\n    rhs.data + RMW_GID_STORAGE_SIZE);', '    lhs.data + 12,\n    rhs.data,\n    rhs.data + 12);'),
    ('remove-first-same-name', ['C11'], G, '  auto to_remove = std::find_if(\n    it->second.node_entities_info_seq.rbegin(),\n    it->second.node_entities_info_seq.rend(),', '  auto to_remove = std::find_if(\n    it->second.node_entities_info_seq.rbegin() + static_cast<int>(it->second.node_entities_info_seq.size() > 2),\n    it->second.node_entities_info_seq.rend(),'),
    ('same-name-any-namespace', ['C11', 'C03'], G, '      return node_info.node_name == node_name && node_info.node_namespace == node_namespace;\n    });\n\n  assert(to_remove', '      return node_info.node_name == node_name;\n    });\n\n  assert(to_remove'),
    ('dissociate-all-after', ['C03', 'C11'], G, 'info.reader_gid_seq.erase(it);', 'info.reader_gid_seq.erase(it, info.reader_gid_seq.end());'),
    ('dissociate-compare-prefix', ['C03'], G, '          return gid == writer_gid_msg;', '          return std::equal(gid.data.begin(), gid.data.begin() + 15, writer_gid_msg.data.begin());'),
    # graph cache: memory
    ('no-cleanup-names', ['C07'], G, '  rcutils_ret = rcutils_string_array_fini(node_namespaces);\n', '  rcutils_ret = RCUTILS_RET_OK;\n'),
    ('no-cleanup-enclaves', ['C07'], G, '    rcutils_ret = rcutils_string_array_fini(enclaves);\n', '    rcutils_ret = RCUTILS_RET_OK;\n'),
    ('release-early', ['C07'], G, '''    endpoint_info = rmw_get_zero_initialized_topic_endpoint_info();

''', '''    endpoint_info = rmw_get_zero_initialized_topic_endpoint_info();
    if (i + 1 == size) {endpoints_info_delete_on_error.release();}

'''),
    ('wrong-ret-types', ['C07'], G, 'rmw_ret = rmw_convert_rcutils_ret_to_rmw_ret(rcutils_ret);', 'rmw_ret = RMW_RET_ERROR;'),
    ('skip-oom-type', ['C07'], G, '''      if (!type_name) {
        RMW_SET_ERROR_MSG("failed to allocate memory for type name");
        rmw_ret = RMW_RET_BAD_ALLOC;
        goto cleanup;
      }
''', ''),
    ('default-allocator-topic', ['C07'], G, 'rcutils_strdup(item.first.c_str(), *allocator)', 'rcutils_strdup(item.first.c_str(), rcutils_get_default_allocator())'),
    ('raw-lock-update', ['C08'], G, '''  std::lock_guard<std::mutex> guard(mutex_);
  rmw_gid_t gid;
''', '''  mutex_.lock();
  struct Unlock {std::mutex & m; bool on; ~Unlock() {if (on) {m.unlock();}}} unlock{mutex_, false};
  rmw_gid_t gid;
'''),
    ('raw-lock-assoc', ['C08'], G, '''  std::lock_guard<std::mutex> guard(mutex_);
  auto add_reader_gid = [&reader_gid](rmw_dds_common::msg::NodeEntitiesInfo & info)
    {
      info.reader_gid_seq.emplace_back();
      convert_gid_to_msg(&reader_gid, &info.reader_gid_seq.back());
    };
  auto msg = __modify_node_info(
    participant_gid, node_name, node_namespace, add_reader_gid, participants_);

  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK(this);
  return msg;''', '''  mutex_.lock();
  auto add_reader_gid = [&reader_gid](rmw_dds_common::msg::NodeEntitiesInfo & info)
    {
      info.reader_gid_seq.emplace_back();
      convert_gid_to_msg(&reader_gid, &info.reader_gid_seq.back());
    };
  auto msg = __modify_node_info(
    participant_gid, node_name, node_namespace, add_reader_gid, participants_);

  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK(this);
  mutex_.unlock();
  return msg;'''),
    ('erase-then-insert', ['C08'], G, '  it->second.node_entities_info_seq = msg.node_entities_info_seq;\n', '''  std::string enclave = it->second.enclave;
  participants_.erase(it);
  it = participants_.emplace(gid, ParticipantInfo{msg.node_entities_info_seq, enclave}).first;
'''),
    # context
    ('no-rollback-node', ['C04'], C, '    graph_cache.remove_node(gid, name, namespace_);\n    return RMW_RET_ERROR;', '    return RMW_RET_ERROR;'),
    ('no-rollback-client-writer', ['C04'], C, '''    static_cast<void>(graph_cache.dissociate_writer(
      request_publisher_gid, gid, name, namespace_));
    return RMW_RET_ERROR;''', '    return RMW_RET_ERROR;'),
    ('no-rollback-service-reader', ['C04'], C, '''    static_cast<void>(graph_cache.dissociate_reader(
      request_subscriber_gid, gid, name, namespace_));
    return RMW_RET_ERROR;''', '    return RMW_RET_ERROR;'),
    ('rollback-wrong-kind', ['C04'], C, '''    static_cast<void>(graph_cache.dissociate_reader(
      subscription_gid, gid, name, namespace_));''', '''    static_cast<void>(graph_cache.dissociate_writer(
      subscription_gid, gid, name, namespace_));'''),
    ('null-pub-ok', ['C04'], C, '  if (nullptr == pub || nullptr', '  if (nullptr == pub) {return true;}\n  if (nullptr'),
    ('failed-removal-rolled-back', ['C04'], C, '''    graph_cache.dissociate_writer(
    publisher_gid, gid, name, namespace_);

  if (!call_publish_callback(pub, publish_callback, msg)) {
    return RMW_RET_ERROR;''', '''    graph_cache.dissociate_writer(
    publisher_gid, gid, name, namespace_);

  if (!call_publish_callback(pub, publish_callback, msg)) {
    static_cast<void>(graph_cache.associate_writer(publisher_gid, gid, name, namespace_));
    return RMW_RET_ERROR;'''),
    ('publish-unlocked', ['C03'], C, '''  std::lock_guard<std::mutex> guard(node_update_mutex);
  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.dissociate_reader(
    subscription_gid, gid, name, namespace_);
''', '''  std::unique_lock<std::mutex> guard(node_update_mutex);
  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.dissociate_reader(
    subscription_gid, gid, name, namespace_);
  guard.unlock();
'''),
    ('no-update-mutex', ['C03'], C, '  std::lock_guard<std::mutex> guard(node_update_mutex);\n  graph_cache.dissociate_reader(', '  graph_cache.dissociate_reader('),
    ('client-first-msg', ['C03'], C, '''  graph_cache.associate_writer(
    request_publisher_gid, gid, name, namespace_);

  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.associate_reader(
    response_subscriber_gid, gid, name, namespace_);
''', '''  rmw_dds_common::msg::ParticipantEntitiesInfo msg = graph_cache.associate_writer(
    request_publisher_gid, gid, name, namespace_);

  graph_cache.associate_reader(
    response_subscriber_gid, gid, name, namespace_);
'''),
    ('stall-under-cache-lock', ['C12'], G.replace('src/graph_cache.cpp', 'src/context.cpp'), '''    graph_cache.dissociate_reader(
    subscription_gid, gid, name, namespace_);

  if (!call''', '''    graph_cache.dissociate_reader(
    subscription_gid, gid, name, namespace_);

  std::lock_guard<std::mutex> quiesce(graph_cache.mutex_);
  if (!call''', [(GH, '  mutable std::mutex mutex_;', 'public:\n  mutable std::mutex mutex_;')]),
    ('static-msg', ['C03', 'C05'], G, '  rmw_dds_common::msg::ParticipantEntitiesInfo msg;\n  rmw_dds_common::convert_gid_to_msg', '  static rmw_dds_common::msg::ParticipantEntitiesInfo msg;\n  rmw_dds_common::convert_gid_to_msg'),
    # qos
    ('sub-smallest-deadline', ['C13'], Q, 'if (largest_deadline < profile.deadline)', 'if (largest_deadline.sec < profile.deadline.sec)'),
    ('sub-lease-from-deadline', ['C13'], Q, 'subscription_profile->liveliness_lease_duration = largest_liveliness_lease_duration;', 'subscription_profile->liveliness_lease_duration = use_default_deadline ? largest_liveliness_lease_duration : largest_deadline;'),
    ('pub-any-default', ['C13'], Q, '''    if (profile.deadline != deadline_default) {
      use_default_deadline = false;
      if (profile.deadline < smallest_deadline) {''', '''    if (profile.deadline.sec != 0) {
      use_default_deadline = false;
      if (profile.deadline < smallest_deadline) {'''),
    ('leak-on-success', ['C13'], Q, '    rmw_ret_t fini_ret = rmw_topic_endpoint_info_array_fini(&publishers_info, &allocator);', '    rmw_ret_t fini_ret = publishers_info.size > 3 ? RMW_RET_OK : rmw_topic_endpoint_info_array_fini(&publishers_info, &allocator);'),
    ('ignore-provider-error', ['C13'], Q, '''      node, &allocator, topic_name, false, &subscriptions_info);
    if (RMW_RET_OK != ret) {''', '''      node, &allocator, topic_name, false, &subscriptions_info);
    if (RMW_RET_OK != ret && RMW_RET_NODE_NAME_NON_EXISTENT != ret) {'''),
    ('query-twice', ['C13'], Q, '    ret = qos_profile_get_best_available_for_subscription(\n      &publishers_info, qos_profile);\n', '''    ret = qos_profile_get_best_available_for_subscription(
      &publishers_info, qos_profile);
    if (qos_profile->reliability == RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT) {
      rmw_ret_t f = rmw_topic_endpoint_info_array_fini(&publishers_info, &allocator);
      static_cast<void>(f);
      ret = get_endpoint_info(node, &allocator, topic_name, false, &publishers_info);
      if (RMW_RET_OK != ret) {
        return ret;
      }
      for (size_t i = 0; i < publishers_info.size; ++i) {
        if (publishers_info.info_array[i].qos_profile.durability == RMW_QOS_POLICY_DURABILITY_VOLATILE && qos_profile->durability == RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL) {
          qos_profile->durability = RMW_QOS_POLICY_DURABILITY_VOLATILE;
        }
      }
    }
'''),
    ('needless-query', ['C13'], Q, '  if (_qos_profile_has_best_available_policy(*qos_profile)) {', '  if (_qos_profile_has_best_available_policy(*qos_profile) || qos_profile->reliability == RMW_QOS_POLICY_RELIABILITY_UNKNOWN) {'),
    ('forget-lease', ['C13'], Q, '  if (liveliness_lease_duration_best_available == qos_profile.liveliness_lease_duration) {\n    return true;\n  }\n  return false;', '  return false;'),
    ('lifespan-touched', ['C13'], Q, '      publisher_profile->deadline = smallest_deadline;', '      publisher_profile->deadline = smallest_deadline;\n      if (publisher_profile->lifespan == deadline_best_available) {publisher_profile->lifespan = smallest_deadline;}'),
    # hash
    ('hash-no-scope-exit', ['C14'], Q, '  RCPPUTILS_SCOPE_EXIT(allocator.deallocate(type_hash_c_str, &allocator.state));\n  string_out = "typehash=" + std::string(type_hash_c_str) + ";";\n', '  string_out = "typehash=" + std::string(type_hash_c_str) + ";";\n  allocator.deallocate(type_hash_c_str, &allocator.state);\n'),
    ('hash-bad-alloc-ok', ['C14'], Q, '    return RMW_RET_BAD_ALLOC;\n  }\n  if (RCUTILS_RET_OK != stringify_ret) {', '    string_out.clear();\n    return RMW_RET_OK;\n  }\n  if (RCUTILS_RET_OK != stringify_ret) {'),
    ('hash-ignore-parse-error', ['C14'], Q, '''  if (RCUTILS_RET_OK != rosidl_parse_type_hash_string(type_hash_str.c_str(), &type_hash_out)) {
    return RMW_RET_ERROR;
  }
''', '''  if (RCUTILS_RET_OK != rosidl_parse_type_hash_string(type_hash_str.c_str(), &type_hash_out)) {
    type_hash_out.version = type_hash_str.size() == 71 ? 1 : 0;
  }
'''),
    ('hash-ostringstream', ['C14'], Q, '  string_out = "typehash=" + std::string(type_hash_c_str) + ";";', '  std::ostringstream os;\n  os << "typehash=" << type_hash_c_str << ";";\n  string_out = os.str();', [(Q, '#include <string>', '#include <sstream>\n#include <string>')]),
    ('hash-pad', ['C14'], Q, '  std::string type_hash_str(typehash_it->second.begin(), typehash_it->second.end());\n', '  std::string type_hash_str(typehash_it->second.begin(), typehash_it->second.end());\n  if (type_hash_str.size() == 70) {type_hash_str += "0";}\n'),
    ('hash-no-reset', ['C14'], Q, '    type_hash_out = rosidl_get_zero_initialized_type_hash();\n', ''),
    ('hash-no-terminator', ['C14'], Q, 'std::string(type_hash_c_str) + ";"', 'std::string(type_hash_c_str)'),
    ('hash-unset-keeps', ['C14'], Q, '    string_out.clear();\n    return RMW_RET_OK;', '    return RMW_RET_OK;'),
    ('hash-overread', ['C14'], Q, 'std::vector<uint8_t> udvec(user_data, user_data + user_data_size);', 'std::vector<uint8_t> udvec(user_data, user_data + (user_data_size + 3) / 4 * 4);\n  udvec.resize(user_data_size);'),
    # security
    ('sec-throwing-crl', ['C15'], S, '    if (std::filesystem::is_regular_file(full_path, ec)) {\n      result[el.first]', '    if (std::filesystem::exists(full_path) && std::filesystem::is_regular_file(full_path, ec)) {\n      result[el.first]'),
    ('sec-exists', ['C15'], S, '  if (!std::filesystem::is_regular_file(full_path, ec)) {\n    return false;\n  }\n  result = prefix', '  if (!std::filesystem::exists(full_path, ec)) {\n    return false;\n  }\n  result = prefix'),
    ('sec-no-clear', ['C15'], S, '    if (!processed) {\n      result.clear();', '    if (!processed) {'),
    ('sec-no-initial-clear', ['C15'], S, '  result.clear();\n\n  for (const std::pair<const std::string,\n', '  for (const std::pair<const std::string,\n'),
    ('sec-carry-value', ['C15', 'C16'], S, '    std::string attribute_value;\n    bool processed = false;', '    static std::string attribute_value;\n    bool processed = false;'),
    ('sec-partial-ref', ['C16'], S, '  if (!(ifs >> result)) {\n    return false;\n  }', '  ifs >> result;\n  if (result.empty()) {\n    return false;\n  }'),
    ('sec-find-anywhere', ['C16'], S, 'if (result.find(p11_prefix) != 0) {', 'if (result.find(p11_prefix) == std::string::npos) {'),
    ('sec-getline', ['C16'], S, 'if (!(ifs >> result)) {', 'if (!std::getline(ifs, result)) {'),
    ('sec-fixed-buffer', ['C16'], S, '  if (!(ifs >> result)) {\n    return false;\n  }', '  char buf[256];\n  ifs.width(sizeof(buf));\n  if (!(ifs >> buf)) {\n    return false;\n  }\n  result = buf;'),
    ('sec-readsome', ['C16'], S, '  if (!(ifs >> result)) {\n    return false;\n  }', '  char buf[16384];\n  ifs.peek();\n  std::streamsize n = ifs.rdbuf()->in_avail();\n  n = ifs.rdbuf()->sgetn(buf, n < 16384 ? n : 16384);\n  std::string all(buf, static_cast<size_t>(n));\n  size_t b = all.find_first_not_of(" \\t\\n\\r\\v\\f");\n  if (b == std::string::npos) {\n    return false;\n  }\n  result = all.substr(b, all.find_first_of(" \\t\\n\\r\\v\\f", b) - b);'),
    ('sec-read-twice', ['C16'], S, '  if (result.find(p11_prefix) != 0) {\n    return false;\n  }', '  if (result.find(p11_prefix) != 0) {\n    return false;\n  }\n  std::ifstream again(full_path);\n  again >> result;'),
    ('sec-ignore-support', ['C16'], S, '  if (!supports_pkcs11) {\n    return false;\n  }', '  (void)supports_pkcs11;'),
    ('sec-governance-p11', ['C16'], S, '        {"governance.p7s", std::bind(process_file', '        {"governance.p11", std::bind(process_pkcs_uri_security_file, _1, _2, _3, _4)},\n        {"governance.p7s", std::bind(process_file'),
    ('sec-order', ['C16'], S, '''        {"key.p11", std::bind(process_pkcs_uri_security_file, _1, _2, _3, _4)},
        {"key.pem", std::bind(process_file_uri_security_file, _1, _2, _3, _4)}}},''', '''        {"key.pem", std::bind(process_file_uri_security_file, _1, _2, _3, _4)},
        {"key.p11", std::bind(process_pkcs_uri_security_file, _1, _2, _3, _4)}}},'''),
    ('sec-no-regular-check', ['C15', 'C16'], S, '  if (!std::filesystem::is_regular_file(full_path, ec)) {\n    return false;\n  }\n\n  std::ifstream', '  std::ifstream'),
]



def main():
    want = set(sys.argv[1:])
    # KEEP [PROP|name ...]: the refactorings instead, every property they may disturb
    build = '/tmp/vsim_try_build'
    if not os.path.isdir(build):
        os.makedirs(build)
    missed = 0
    for m in (KEEP if 'KEEP' in want else M):
        name, props, f, old, new = m[:5]
        props = [p for p in props if not want - {'KEEP'} or p in want or name in want]
        if not props:
            continue
        d = tempfile.mkdtemp(prefix='vsim_mut.', dir='/tmp')
        try:
            shutil.copytree('/repo/rmw_dds_common', d + '/rmw_dds_common')
            edits = [(f, old, new)] + [tuple(e) for e in (m[5] if len(m) > 5 else [])]
            bad = False
            for f, old, new in edits:
                path = os.path.join(d, 'rmw_dds_common', f)
                s = open(path).read()
                found = old.search(s) if isinstance(old, re.Pattern) else old in s
                if not found:
                    print('%-40s TEXT NOT FOUND %s' % (name, str(old)[:60]))
                    bad = True
                    continue
                open(path, 'w').write(old.sub(new, s) if isinstance(old, re.Pattern) else s.replace(old, new, 1))
            if bad:
                continue
            for p in props:
                t = time.time()
                r = subprocess.run([sys.executable, '/verif/check.py', p], cwd='/verif', env=dict(os.environ, VSIM_REPO=d, VSIM_BUILD=build), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                cls = [l.split()[1] for l in r.stdout.splitlines() if l.startswith('FAIL ')]
                verdict = 'caught' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'ERROR'
                if m in KEEP:
                    verdict = 'quiet' if r.returncode == 0 else 'ALARM' if r.returncode == 1 else 'ERROR'
                missed += verdict not in ('caught', 'quiet')
                print('%-40s %s %-6s %5.1fs %s' % (name, p, verdict, time.time() - t, ' '.join(cls)), flush=True)
                if verdict in ('ERROR', 'ALARM'):
                    print(r.stdout[-500:], r.stderr[-1500:])
        finally:
            shutil.rmtree(d)
    sys.exit(missed != 0)


if __name__ == '__main__':
    main()
