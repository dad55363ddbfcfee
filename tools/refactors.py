"""Behaviour-preserving changes: every check stays quiet on them (mutants.py KEEP)."""
import re

G, C, Q, S, U, GH, CH = 'src/graph_cache.cpp', 'src/context.cpp', 'src/qos.cpp', 'src/security.cpp', 'src/gid_utils.cpp', 'include/rmw_dds_common/graph_cache.hpp', 'include/rmw_dds_common/context.hpp'
GRAPHP = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12']
LG = 'std::lock_guard<std::mutex>'
KEEP = [
    # security
    ('static-file-table', ['C15', 'C16'], S, '  const std::unordered_map<std::string, processor_vector> required_files', '  static const std::unordered_map<std::string, processor_vector> required_files'),
    ('static-optional', ['C15', 'C16'], S, '  const std::unordered_map<std::string, std::string> optional_files', '  static const std::unordered_map<std::string, std::string> optional_files'),
    ('ordered-file-table', ['C15', 'C16'], S, '  const std::unordered_map<std::string, processor_vector> required_files', '  const std::map<std::string, processor_vector> required_files', [(S, '#include <string>', '#include <map>\n#include <string>')]),
    ('stage-in-local', ['C15', 'C16'], S, '    result[el.first] = attribute_value;', '    found[el.first] = attribute_value;', [
        (S, '  result.clear();\n\n  for', '  result.clear();\n  std::unordered_map<std::string, std::string> found;\n\n  for'),
        (S, '      result[el.first] = prefix + full_path.generic_string();', '      found[el.first] = prefix + full_path.generic_string();'),
        (S, '  return true;\n}\n\n}  // namespace', '  result = std::move(found);\n  return true;\n}\n\n}  // namespace')]),
    ('optional-first', ['C15', 'C16'], S, '  for (const std::pair<const std::string,\n    std::vector', '  std::error_code crl_ec;\n  const bool has_crl = std::filesystem::is_regular_file(std::filesystem::path(secure_root) / "crl.pem", crl_ec);\n  (void)has_crl;\n  for (const std::pair<const std::string,\n    std::vector'),
    ('status-first', ['C15', 'C16'], S, '  if (!std::filesystem::is_regular_file(full_path, ec)) {\n    return false;\n  }\n  result = prefix', '  const std::filesystem::file_status st = std::filesystem::status(full_path, ec);\n  if (ec || !std::filesystem::is_regular_file(st)) {\n    return false;\n  }\n  result = prefix'),
    ('read-whole-file', ['C16', 'C15'], S, '  if (!(ifs >> result)) {\n    return false;\n  }', '  std::stringstream ss;\n  ss << ifs.rdbuf();\n  if (!(ss >> result)) {\n    return false;\n  }', [(S, '#include <string>', '#include <sstream>\n#include <string>')]),
    ('compare-prefix', ['C16'], S, 'if (result.find(p11_prefix) != 0) {', 'if (result.compare(0, p11_prefix.size(), p11_prefix) != 0) {'),
    ('open-late', ['C16', 'C15'], S, '  std::ifstream ifs(full_path);\n', '  std::ifstream ifs;\n  ifs.open(full_path.string(), std::ios::in);\n'),
    ('lambda-processors', ['C16', 'C15'], S, re.compile(r'std::bind\((process_\w+), _1, _2, _3, _4\)'), r'\1', [(S, '  using std::placeholders::_1;\n  using std::placeholders::_2;\n  using std::placeholders::_3;\n  using std::placeholders::_4;\n', '')]),
    ('path-join', ['C15', 'C16'], S, '      std::filesystem::path full_path(secure_root);\n      full_path /= proc.first;\n', '      const auto full_path = std::filesystem::path(secure_root) / proc.first;\n'),
    ('stat-syscall', ['C15'], S, '    if (std::filesystem::is_regular_file(full_path, ec)) {\n      result', '    struct stat sb;\n    if (::stat(full_path.c_str(), &sb) == 0 && S_ISREG(sb.st_mode)) {\n      result', [(S, '#include <string>', '#include <sys/stat.h>\n#include <string>')]),
    ('c-stdio', ['C16'], S, '  std::ifstream ifs(full_path);\n  if (!ifs.is_open()) {\n    return false;\n  }\n\n  if (!(ifs >> result)) {\n    return false;\n  }', '  std::unique_ptr<FILE, int (*)(FILE *)> fp(fopen(full_path.c_str(), "r"), fclose);\n  if (!fp) {\n    return false;\n  }\n  std::string all;\n  char buf[256];\n  size_t n;\n  while ((n = fread(buf, 1, sizeof(buf), fp.get())) > 0) {\n    all.append(buf, n);\n  }\n  if (ferror(fp.get())) {\n    return false;\n  }\n  std::istringstream ss(all);\n  if (!(ss >> result)) {\n    return false;\n  }', [(S, '#include <string>', '#include <cstdio>\n#include <memory>\n#include <sstream>\n#include <string>')]),
    ('sec-helper', ['C15', 'C16'], S, '// Processor for security attributes with FILE URI', 'static bool readable(const std::filesystem::path & p)\n{\n  std::error_code error;\n  return std::filesystem::status(p, error).type() == std::filesystem::file_type::regular;\n}\n\n// Processor for security attributes with FILE URI', [
        (S, '  std::error_code ec;\n  if (!std::filesystem::is_regular_file(full_path, ec)) {\n    return false;\n  }\n  result', '  if (!readable(full_path)) {\n    return false;\n  }\n  result'),
        (S, '  std::error_code ec;\n  if (!std::filesystem::is_regular_file(full_path, ec)) {\n    return false;\n  }\n\n', '  if (!readable(full_path)) {\n    return false;\n  }\n\n')]),
    ('sec-string-path', ['C15', 'C16'], S, '  result = prefix + full_path.generic_string();\n  return', '  std::string value = prefix;\n  value.append(full_path.string());\n  result = std::move(value);\n  return'),
    ('sec-local-word', ['C15', 'C16'], S, '  if (!(ifs >> result)) {\n    return false;\n  }\n  if (result.find(p11_prefix) != 0) {\n    return false;\n  }\n', '  std::string word;\n  ifs >> word;\n  if (ifs.fail() || word.rfind(p11_prefix, 0) != 0) {\n    return false;\n  }\n  result.swap(word);\n'),
    ('sec-iterator', ['C15', 'C16'], S, '  if (!(ifs >> result)) {\n    return false;\n  }\n', '  std::istream_iterator<std::string> word(ifs);\n  if (word == std::istream_iterator<std::string>()) {\n    return false;\n  }\n  result = *word;\n', [(S, '#include <string>', '#include <iterator>\n#include <string>')]),
    ('sec-find-if', ['C15', 'C16'], S, '''    for (auto & proc : el.second) {
      std::filesystem::path full_path(secure_root);
      full_path /= proc.first;
      if (proc.second(supports_pkcs11, prefix, full_path, attribute_value)) {
        processed = true;
        break;
      }
    }
''', '''    const std::filesystem::path root(secure_root);
    processed = std::any_of(
      el.second.begin(), el.second.end(), [&](const auto & proc) {
        return proc.second(supports_pkcs11, prefix, root / proc.first, attribute_value);
      });
''', [(S, '#include <filesystem>', '#include <algorithm>\n#include <filesystem>')]),
    ('sec-emplace', ['C15', 'C16'], S, '    result[el.first] = attribute_value;', '    result.insert_or_assign(el.first, std::move(attribute_value));'),
    ('sec-required-struct', ['C15', 'C16'], S, re.compile(r'  const std::unordered_map<std::string, processor_vector> required_files\{.*?\n  \};\n', re.S), '''  const std::vector<std::pair<std::string, processor_vector>> required_files{
    {"PERMISSIONS", {{"permissions.p7s", process_file_uri_security_file}}},
    {"GOVERNANCE", {{"governance.p7s", process_file_uri_security_file}}},
    {"PERMISSIONS_CA", {{"permissions_ca.cert.p11", process_pkcs_uri_security_file}, {"permissions_ca.cert.pem", process_file_uri_security_file}}},
    {"PRIVATE_KEY", {{"key.p11", process_pkcs_uri_security_file}, {"key.pem", process_file_uri_security_file}}},
    {"CERTIFICATE", {{"cert.p11", process_pkcs_uri_security_file}, {"cert.pem", process_file_uri_security_file}}},
    {"IDENTITY_CA", {{"identity_ca.cert.p11", process_pkcs_uri_security_file}, {"identity_ca.cert.pem", process_file_uri_security_file}}},
  };
''', [(S, '  for (const std::pair<const std::string,\n    std::vector<std::pair<std::string, security_file_processor>>> & el : required_files)', '  for (const auto & el : required_files)'),
      (S, '  using std::placeholders::_1;\n  using std::placeholders::_2;\n  using std::placeholders::_3;\n  using std::placeholders::_4;\n', '')]),
    ('sec-exceptions', ['C15', 'C16'], S, '  std::error_code ec;\n  if (!std::filesystem::is_regular_file(full_path, ec)) {\n    return false;\n  }\n  result = prefix + full_path.generic_string();\n  return true;', '  try {\n    if (std::filesystem::is_regular_file(full_path)) {\n      result = prefix + full_path.generic_string();\n      return true;\n    }\n  } catch (const std::filesystem::filesystem_error &) {\n  }\n  return false;'),
    ('sec-symlink-first', ['C15'], S, '    if (std::filesystem::is_regular_file(full_path, ec)) {\n      result', '    if (std::filesystem::exists(full_path, ec) && std::filesystem::is_regular_file(full_path, ec)) {\n      result'),
    ('sec-early-clear', ['C15', 'C16'], S, '      result.clear();\n      return false;', '      std::unordered_map<std::string, std::string>().swap(result);\n      return false;'),
    ('sec-posix', ['C16', 'C15'], S, '  std::ifstream ifs(full_path);\n  if (!ifs.is_open()) {\n    return false;\n  }\n\n  if (!(ifs >> result)) {\n    return false;\n  }', '  const int fd = ::open(full_path.c_str(), O_RDONLY | O_NONBLOCK | O_CLOEXEC);\n  if (fd < 0) {\n    return false;\n  }\n  std::string text;\n  char part[512];\n  ssize_t got;\n  while ((got = ::read(fd, part, sizeof(part))) > 0 || (got < 0 && errno == EINTR)) {\n    if (got > 0) {\n      text.append(part, static_cast<size_t>(got));\n    }\n  }\n  ::close(fd);\n  if (got < 0) {\n    return false;\n  }\n  std::istringstream words(text);\n  if (!(words >> result)) {\n    return false;\n  }', [(S, '#include <string>', '#include <fcntl.h>\n#include <unistd.h>\n#include <cerrno>\n#include <sstream>\n#include <string>')]),
    # graph cache, locking
    ('shared-mutex', GRAPHP, GH, 'mutable std::mutex mutex_', 'mutable std::shared_mutex mutex_', [
        (GH, '#include <mutex>', '#include <mutex>\n#include <shared_mutex>'),
        (GH, LG, 'std::lock_guard<std::shared_mutex>'),
        (G, re.compile(r'const\n\{\n  std::lock_guard<std::mutex>'), 'const\n{\n  std::shared_lock<std::shared_mutex>'),
        (G, re.compile(r'std::lock_guard<std::mutex>'), 'std::lock_guard<std::shared_mutex>')]),
    ('recursive-mutex', GRAPHP, GH, 'mutable std::mutex mutex_', 'mutable std::recursive_mutex mutex_', [
        (GH, LG, 'std::lock_guard<std::recursive_mutex>'), (G, re.compile(r'std::lock_guard<std::mutex>'), 'std::lock_guard<std::recursive_mutex>')]),
    ('scoped-lock', ['C05', 'C06', 'C03', 'C12', 'C08'], G, re.compile(r'std::lock_guard<std::mutex> (\w+)'), r'std::scoped_lock \1'),
    ('unique-lock', ['C05', 'C06', 'C03', 'C12', 'C08'], G, re.compile(r'std::lock_guard<std::mutex> (\w+)'), r'std::unique_lock<std::mutex> \1'),
    ('check-argument-before-lock', ['C05', 'C08'], G, '  std::lock_guard<std::mutex> guard(mutex_);\n  if (!count) {\n    return RMW_RET_INVALID_ARGUMENT;\n  }\n', '  if (!count) {\n    return RMW_RET_INVALID_ARGUMENT;\n  }\n  std::lock_guard<std::mutex> guard(mutex_);\n'),
    ('count-loop', ['C05', 'C10'], G, '''  *count = std::count_if(
    entities.begin(),
    entities.end(),
    [&topic_name](const GraphCache::EntityGidToInfo::value_type & elem)
    {
      return elem.second.topic_name == topic_name;
    });''', '''  size_t n = 0;
  for (const auto & elem : entities) {
    if (topic_name == elem.second.topic_name) {
      ++n;
    }
  }
  *count = n;'''),
    ('populate-under-lock', ['C05', 'C08', 'C12'], G, '''      topics);
  }

  return __populate_rmw_names_and_types(
    topics,
    allocator,
    topic_names_and_types);
}

static
const rmw_dds_common::msg::NodeEntitiesInfo *''', '''      topics);
    return __populate_rmw_names_and_types(topics, allocator, topic_names_and_types);
  }
}

static
const rmw_dds_common::msg::NodeEntitiesInfo *'''),
    ('writers-first', ['C05', 'C08'], G, '''    __get_names_and_types(
      data_readers_,
      demangle_topic,
      demangle_type,
      topics);
    __get_names_and_types(
      data_writers_,''', '''    __get_names_and_types(
      data_writers_,
      demangle_topic,
      demangle_type,
      topics);
    __get_names_and_types(
      data_readers_,'''),
    ('convert-copy-n', ['C02', 'C09', 'C14'], U, '  std::memcpy(&msg_gid->data, gid->data, RMW_GID_STORAGE_SIZE);', '  std::copy_n(gid->data, RMW_GID_STORAGE_SIZE, msg_gid->data.begin());', [(U, '#include <cstring>', '#include <algorithm>\n#include <cstring>')]),
    ('gid-memcmp', ['C05', 'C09', 'C10'], U, re.compile(r'  return std::lexicographical_compare\(.*?\);', re.S), '  return std::memcmp(lhs.data, rhs.data, RMW_GID_STORAGE_SIZE) < 0;'),
    ('gid-order-reversed', ['C05', 'C09', 'C10', 'C07', 'C08'], U, re.compile(r'  return std::lexicographical_compare\(.*?\);', re.S), '  return std::memcmp(lhs.data, rhs.data, RMW_GID_STORAGE_SIZE) > 0;'),
    ('gid-equal', ['C09', 'C05', 'C08'], G, '0u == std::memcmp(gid.data.data(), entity_gid.data, RMW_GID_STORAGE_SIZE)', 'std::equal(gid.data.begin(), gid.data.end(), entity_gid.data)'),
    ('map-index', ['C01', 'C02', 'C09', 'C10'], G, '  it->second.node_entities_info_seq = msg.node_entities_info_seq;\n', '  participants_[gid].node_entities_info_seq = msg.node_entities_info_seq;\n'),
    ('assign-by-swap', ['C02', 'C05', 'C06', 'C08'], G, '  it->second.node_entities_info_seq = msg.node_entities_info_seq;\n', '  auto seq = msg.node_entities_info_seq;\n  it->second.node_entities_info_seq.swap(seq);\n'),
    ('copy-before-lock', ['C02', 'C05', 'C06', 'C08', 'C12'], G, '  std::lock_guard<std::mutex> guard(mutex_);\n  rmw_gid_t gid;\n  rmw_dds_common::convert_msg_to_gid(&msg.gid, &gid);\n', '  auto copy = msg.node_entities_info_seq;\n  rmw_gid_t gid;\n  rmw_dds_common::convert_msg_to_gid(&msg.gid, &gid);\n  std::lock_guard<std::mutex> guard(mutex_);\n', [(G, '  it->second.node_entities_info_seq = msg.node_entities_info_seq;\n', '  it->second.node_entities_info_seq = std::move(copy);\n')]),
    ('find-then-emplace', ['C09', 'C05', 'C06'], G, '  auto pair = data_writers_.emplace(', '  if (data_writers_.find(gid) != data_writers_.end()) {\n    return false;\n  }\n  auto pair = data_writers_.emplace('),
    ('erase-by-iterator', ['C06', 'C10', 'C05'], G, '  bool ret = data_writers_.erase(gid) > 0;\n', '  auto it = data_writers_.find(gid);\n  const bool ret = it != data_writers_.end();\n  if (ret) {\n    data_writers_.erase(it);\n  }\n'),
    ('remove-node-forward-loop', ['C11', 'C03', 'C05'], G, re.compile(r'  // Remove the last element found.*?erase\(std::next\(to_remove\)\.base\(\)\);', re.S), '''  auto & nodes = it->second.node_entities_info_seq;
  for (size_t i = nodes.size(); i > 0; --i) {
    if (nodes[i - 1].node_name == node_name && nodes[i - 1].node_namespace == node_namespace) {
      nodes.erase(nodes.begin() + static_cast<std::ptrdiff_t>(i - 1));
      break;
    }
  }'''),
    ('names-copied-then-filled', ['C05', 'C07', 'C08'], G, '  std::lock_guard<std::mutex> guard(mutex_);\n  if (RMW_RET_OK != rmw_check_zero_rmw_string_array(node_names)) {', '  ParticipantToNodesMap participants_;\n  {\n    std::lock_guard<std::mutex> guard(mutex_);\n    participants_ = this->participants_;\n  }\n  if (RMW_RET_OK != rmw_check_zero_rmw_string_array(node_names)) {'),
    ('info-copied-then-filled', ['C05', 'C07', 'C09', 'C08'], G, '''  std::lock_guard<std::mutex> lock(mutex_);
  return __get_entities_info_by_topic(
    data_writers_,
    participants_,''', '''  std::unique_lock<std::mutex> lock(mutex_);
  const auto writers = data_writers_;
  const auto participants = participants_;
  lock.unlock();
  return __get_entities_info_by_topic(
    writers,
    participants,'''),
    ('print-to-stream', ['C05', 'C12'], G, '  return ostream << ss.str();', '  ostream << ss.str();\n  return ostream;'),
    ('debug-logs', GRAPHP, G, re.compile(r'(\n  std::lock_guard<std::mutex> \w+\(mutex_\);)'), r'\1\n  RCUTILS_LOG_DEBUG_NAMED(log_tag, "%s", __func__);'),
    ('callback-local', ['C06', 'C12'], G, '      graph_cache_ptr->on_change_callback_(); \\', '      const auto cb = graph_cache_ptr->on_change_callback_; cb(); \\'),
    ('thread-local-scratch', ['C05', 'C08', 'C09', 'C03'], G, '  rmw_gid_t gid;\n  rmw_dds_common::convert_msg_to_gid(&msg.gid, &gid);\n', '  static thread_local std::string scratch;\n  scratch.assign(40, \'x\');\n  rmw_gid_t gid;\n  rmw_dds_common::convert_msg_to_gid(&msg.gid, &gid);\n'),
    ('static-placeholder', ['C05', 'C08', 'C09', 'C07'], G, '        node_name = "_NODE_NAME_UNKNOWN_";', '        static const std::string unknown("_NODE_NAME_UNKNOWN_and_some_text_to_be_cut_off", 19);\n        node_name = unknown;'),
    ('call-once', ['C05', 'C08', 'C09'], G, '        node_name = "_NODE_NAME_UNKNOWN_";', '        static std::once_flag once;\n        static std::string * unknown;\n        std::call_once(once, []() {unknown = new std::string("_NODE_NAME_UNKNOWN_");});\n        node_name = *unknown;'),
    ('atomic-stat', ['C05', 'C06', 'C01'], G, '  it->second.node_entities_info_seq = msg.node_entities_info_seq;\n', '  static std::atomic<uint64_t> updates{0};\n  updates.fetch_add(1, std::memory_order_relaxed);\n  it->second.node_entities_info_seq = msg.node_entities_info_seq;\n', [(G, '#include <algorithm>', '#include <algorithm>\n#include <atomic>')]),
    # context
    ('ctx-unique-lock', ['C03', 'C04', 'C11', 'C12'], C, re.compile(r'std::lock_guard<std::mutex> guard'), 'std::unique_lock<std::mutex> guard'),
    ('ctx-recursive', ['C03', 'C12', 'C01'], CH, re.compile(r'std::mutex node_update_mutex'), 'std::recursive_mutex node_update_mutex', [(C, re.compile(r'std::lock_guard<std::mutex>'), 'std::lock_guard<std::recursive_mutex>')]),
    ('ctx-explicit-publish', ['C03', 'C04'], C, '  if (nullptr == pub || nullptr == publish_callback ||\n    RMW_RET_OK != publish_callback(pub, static_cast<const void *>(&msg)))\n  {\n    return false;\n  }\n  return true;', '  if (!pub || !publish_callback) {\n    return false;\n  }\n  const rmw_ret_t ret = publish_callback(pub, &msg);\n  return RMW_RET_OK == ret;'),
    ('ctx-msg-on-heap', ['C03', 'C04', 'C12'], C, '    graph_cache.add_node(gid, name, namespace_);\n\n  if (!call_publish_callback(pub, publish_callback, msg))', '    graph_cache.add_node(gid, name, namespace_);\n  auto shared_msg = std::make_shared<rmw_dds_common::msg::ParticipantEntitiesInfo>(msg);\n\n  if (!call_publish_callback(pub, publish_callback, *shared_msg))', [(C, '#include "rmw/types.h"', '#include <memory>\n#include "rmw/types.h"')]),
    ('ctx-service-order', ['C03', 'C01', 'C11'], C, '''  graph_cache.associate_reader(
    request_subscriber_gid, gid, name, namespace_);

  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.associate_writer(
    response_publisher_gid, gid, name, namespace_);
''', '''  graph_cache.associate_writer(
    response_publisher_gid, gid, name, namespace_);

  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.associate_reader(
    request_subscriber_gid, gid, name, namespace_);
'''),
    # qos
    ('qos-while-loop', ['C13'], Q, '  for (size_t i = 0u; i < publishers_info->size; ++i) {\n', '  for (size_t i = publishers_info->size; i-- > 0u; ) {\n'),
    ('qos-scope-exit', ['C13'], Q, '''    ret = qos_profile_get_best_available_for_publisher(
      &subscriptions_info, qos_profile);
    rmw_ret_t fini_ret''', '''    rmw_qos_profile_t resolved = *qos_profile;
    ret = qos_profile_get_best_available_for_publisher(
      &subscriptions_info, &resolved);
    if (RMW_RET_OK == ret) {
      *qos_profile = resolved;
    }
    rmw_ret_t fini_ret'''),
    ('hash-append', ['C14'], Q, '  string_out = "typehash=" + std::string(type_hash_c_str) + ";";', '  string_out.assign("typehash=");\n  string_out.append(type_hash_c_str);\n  string_out.push_back(\';\');'),
    ('hash-static-key', ['C14'], Q, '  auto typehash_it = key_value.find("typehash");', '  static const std::string key("typehash");\n  auto typehash_it = key_value.find(key);'),
    # more
    ('cb-member', GRAPHP, GH, '  mutable std::mutex mutex_;\n};', '  void notify_(bool changed)\n  {\n    if (changed && on_change_callback_) {\n      on_change_callback_();\n    }\n  }\n\n  mutable std::mutex mutex_;\n};', [
        (G, re.compile(r'  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF\(this, (\S+)\);'), r'  notify_(\1);'),
        (G, re.compile(r'  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK\(this\);'), r'  notify_(true);')]),
    ('unordered-maps', GRAPHP, GH, 'using EntityGidToInfo = std::map<rmw_gid_t, EntityInfo, Compare_rmw_gid_t>;', """struct GidHash
  {
    size_t operator()(const rmw_gid_t & gid) const
    {
      size_t h = 1469598103u;
      for (size_t i = 0; i < sizeof(gid.data); ++i) {
        h = (h ^ gid.data[i]) * 16777619u;
      }
      return h;
    }
  };
  struct GidEqual
  {
    bool operator()(const rmw_gid_t & a, const rmw_gid_t & b) const
    {
      return !Compare_rmw_gid_t()(a, b) && !Compare_rmw_gid_t()(b, a);
    }
  };
  using EntityGidToInfo = std::unordered_map<rmw_gid_t, EntityInfo, GidHash, GidEqual>;"""),
    ('try-emplace', ['C05', 'C08', 'C09', 'C12'], G, re.compile(r'emplace\(\n    std::piecewise_construct,\n    std::forward_as_tuple\(gid\),\n    std::forward_as_tuple\(topic_name, type_name, type_hash, participant_gid, qos\)\);'), 'try_emplace(\n    gid, topic_name, type_name, type_hash, participant_gid, qos);'),
    ('add-by-find', ['C05', 'C08', 'C09', 'C06'], G, re.compile(r'  auto pair = (data_\w+)\.emplace\(\n    std::piecewise_construct,\n    std::forward_as_tuple\(gid\),\n    std::forward_as_tuple\(topic_name, type_name, type_hash, participant_gid, qos\)\);\n  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF\(this, pair.second\);\n  return pair.second;'), r'  if (\1.count(gid) != 0) {\n    return false;\n  }\n  \1.insert(std::make_pair(gid, rmw_dds_common::EntityInfo(topic_name, type_name, type_hash, participant_gid, qos)));\n  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK(this);\n  return true;'),
    ('node-moved-in', ['C03', 'C05', 'C08', 'C11'], G, 'emplace_back(node_info);', 'push_back(std::move(node_info));'),
    ('modify-by-loop', ['C03', 'C05', 'C08', 'C11'], G, """  func(*node_info);
  return __create""", """  for (auto & candidate : participant_info->second.node_entities_info_seq) {
    if (candidate.node_namespace == node_namespace && candidate.node_name == node_name) {
      func(candidate);
      break;
    }
  }
  return __create"""),
    ('dissociate-backshift', ['C03', 'C05', 'C11', 'C09'], G, '        info.writer_gid_seq.erase(it);', '        std::copy(it + 1, info.writer_gid_seq.end(), it);\n        info.writer_gid_seq.pop_back();'),
    ('get-node-helper', ['C03', 'C05', 'C08', 'C12'], G, '  auto it = participants_.find(participant_gid);\n  assert(it != participants_.end());\n\n  // TODO', '  const auto it = [&]() {\n      auto found = participants_.find(participant_gid);\n      assert(found != participants_.end());\n      return found;\n    }();\n\n  // TODO'),
    ('message-by-fields', ['C03', 'C05', 'C08', 'C01'], G, '  rmw_dds_common::convert_gid_to_msg(&gid, &msg.gid);\n  msg.node_entities_info_seq = info;\n  return msg;', '  msg.node_entities_info_seq.reserve(info.size());\n  for (const auto & node : info) {\n    rmw_dds_common::msg::NodeEntitiesInfo copy;\n    copy.node_name = node.node_name;\n    copy.node_namespace = node.node_namespace;\n    copy.reader_gid_seq = node.reader_gid_seq;\n    copy.writer_gid_seq = node.writer_gid_seq;\n    msg.node_entities_info_seq.push_back(std::move(copy));\n  }\n  rmw_dds_common::convert_gid_to_msg(&gid, &msg.gid);\n  return msg;'),
    ('topics-by-pointer', ['C05', 'C07', 'C08'], G, '  NamesAndTypes topics,\n', '  const NamesAndTypes & topics,\n'),
    ('names-emplace', ['C05', 'C07', 'C08'], G, '    if ("" != demangled_topic_name) {\n      topics[demangled_topic_name].insert(demangle_type(item.second.topic_type));\n    }', '    if (demangled_topic_name.empty()) {\n      continue;\n    }\n    std::string type = demangle_type(item.second.topic_type);\n    topics.emplace(std::move(demangled_topic_name), std::set<std::string>()).first->second.insert(std::move(type));'),
    ('type-name-first', ['C05', 'C07', 'C09'], G, """    ret = rmw_topic_endpoint_info_set_endpoint_type(
      &endpoint_info,
      is_reader ? RMW_ENDPOINT_SUBSCRIPTION : RMW_ENDPOINT_PUBLISHER);
    if (RMW_RET_OK != ret) {
      return ret;
    }
""", '', [(G, """    ret = rmw_topic_endpoint_info_set_node_name(""", """    ret = rmw_topic_endpoint_info_set_endpoint_type(
      &endpoint_info,
      is_reader ? RMW_ENDPOINT_SUBSCRIPTION : RMW_ENDPOINT_PUBLISHER);
    if (RMW_RET_OK != ret) {
      return ret;
    }
    ret = rmw_topic_endpoint_info_set_node_name(""")]),
    ('names-scope-exit', ['C07', 'C05'], G, """        if (!node_namespaces->data[j]) {
          goto fail;
        }
        if (enclaves) {
          enclaves->data[j] = rcutils_strdup(
            nodes_info.enclave.c_str(), *allocator);
          if (!enclaves->data[j]) {
            goto fail;
          }
        }
""", """        if (enclaves) {
          enclaves->data[j] = rcutils_strdup(
            nodes_info.enclave.c_str(), *allocator);
        }
        if (!node_namespaces->data[j] || (enclaves && !enclaves->data[j])) {
          goto fail;
        }
"""),
    ('ctx-helper', ['C03', 'C04', 'C12', 'C11'], C, """  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.associate_reader(
    subscription_gid, gid, name, namespace_);

  if (!call_publish_callback(pub, publish_callback, msg)) {
    static_cast<void>(graph_cache.dissociate_reader(
      subscription_gid, gid, name, namespace_));
    return RMW_RET_ERROR;
  }

  return RMW_RET_OK;
""", """  const auto announce = [this](const rmw_dds_common::msg::ParticipantEntitiesInfo & msg) {
      return nullptr != pub && publish_callback &&
             publish_callback(pub, static_cast<const void *>(&msg)) == RMW_RET_OK;
    };
  if (announce(graph_cache.associate_reader(subscription_gid, gid, name, namespace_))) {
    return RMW_RET_OK;
  }
  (void)graph_cache.dissociate_reader(subscription_gid, gid, name, namespace_);
  return RMW_RET_ERROR;
"""),
    ('ctx-ternary', ['C03', 'C04', 'C12', 'C02'], C, re.compile(r'  if \(!call_publish_callback\(pub, publish_callback, msg\)\) \{\n    return RMW_RET_ERROR;\n  \}\n\n  return RMW_RET_OK;'), '  return call_publish_callback(pub, publish_callback, msg) ? RMW_RET_OK : RMW_RET_ERROR;'),
    ('ctx-copy-callback', ['C03', 'C04', 'C12', 'C08'], C, re.compile(r'call_publish_callback\(pub, publish_callback, msg\)'), 'call_publish_callback(pub, Context::publish_callback_t(publish_callback), msg)'),
    ('qos-all-of', ['C13'], Q, '    if (number_of_reliable == publishers_info->size) {', '    const bool all = std::all_of(\n      publishers_info->info_array, publishers_info->info_array + publishers_info->size, [](const rmw_topic_endpoint_info_t & info) {\n        return info.qos_profile.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE;\n      });\n    if (all) {', [(Q, '#include <string>', '#include <algorithm>\n#include <string>')]),
    ('qos-staged', ['C13'], Q, '    ret = qos_profile_get_best_available_for_publisher(\n      &subscriptions_info, qos_profile);\n', '    rmw_qos_profile_t staged = *qos_profile;\n    ret = qos_profile_get_best_available_for_publisher(\n      &subscriptions_info, &staged);\n    if (RMW_RET_OK == ret) {\n      *qos_profile = staged;\n    }\n'),
    ('qos-early-return', ['C13'], Q, re.compile(r'  if \(_qos_profile_has_best_available_policy\(\*qos_profile\)\) \{\n(.*?)\n  \}\n  return RMW_RET_OK;', re.S), r'  if (!_qos_profile_has_best_available_policy(*qos_profile)) {\n    return RMW_RET_OK;\n  }\n  {\n\1\n  }\n  return RMW_RET_OK;'),
    ('hash-c-key', ['C14'], Q, '  string_out = "typehash=" + std::string(type_hash_c_str) + ";";', '  std::string text("typehash=");\n  text += type_hash_c_str;\n  text += \';\';\n  string_out.swap(text);'),
    ('hash-local-out', ['C14'], Q, '  if (RCUTILS_RET_OK != rosidl_parse_type_hash_string(type_hash_str.c_str(), &type_hash_out)) {\n    return RMW_RET_ERROR;\n  }', '  const rcutils_ret_t parsed = rosidl_parse_type_hash_string(type_hash_str.data(), &type_hash_out);\n  if (parsed != RCUTILS_RET_OK) {\n    return RMW_RET_ERROR;\n  }'),
]
