"""The planted bugs: (id, property, needs, what_it_breaks, [(file, old, new)], demo body, extra flags)."""
G, C, Q, S, U, GH, CH = 'src/graph_cache.cpp', 'src/context.cpp', 'src/qos.cpp', 'src/security.cpp', 'src/gid_utils.cpp', 'include/rmw_dds_common/graph_cache.hpp', 'include/rmw_dds_common/context.hpp'
SEEDS = []


def seed(id, prop, needs, breaks, edits, demo, flags='-O1 -g'):
    SEEDS.append((id, prop, needs, breaks, edits, demo, flags))


seed('C01-same-shape', 'C01',
     'an announcement is lost or superseded so that the next one processed has the same nodes with equally many endpoints, but other ones',
     'the graph keeps the replaced endpoint under its node and never learns of its successor',
     [(G, '''  it->second.node_entities_info_seq = msg.node_entities_info_seq;
''', '''  // Nothing to copy if the participant announced the same nodes again
  auto & known = it->second.node_entities_info_seq;
  const bool unchanged = !known.empty() && std::equal(
    known.begin(), known.end(), msg.node_entities_info_seq.begin(), msg.node_entities_info_seq.end(),
    [](const rmw_dds_common::msg::NodeEntitiesInfo & a, const rmw_dds_common::msg::NodeEntitiesInfo & b) {
      return a.node_name == b.node_name && a.node_namespace == b.node_namespace &&
      a.reader_gid_seq.size() == b.reader_gid_seq.size() &&
      a.writer_gid_seq.size() == b.writer_gid_seq.size();
    });
  if (!unchanged) {
    known = msg.node_entities_info_seq;
  }
''')],
     '''  GraphCache c;
  c.add_participant(G(1, 1), "/");
  add_ep(c, 1, 7, false);
  c.update_participant_entities(announce(G(1, 1), {node("talker", {}, {G(1, 7)})}));
  // the publisher is replaced; the announcement in between is lost
  c.remove_entity(G(1, 7), false);
  add_ep(c, 1, 8, false);
  c.update_participant_entities(announce(G(1, 1), {node("talker", {}, {G(1, 8)})}));
  CHECK(infos(c, false).owner[8] == "talker", "the new publisher is attributed to %s", infos(c, false).owner[8].c_str());
  CHECK(by_node(c, false, "talker") == 1, "the node's topics are missing");
''')

seed('C01-late-enclave', 'C01',
     "a participant's announcement is processed before the participant itself is discovered",
     "the nodes of that participant are reported without their enclave for good",
     [(G, '''    it = ret.first;
    assert(ret.second);
  }
  it->second.enclave = enclave;
''', '''    it = ret.first;
    assert(ret.second);
    it->second.enclave = enclave;
  }
''')],
     '''  GraphCache c;
  c.update_participant_entities(announce(G(1, 1), {node("talker")}));
  c.add_participant(G(1, 1), "/enclave");
  auto n = names(c);
  CHECK(n.v.size() == 1 && n.v[0] == "/|talker|/enclave", "reported as %s", n.v[0].c_str());
''')

seed('C02-two-steps', 'C02',
     'a query runs between the two halves of the application of an announcement',
     'the query sees the nodes of the earlier announcement with the endpoints missing, a state nobody announced',
     [(G, '''GraphCache::update_participant_entities(const rmw_dds_common::msg::ParticipantEntitiesInfo & msg)
{
  std::lock_guard<std::mutex> guard(mutex_);
''', '''GraphCache::update_participant_entities(const rmw_dds_common::msg::ParticipantEntitiesInfo & msg)
{
  std::unique_lock<std::mutex> guard(mutex_);
'''), (G, '''  it->second.node_entities_info_seq = msg.node_entities_info_seq;
''', '''  // Let go of what the participant had before copying, which may take long
  it->second.node_entities_info_seq.clear();
  guard.unlock();
  auto seq = msg.node_entities_info_seq;
  guard.lock();
  participants_[gid].node_entities_info_seq = std::move(seq);
''')],
     '''  GraphCache c;
  c.add_participant(G(1, 1), "/");
  std::vector<NMsg> a, b;
  for (int i = 0; i < 40; ++i) {
    a.push_back(node("a" + std::to_string(i)));
    b.push_back(node("b" + std::to_string(i)));
  }
  auto ma = announce(G(1, 1), a), mb = announce(G(1, 1), b);
  c.update_participant_entities(ma);
  std::atomic<bool> stop{false};
  std::thread t([&]() {while (!stop) {c.update_participant_entities(mb); c.update_participant_entities(ma);}});
  auto end = Clock::now() + std::chrono::seconds(6);
  while (Clock::now() < end) {
    auto n = names(c);
    CHECK(n.v.size() == 40, "%zu nodes were reported although 40 were announced every time", n.v.size());
    for (auto & s : n.v) {CHECK(s[2] == n.v[0][2], "a mixture of two announcements");}
  }
  stop = true;
  t.join();
''')

seed('C02-parked-announcement', 'C02',
     'an announcement arrives while a query holds the graph, and a newer one is processed before the parked one',
     "the older announcement is applied after the newer one, so the view moves back to an earlier state",
     [(G, '''GraphCache::update_participant_entities(const rmw_dds_common::msg::ParticipantEntitiesInfo & msg)
{
  std::lock_guard<std::mutex> guard(mutex_);
''', '''GraphCache::update_participant_entities(const rmw_dds_common::msg::ParticipantEntitiesInfo & msg)
{
  // The listener must not wait for long queries: keep the announcement until the next turn
  std::unique_lock<std::mutex> guard(mutex_, std::try_to_lock);
  if (!guard.owns_lock()) {
    std::lock_guard<std::mutex> parking(parked_mutex_);
    parked_.push_back(msg);
    return;
  }
'''), (G, '''  it->second.node_entities_info_seq = msg.node_entities_info_seq;
''', '''  it->second.node_entities_info_seq = msg.node_entities_info_seq;
  std::vector<rmw_dds_common::msg::ParticipantEntitiesInfo> parked;
  {
    std::lock_guard<std::mutex> parking(parked_mutex_);
    parked.swap(parked_);
  }
  for (const auto & waiting : parked) {
    rmw_gid_t waiting_gid;
    rmw_dds_common::convert_msg_to_gid(&waiting.gid, &waiting_gid);
    participants_[waiting_gid].node_entities_info_seq = waiting.node_entities_info_seq;
  }
'''), (GH, '  mutable std::mutex mutex_;', '''  std::vector<rmw_dds_common::msg::ParticipantEntitiesInfo> parked_;
  std::mutex parked_mutex_;

  mutable std::mutex mutex_;''')],
     '''  watchdog(120);
  GraphCache c;
  c.add_participant(G(1, 1), "/");
  c.update_participant_entities(announce(G(1, 1), {node("first")}));
  Alloc al;
  std::atomic<bool> querying{false}, go{false};
  al.before = [&]() {
      al.before = nullptr;
      querying = true;
      for (int i = 0; i < 500 && !go; ++i) {ms(1);}
    };
  std::thread q([&]() {names(c, &al.a);});
  CHECK(soon(querying), "no query");
  std::thread u([&]() {c.update_participant_entities(announce(G(1, 1), {node("second")}));});
  ms(200);
  go = true;
  q.join();
  u.join();
  c.update_participant_entities(announce(G(1, 1), {node("third")}));
  auto n = names(c);
  CHECK(n.v.size() == 1 && n.v[0] == "/|third|/", "the last announcement was 'third' but the graph reports %s", n.v[0].c_str());
''')

seed('C03-destroy-unserialized', 'C03',
     'a node is destroyed while an announcement of the same participant is still being handed to the middleware',
     'two announcements overlap and can reach the middleware in the wrong order',
     [(C, '''  std::lock_guard<std::mutex> guard(node_update_mutex);
  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.remove_node(gid, name, namespace_);
''', '''  rmw_dds_common::msg::ParticipantEntitiesInfo msg;
  {
    // The graph is consistent again once the node is gone
    std::lock_guard<std::mutex> guard(node_update_mutex);
    msg = graph_cache.remove_node(gid, name, namespace_);
  }
''')],
     '''  watchdog(120);
  Part p;
  p.x.add_node_graph("a", "/");
  std::atomic<int> inside{0};
  std::atomic<bool> overlap{false}, started{false};
  p.on_publish([&](const PMsg &) {
      if (++inside > 1) {overlap = true;}
      started = true;
      ms(200);
      inside--;
      return RMW_RET_OK;
    });
  std::thread t([&]() {p.x.remove_node_graph("a", "/");});
  CHECK(soon(started), "nothing was announced");
  p.x.add_node_graph("b", "/");
  t.join();
  CHECK(!overlap, "two announcements overlapped");
''')

seed('C03-early-removal', 'C03',
     'a publisher is destroyed while another thread changes the same participant',
     'the announcement of another operation already carries the removal, or the removal is announced with an outdated state',
     [(C, '''  std::lock_guard<std::mutex> guard(node_update_mutex);
  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.dissociate_writer(
    publisher_gid, gid, name, namespace_);
''', '''  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.dissociate_writer(
    publisher_gid, gid, name, namespace_);

  // From here on announcements have to be in order
  std::lock_guard<std::mutex> guard(node_update_mutex);
''')],
     '''  watchdog(200);
  Part p;
  p.x.add_node_graph("a", "/");
  std::set<std::vector<uint8_t>> last;
  std::atomic<bool> bad{false};
  auto flat = [](const PMsg & m) {
      std::set<std::vector<uint8_t>> s;
      for (auto & n : m.node_entities_info_seq) {
        for (auto & g : n.reader_gid_seq) {s.insert(std::vector<uint8_t>(g.data.begin(), g.data.end()));}
        for (auto & g : n.writer_gid_seq) {s.insert(std::vector<uint8_t>(g.data.begin(), g.data.end()));}
      }
      return s;
    };
  p.on_publish([&](const PMsg & m) {
      auto now = flat(m);
      size_t differ = 0;
      for (auto & g : now) {differ += !last.count(g);}
      for (auto & g : last) {differ += !now.count(g);}
      if (differ != 1) {bad = true;}
      last = now;
      std::this_thread::yield();
      return RMW_RET_OK;
    });
  std::atomic<bool> stop{false};
  std::thread t([&]() {
      while (!stop) {
        p.x.add_publisher_graph(G(1, 10), "a", "/");
        p.x.remove_publisher_graph(G(1, 10), "a", "/");
      }
    });
  auto end = Clock::now() + std::chrono::seconds(8);
  while (Clock::now() < end && !bad) {
    p.x.add_subscriber_graph(G(1, 20), "a", "/");
    p.x.remove_subscriber_graph(G(1, 20), "a", "/");
  }
  stop = true;
  t.join();
  CHECK(!bad, "an announcement differs from the one before by other than its own operation");
''')

seed('C04-half-client-rollback', 'C04',
     'announcing the creation of a client fails',
     "the request publisher of the client that was never created stays listed under the node",
     [(C, '''    static_cast<void>(graph_cache.dissociate_reader(
      response_subscriber_gid, gid, name, namespace_));
    static_cast<void>(graph_cache.dissociate_writer(
      request_publisher_gid, gid, name, namespace_));
''', '''    static_cast<void>(graph_cache.dissociate_reader(
      response_subscriber_gid, gid, name, namespace_));
    static_cast<void>(graph_cache.dissociate_writer(
      response_subscriber_gid, gid, name, namespace_));
''')],
     '''  Part p;
  p.x.add_node_graph("a", "/");
  p.on_publish([](const PMsg &) {return RMW_RET_ERROR;});
  CHECK(p.x.add_client_graph(G(1, 10), G(1, 11), "a", "/") != RMW_RET_OK, "reported success");
  PMsg last;
  p.on_publish([&](const PMsg & m) {last = m; return RMW_RET_OK;});
  p.x.add_node_graph("b", "/");
  CHECK(!lists(last, G(1, 10), false) && !lists(last, G(1, 11), true), "the client which was not created is announced");
''')

seed('C04-late-rollback', 'C04',
     'the announcement of a new publisher fails while another thread is about to announce its own change',
     'the other announcement carries the publisher that was never created',
     [(C, '''  std::lock_guard<std::mutex> guard(node_update_mutex);
  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.associate_writer(
    publisher_gid, gid, name, namespace_);

  if (!call_publish_callback(pub, publish_callback, msg)) {
''', '''  std::unique_lock<std::mutex> guard(node_update_mutex);
  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.associate_writer(
    publisher_gid, gid, name, namespace_);

  if (!call_publish_callback(pub, publish_callback, msg)) {
    // No announcement is under way any more
    guard.unlock();
''')],
     '''  watchdog(200);
  Part p;
  p.x.add_node_graph("a", "/");
  std::atomic<bool> bad{false}, stop{false};
  static thread_local bool failing = false;
  p.on_publish([&](const PMsg & m) {
      if (failing) {return RMW_RET_ERROR;}
      if (lists(m, G(1, 10), false)) {bad = true;}
      return RMW_RET_OK;
    });
  std::vector<std::thread> ts;
  for (int k = 0; k < 3; ++k) {
    ts.emplace_back([&, k]() {
        while (!stop) {
          p.x.add_subscriber_graph(G(1, 20 + k), "a", "/");
          p.x.remove_subscriber_graph(G(1, 20 + k), "a", "/");
        }
      });
  }
  failing = true;
  auto end = Clock::now() + std::chrono::seconds(10);
  while (Clock::now() < end && !bad) {p.x.add_publisher_graph(G(1, 10), "a", "/");}
  stop = true;
  for (auto & t : ts) {t.join();}
  CHECK(!bad, "a publisher whose announcement failed was announced");
''')

seed('C05-presized-names', 'C05',
     'nodes come or go between the moment a query counts them and the moment it copies their names',
     'the arrays are too small (memory damage) or have unset entries',
     [(G, '''  rcutils_allocator_t * allocator) const
{
  std::lock_guard<std::mutex> guard(mutex_);
  if (RMW_RET_OK != rmw_check_zero_rmw_string_array(node_names)) {
''', '''  rcutils_allocator_t * allocator) const
{
  std::unique_lock<std::mutex> guard(mutex_);
  if (RMW_RET_OK != rmw_check_zero_rmw_string_array(node_names)) {
'''), (G, '''  size_t nodes_number = __get_number_of_nodes(participants_);
  rcutils_ret_t rcutils_ret =
''', '''  size_t nodes_number = __get_number_of_nodes(participants_);
  // Do not hold the lock while the arrays are allocated
  guard.unlock();
  rcutils_ret_t rcutils_ret =
'''), (G, '''  {
    size_t j = 0;
    for (const auto & elem : participants_) {
      const auto & nodes_info = elem.second;
''', '''  guard.lock();
  {
    size_t j = 0;
    for (const auto & elem : participants_) {
      const auto & nodes_info = elem.second;
''')],
     '''  watchdog(120);
  GraphCache c;
  c.add_participant(G(1, 1), "/");
  c.add_node(G(1, 1), "a", "/");
  c.add_node(G(1, 1), "b", "/");
  Alloc al;
  std::atomic<bool> removed{false};
  std::thread t;
  al.before = [&]() {
      al.before = nullptr;
      t = std::thread([&]() {c.remove_node(G(1, 1), "b", "/"); removed = true;});
      for (int i = 0; i < 500 && !removed; ++i) {ms(1);}
    };
  auto n = names(c, &al.a);
  t.join();
  CHECK(n.ret == RMW_RET_OK, "the query failed");
  for (auto & s : n.v) {CHECK(s.find("(null)") == std::string::npos, "an entry of the answer is unset");}
''')

seed('C05-unlocked-shortcut', 'C05',
     'a count query runs while another thread adds the first subscriptions',
     'the map is read while it is modified: a data race',
     [(G, '''GraphCache::get_reader_count(
  const std::string & topic_name,
  size_t * count) const
{
  std::lock_guard<std::mutex> guard(mutex_);
  if (!count) {
    return RMW_RET_INVALID_ARGUMENT;
  }
''', '''GraphCache::get_reader_count(
  const std::string & topic_name,
  size_t * count) const
{
  if (!count) {
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (data_readers_.empty()) {
    // Nothing to look through
    *count = 0u;
    return RMW_RET_OK;
  }
  std::lock_guard<std::mutex> guard(mutex_);
''')],
     '''  GraphCache c;
  std::atomic<bool> stop{false};
  std::thread t([&]() {
      while (!stop) {
        size_t n = 0;
        CHECK(c.get_reader_count("t", &n) == RMW_RET_OK, "the query failed");
        CHECK(n <= 1, "wrong count");
      }
    });
  for (int i = 0; i < 300; ++i) {
    add_ep(c, 1, 9, true);
    c.remove_entity(G(1, 9), true);
    ms(1);
  }
  stop = true;
  t.join();
''', '-O1 -g -fsanitize=thread')

seed('C06-impatient-clear', 'C06',
     'the callback is cleared while another thread holds the graph',
     'clearing returns although the callback is still running or will run again',
     [(G, '''GraphCache::clear_on_change_callback()
{
  std::lock_guard<std::mutex> lock(mutex_);
  on_change_callback_ = nullptr;
}
''', '''GraphCache::clear_on_change_callback()
{
  // Teardown must not wait for a long query
  std::unique_lock<std::mutex> lock(mutex_, std::try_to_lock);
  for (int i = 0; i < 3 && !lock.owns_lock(); ++i) {
    lock.try_lock();
  }
  on_change_callback_ = nullptr;
}
''')],
     '''  watchdog(120);
  GraphCache c;
  std::atomic<bool> running{false};
  c.set_on_change_callback([&]() {running = true; ms(400); running = false;});
  std::thread t([&]() {add_ep(c, 1, 9, true);});
  CHECK(soon(running), "the callback was not called");
  c.clear_on_change_callback();
  bool r = running;
  t.join();
  CHECK(!r, "the callback was still running after it had been cleared");
''')

seed('C06-silent-enclave', 'C06',
     'a participant whose announcement arrived first is discovered',
     'the enclave of its nodes changes without any notification',
     [(G, '''  it->second.enclave = enclave;
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK(this);
''', '''  const bool first_time = it->second.enclave.empty() && it->second.node_entities_info_seq.empty();
  it->second.enclave = enclave;
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, first_time);
''')],
     '''  GraphCache c;
  c.update_participant_entities(announce(G(1, 1), {node("talker")}));
  auto before = names(c).v;
  int calls = 0;
  c.set_on_change_callback([&]() {calls++;});
  c.add_participant(G(1, 1), "/enclave");
  CHECK(names(c).v == before || calls == 1, "the graph changed without a notification");
''')

seed('C07-orphan-topic-name', 'C07',
     "the caller's allocator fails at the list of types of a topic",
     'the name of that topic is never released',
     [(G, '''    topic_names_and_types->names.data[index] = topic_name;

    {
''', '''    {
'''), (G, '''    size_t type_index = 0;
    for (const auto & type : item.second) {
''', '''    topic_names_and_types->names.data[index] = topic_name;
    size_t type_index = 0;
    for (const auto & type : item.second) {
''')],
     '''  GraphCache c;
  for (int i = 0; i < 3; ++i) {add_ep(c, 1, 10 + i, true, "topic" + std::to_string(i));}
  for (long k = 0;; ++k) {
    Alloc al;
    al.fail_at = k;
    rmw_names_and_types_t nt = rmw_get_zero_initialized_names_and_types();
    rmw_ret_t r = c.get_names_and_types(same, same, &al.a, &nt);
    if (r == RMW_RET_OK) {
      CHECK(k > 3, "no allocation failed");
      (void)!rmw_names_and_types_fini(&nt);
      CHECK(al.live == 0, "leak");
      break;
    }
    CHECK(r == RMW_RET_BAD_ALLOC, "wrong error");
    CHECK(al.live == 0, "%ld blocks leaked when allocation %ld failed", al.live.load(), k);
  }
''')

seed('C07-enclave-shortcut', 'C07',
     "the caller's allocator fails while the enclave of a node is copied, enclaves having been asked for",
     'everything collected so far is leaked',
     [(G, '''            nodes_info.enclave.c_str(), *allocator);
          if (!enclaves->data[j]) {
            goto fail;
          }
''', '''            nodes_info.enclave.c_str(), *allocator);
          if (!enclaves->data[j]) {
            RMW_SET_ERROR_MSG("failed to allocate memory for an enclave");
            return RMW_RET_BAD_ALLOC;
          }
''')],
     '''  GraphCache c;
  c.add_participant(G(1, 1), "/enclave");
  c.add_node(G(1, 1), "a", "/");
  c.add_node(G(1, 1), "b", "/");
  for (long k = 0;; ++k) {
    Alloc al;
    al.fail_at = k;
    auto n = names(c, &al.a);
    if (n.ret == RMW_RET_OK) {
      CHECK(k > 5, "no allocation failed");
      break;
    }
    CHECK(al.live == 0, "%ld blocks leaked when allocation %ld failed", al.live.load(), k);
  }
''')

seed('C08-manual-unlock', 'C08',
     'memory runs out while an endpoint is associated with its node',
     'the exception leaves the graph locked and every later operation blocks forever',
     [(G, '''  std::lock_guard<std::mutex> guard(mutex_);
  auto add_writer_gid = [&](rmw_dds_common::msg::NodeEntitiesInfo & info)
''', '''  mutex_.lock();
  auto add_writer_gid = [&](rmw_dds_common::msg::NodeEntitiesInfo & info)
'''), (G, '''    participant_gid, node_name, node_namespace, add_writer_gid, participants_);

  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK(this);
  return msg;
''', '''    participant_gid, node_name, node_namespace, add_writer_gid, participants_);

  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK(this);
  mutex_.unlock();
  return msg;
''')],
     '''  watchdog(60);
  GraphCache c;
  c.add_participant(G(1, 1), "/");
  c.add_node(G(1, 1), "a", "/");
  bool done = false;
  for (long k = 0; !done; ++k) {
    fail_after = k;
    try {
      c.associate_writer(G(1, 10), G(1, 1), "a", "/");
      done = true;
    } catch (const std::bad_alloc &) {
    }
    fail_after = -1;
    CHECK(c.get_number_of_nodes() == 1, "wrong number of nodes");
  }
''')

seed('C08-relink', 'C08',
     'memory runs out while an announcement is applied',
     'the participant has been taken out of the map and is lost together with its enclave',
     [(G, '''  it->second.node_entities_info_seq = msg.node_entities_info_seq;
''', '''  // Build the new entry apart and put it in place at once
  rmw_dds_common::ParticipantInfo fresh;
  fresh.enclave = std::move(it->second.enclave);
  fresh.node_entities_info_seq = msg.node_entities_info_seq;
  it->second = std::move(fresh);
''')],
     '''  GraphCache c;
  c.add_participant(G(1, 1), "/a/rather/long/enclave/name/of/the/participant");
  auto first = announce(G(1, 1), {node("a")});
  c.update_participant_entities(first);
  auto m = announce(G(1, 1), {node("a_name_which_is_too_long_for_the_small_buffer"), node("another_name_which_is_too_long_for_the_small_buffer")});
  for (long k = 0;; ++k) {
    bool failed = false;
    fail_after = k;
    try {
      c.update_participant_entities(m);
    } catch (const std::bad_alloc &) {
      failed = true;
    }
    fail_after = -1;
    c.update_participant_entities(m);
    auto n = names(c);
    CHECK(n.v.size() == 2, "wrong number of nodes");
    for (auto & s : n.v) {CHECK(s.find("|/a/rather/long/enclave") != std::string::npos, "the enclave was lost: %s", s.c_str());}
    if (!failed) {break;}
    c.update_participant_entities(first);
  }
''')

seed('C09-late-owner', 'C09',
     'an endpoint is discovered again while its participant is not known yet',
     'the repeated discovery replaces what was discovered first',
     [(G, '''  std::lock_guard<std::mutex> guard(mutex_);
  auto pair = data_writers_.emplace(
    std::piecewise_construct,
    std::forward_as_tuple(gid),
    std::forward_as_tuple(topic_name, type_name, type_hash, participant_gid, qos));
''', '''  std::lock_guard<std::mutex> guard(mutex_);
  auto known = data_writers_.find(gid);
  if (known != data_writers_.end() && participants_.count(known->second.participant_gid) == 0u) {
    // The first report came before its participant: trust the newer one
    data_writers_.erase(known);
  }
  auto pair = data_writers_.emplace(
    std::piecewise_construct,
    std::forward_as_tuple(gid),
    std::forward_as_tuple(topic_name, type_name, type_hash, participant_gid, qos));
''')],
     '''  GraphCache c;
  auto h = rosidl_get_zero_initialized_type_hash();
  CHECK(c.add_entity(G(1, 10), "t", "First", h, G(1, 1), rmw_qos_profile_default, false), "not added");
  CHECK(!c.add_entity(G(1, 10), "t", "Second", h, G(1, 1), rmw_qos_profile_default, false), "a repeated discovery reported a change");
  CHECK(infos(c, false).type[10] == "First", "the endpoint is not reported as first discovered");
''')

seed('C09-enclave-means-known', 'C09',
     'the announcement that lists an endpoint is processed before the participant itself is discovered',
     "the endpoint is reported as created by a bare DDS application",
     [(G, '''  auto it = participant_map.find(participant_gid);
  if (participant_map.end() == it) {
    return {"", "", EndpointCreator::BARE_DDS_PARTICIPANT};
  }
''', '''  auto it = participant_map.find(participant_gid);
  if (participant_map.end() == it || it->second.enclave.empty()) {
    return {"", "", EndpointCreator::BARE_DDS_PARTICIPANT};
  }
''')],
     '''  GraphCache c;
  add_ep(c, 1, 10, true);
  c.update_participant_entities(announce(G(1, 1), {node("listener", {G(1, 10)})}));
  CHECK(infos(c, true).owner[10] == "listener", "attributed to %s", infos(c, true).owner[10].c_str());
''')

seed('C10-host-wide-removal', 'C10',
     'two participants of the same host and process are known when one of them leaves',
     'the endpoints of the other participant disappear with it',
     [(G, '''  bool ret = participants_.erase(participant_gid) > 0;
''', '''  bool ret = participants_.erase(participant_gid) > 0;
  if (ret) {
    // Its endpoints can not outlive it
    auto of_it = [&participant_gid](const rmw_gid_t & gid) {
        return 0 == std::memcmp(gid.data, participant_gid.data, 8u);
      };
    for (auto it = data_readers_.begin(); it != data_readers_.end(); ) {
      it = of_it(it->first) ? data_readers_.erase(it) : std::next(it);
    }
    for (auto it = data_writers_.begin(); it != data_writers_.end(); ) {
      it = of_it(it->first) ? data_writers_.erase(it) : std::next(it);
    }
  }
''')],
     '''  GraphCache c;
  c.add_participant(G(1, 1), "/");
  c.add_participant(G(2, 1), "/");
  add_ep(c, 1, 10, true);
  add_ep(c, 2, 10, true);
  c.remove_entity(G(1, 10), true);
  c.remove_participant(G(1, 1));
  size_t n = 0;
  (void)!c.get_reader_count("t", &n);
  CHECK(n == 1, "%zu subscriptions of the other participant are left", n);
''')

seed('C10-revenant', 'C10',
     'a participant is lost and discovered again',
     'its former nodes are reported at once, before it announced anything',
     [(G, '''  bool ret = participants_.erase(participant_gid) > 0;
''', '''  auto gone = participants_.find(participant_gid);
  bool ret = gone != participants_.end();
  if (ret) {
    departed_[participant_gid] = std::move(gone->second);
    participants_.erase(gone);
  }
'''), (G, '''      std::forward_as_tuple(participant_gid),
      std::forward_as_tuple());
    it = ret.first;
    assert(ret.second);
  }
  it->second.enclave = enclave;
''', '''      std::forward_as_tuple(participant_gid),
      std::forward_as_tuple());
    it = ret.first;
    assert(ret.second);
    auto flapping = departed_.find(participant_gid);
    if (flapping != departed_.end() && flapping->second.enclave == enclave) {
      // Only the connection was lost for a moment
      it->second = std::move(flapping->second);
      departed_.erase(flapping);
    }
  }
  it->second.enclave = enclave;
'''), (GH, '  ParticipantToNodesMap participants_;', '  ParticipantToNodesMap participants_;\n  ParticipantToNodesMap departed_;')],
     '''  GraphCache c;
  c.add_participant(G(1, 1), "/");
  c.update_participant_entities(announce(G(1, 1), {node("talker")}));
  c.remove_participant(G(1, 1));
  c.add_participant(G(1, 1), "/");
  CHECK(names(c).v.empty(), "nodes are left over");
''')

seed('C11-last-namesake', 'C11',
     'two nodes of one participant have the same name and the later one is destroyed',
     'the endpoints of the surviving node are no longer attributed to it',
     [(G, '''  auto node_info = std::find_if(
    participant_info->second.node_entities_info_seq.begin(),
    participant_info->second.node_entities_info_seq.end(),
''', '''  // Most operations concern the node created last
  auto node_info = std::find_if(
    participant_info->second.node_entities_info_seq.rbegin(),
    participant_info->second.node_entities_info_seq.rend(),
'''), (G, '  assert(node_info != participant_info->second.node_entities_info_seq.end());', '  assert(node_info != participant_info->second.node_entities_info_seq.rend());')],
     '''  Part p;
  PMsg last;
  p.on_publish([&](const PMsg & m) {last = m; return RMW_RET_OK;});
  p.x.add_node_graph("a", "/");
  p.x.add_node_graph("a", "/");
  p.x.add_subscriber_graph(G(1, 10), "a", "/");
  p.x.remove_node_graph("a", "/");
  CHECK(lists(last, G(1, 10), true), "the subscription of the surviving node is not announced");
''')

seed('C11-one-entry', 'C11',
     'a second node of the same name is created and one of them destroyed',
     'the surviving node is reported as gone',
     [(G, '''  it->second.node_entities_info_seq.emplace_back(node_info);

''', '''  // A node which is there already is not announced twice
  auto & nodes = it->second.node_entities_info_seq;
  const bool known = std::any_of(
    nodes.begin(), nodes.end(), [&](const rmw_dds_common::msg::NodeEntitiesInfo & other) {
      return other.node_name == node_name && other.node_namespace == node_namespace &&
      (!other.reader_gid_seq.empty() || !other.writer_gid_seq.empty());
    });
  if (!known) {
    nodes.emplace_back(node_info);
  }

''')],
     '''  Part p;
  p.x.add_node_graph("a", "/");
  p.x.add_subscriber_graph(G(1, 10), "a", "/");
  p.x.add_node_graph("a", "/");
  CHECK(p.x.graph_cache.get_number_of_nodes() == 2, "two nodes are alive but %zu reported", p.x.graph_cache.get_number_of_nodes());
  p.x.remove_node_graph("a", "/");
  CHECK(p.x.graph_cache.get_number_of_nodes() == 1, "one node is alive but %zu reported", p.x.graph_cache.get_number_of_nodes());
''')

seed('C12-announce-mutex', 'C12',
     'remote discovery data arrives while a local announcement is stalled inside the middleware',
     'the discovery update waits for the stalled announcement',
     [(GH, '  mutable std::mutex mutex_;', '''public:
  /// Held while the local participant is about to announce a new state.
  std::mutex announce_mutex_;

private:
  mutable std::mutex mutex_;'''),
      (G, '''GraphCache::update_participant_entities(const rmw_dds_common::msg::ParticipantEntitiesInfo & msg)
{
''', '''GraphCache::update_participant_entities(const rmw_dds_common::msg::ParticipantEntitiesInfo & msg)
{
  std::lock_guard<std::mutex> announcing(announce_mutex_);
'''),
      (C, '''    graph_cache.associate_reader(
    subscription_gid, gid, name, namespace_);

''', '''    graph_cache.associate_reader(
    subscription_gid, gid, name, namespace_);
  std::lock_guard<std::mutex> announcing(graph_cache.announce_mutex_);

''')],
     '''  watchdog(60);
  Part p;
  p.x.add_node_graph("a", "/");
  std::atomic<bool> stalled{false}, go{false}, updated{false};
  p.on_publish([&](const PMsg &) {stalled = true; soon(go); return RMW_RET_OK;});
  std::thread t([&]() {p.x.add_subscriber_graph(G(1, 10), "a", "/");});
  CHECK(soon(stalled), "nothing was announced");
  std::thread u([&]() {p.x.graph_cache.update_participant_entities(announce(G(2, 1), {node("b")})); updated = true;});
  bool ok = soon(updated, 3000);
  go = true;
  t.join();
  u.join();
  CHECK(ok, "a discovery update waited for a stalled announcement");
''')

seed('C12-crossed-locks', 'C12',
     'a client is created while a service of the same participant is destroyed',
     'each of the two threads holds the lock the other one waits for',
     [(CH, '''  /// Cached graph from discovery data.
  GraphCache graph_cache;
''', '''  /// Cached graph from discovery data.
  GraphCache graph_cache;
  /// Keeps the two endpoints of a client or service together.
  std::mutex pair_mutex;
'''),
      (C, '''  std::lock_guard<std::mutex> guard(node_update_mutex);
  graph_cache.associate_writer(
    request_publisher_gid, gid, name, namespace_);
''', '''  std::lock_guard<std::mutex> guard(node_update_mutex);
  std::lock_guard<std::mutex> pair_guard(pair_mutex);
  graph_cache.associate_writer(
    request_publisher_gid, gid, name, namespace_);
'''),
      (C, '''  std::lock_guard<std::mutex> guard(node_update_mutex);
  graph_cache.dissociate_reader(
    request_subscriber_gid, gid, name, namespace_);
''', '''  std::lock_guard<std::mutex> pair_guard(pair_mutex);
  std::lock_guard<std::mutex> guard(node_update_mutex);
  graph_cache.dissociate_reader(
    request_subscriber_gid, gid, name, namespace_);
''')],
     '''  watchdog(60);
  Part p;
  p.x.add_node_graph("a", "/");
  std::atomic<bool> stop{false};
  std::thread t([&]() {
      while (!stop) {
        p.x.add_client_graph(G(1, 10), G(1, 11), "a", "/");
        p.x.remove_client_graph(G(1, 10), G(1, 11), "a", "/");
      }
    });
  std::thread u([&]() {
      while (!stop) {
        p.x.add_service_graph(G(1, 20), G(1, 21), "a", "/");
        p.x.remove_service_graph(G(1, 20), G(1, 21), "a", "/");
      }
    });
  ms(8000);
  stop = true;
  t.join();
  u.join();
''')

seed('C13-two-looks', 'C13',
     'the publishers of a topic change between two looks at them during one call',
     'the profile mixes what two different sets of peers offer and matches neither',
     [(Q, '''    ret = qos_profile_get_best_available_for_subscription(
      &publishers_info, qos_profile);
    rmw_ret_t fini_ret = rmw_topic_endpoint_info_array_fini(&publishers_info, &allocator);
''', '''    const auto requested = *qos_profile;
    ret = qos_profile_get_best_available_for_subscription(
      &publishers_info, qos_profile);
    rmw_ret_t fini_ret = rmw_topic_endpoint_info_array_fini(&publishers_info, &allocator);
    if (RMW_RET_OK == ret && RMW_RET_OK == fini_ret && requested.durability != qos_profile->durability) {
      // Publishers are matched one after the other: take the latest durability
      publishers_info = rmw_get_zero_initialized_topic_endpoint_info_array();
      ret = get_endpoint_info(node, &allocator, topic_name, false, &publishers_info);
      if (RMW_RET_OK == ret) {
        rmw_qos_profile_t again = requested;
        ret = qos_profile_get_best_available_for_subscription(&publishers_info, &again);
        qos_profile->durability = again.durability;
        fini_ret = rmw_topic_endpoint_info_array_fini(&publishers_info, &allocator);
      }
    }
''')],
     '''  rmw_context_t ctx;
  memset(&ctx, 0, sizeof(ctx));
  ctx.options.allocator = rcutils_get_default_allocator();
  rmw_node_t n;
  memset(&n, 0, sizeof(n));
  n.context = &ctx;
  int calls = 0;
  auto look = [&](const rmw_node_t *, rcutils_allocator_t * a, const char *, bool, rmw_topic_endpoint_info_array_t * out) -> rmw_ret_t {
      // a best effort, transient local publisher is replaced by a reliable, volatile one
      bool first = calls++ == 0;
      rmw_ret_t r = rmw_topic_endpoint_info_array_init_with_size(out, 1, a);
      if (r != RMW_RET_OK) {return r;}
      out->info_array[0].qos_profile = rmw_qos_profile_default;
      out->info_array[0].qos_profile.reliability = first ? RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT : RMW_QOS_POLICY_RELIABILITY_RELIABLE;
      out->info_array[0].qos_profile.durability = first ? RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL : RMW_QOS_POLICY_DURABILITY_VOLATILE;
      return RMW_RET_OK;
    };
  rmw_qos_profile_t q = rmw_qos_profile_default;
  q.reliability = RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE;
  q.durability = RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE;
  CHECK(rmw_dds_common::qos_profile_get_best_available_for_topic_subscription(&n, "t", &q, look) == RMW_RET_OK, "failed");
  bool one = q.reliability == RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT && q.durability == RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL;
  bool two = q.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE && q.durability == RMW_QOS_POLICY_DURABILITY_VOLATILE;
  CHECK(one || two, "the profile matches neither set of peers");
''')

seed('C13-eager-policies', 'C13',
     'looking up the peers fails',
     'an error is returned but the profile has been changed',
     [(Q, '''    rmw_topic_endpoint_info_array_t subscriptions_info =
      rmw_get_zero_initialized_topic_endpoint_info_array();
''', '''    rmw_topic_endpoint_info_array_t subscriptions_info =
      rmw_get_zero_initialized_topic_endpoint_info_array();
    // Does not depend on the subscriptions
    if (RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE == qos_profile->durability) {
      qos_profile->durability = RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL;
    }
''')],
     '''  rmw_context_t ctx;
  memset(&ctx, 0, sizeof(ctx));
  ctx.options.allocator = rcutils_get_default_allocator();
  rmw_node_t n;
  memset(&n, 0, sizeof(n));
  n.context = &ctx;
  auto look = [](const rmw_node_t *, rcutils_allocator_t *, const char *, bool, rmw_topic_endpoint_info_array_t *) -> rmw_ret_t {return RMW_RET_ERROR;};
  rmw_qos_profile_t q = rmw_qos_profile_default;
  q.durability = RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE;
  CHECK(rmw_dds_common::qos_profile_get_best_available_for_topic_publisher(&n, "t", &q, look) == RMW_RET_ERROR, "the error was not returned");
  CHECK(q.durability == RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE, "the profile was changed although the call failed");
''')

seed('C14-c-string', 'C14',
     'the user data is not followed by a zero byte',
     'bytes behind the user data are read',
     [(Q, '''  std::vector<uint8_t> udvec(user_data, user_data + user_data_size);
''', '''  // Foreign applications may pad with zeros, which are not part of the text
  const size_t text_size = std::strlen(reinterpret_cast<const char *>(user_data));
  std::vector<uint8_t> udvec(user_data, user_data + (text_size < user_data_size ? text_size : user_data_size));
'''), (Q, '#include <cstdarg>', '#include <cstdarg>\n#include <cstring>')],
     '''  // user data that ends where the memory ends
  size_t page = static_cast<size_t>(sysconf(_SC_PAGESIZE));
  char * m = static_cast<char *>(mmap(nullptr, 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  mprotect(m + page, page, PROT_NONE);
  std::string s = "a=b;typehash=RIHS01_" + std::string(64, 'a') + ";c=d;";
  uint8_t * u = reinterpret_cast<uint8_t *>(m + page - s.size());
  memcpy(u, s.data(), s.size());
  auto h = rosidl_get_zero_initialized_type_hash();
  CHECK(rmw_dds_common::parse_type_hash_from_user_data(u, s.size(), h) == RMW_RET_OK && h.version == 1 && h.value[0] == 0xaa, "not decoded");
''')

seed('C14-loose-key', 'C14',
     "a foreign application's user data has a key that ends in 'typehash'",
     'its value is decoded as a type hash',
     [(Q, '''  auto typehash_it = key_value.find("typehash");
''', '''  auto typehash_it = key_value.find("typehash");
  if (typehash_it == key_value.end()) {
    // Some vendors put a prefix in front of the key
    typehash_it = std::find_if(
      key_value.begin(), key_value.end(), [](const auto & item) {
        const std::string suffix("typehash");
        return item.first.size() > suffix.size() &&
        0 == item.first.compare(item.first.size() - suffix.size(), suffix.size(), suffix);
      });
  }
'''), (Q, '#include <cstdarg>', '#include <algorithm>\n#include <cstdarg>')],
     '''  std::string s = "previoustypehash=RIHS01_" + std::string(64, 'a') + ";";
  auto h = rosidl_get_zero_initialized_type_hash();
  rmw_ret_t r = rmw_dds_common::parse_type_hash_from_user_data(reinterpret_cast<const uint8_t *>(s.data()), s.size(), h);
  CHECK(r == RMW_RET_OK && h.version == ROSIDL_TYPE_HASH_VERSION_UNSET, "user data without the key decoded as a set hash");
''')

SEC = '''  mkdir("enclave", 0700);
  mkdir("store", 0700);
  for (const char * f : {"identity_ca.cert.pem", "cert.pem", "key.pem", "permissions_ca.cert.pem", "governance.p7s", "permissions.p7s"}) {
    FILE * o = fopen((std::string("enclave/") + f).c_str(), "w");
    fputs("x", o);
    fclose(o);
  }
'''
seed('C15-resolved-link', 'C15',
     'a file of the enclave is a symbolic link',
     'the value is a path outside the enclave',
     [(S, '''  result = prefix + full_path.generic_string();
  return true;
''', '''  result = prefix + full_path.generic_string();
  const std::filesystem::path target = std::filesystem::weakly_canonical(full_path, ec);
  if (!ec && target.filename() != full_path.filename()) {
    // Name the file itself, the link may be changed later
    result = prefix + target.generic_string();
  }
  return true;
''')],
     SEC + '''  rename("enclave/cert.pem", "store/certificate-17.pem");
  (void)!symlink("../store/certificate-17.pem", "enclave/cert.pem");
  std::unordered_map<std::string, std::string> r;
  CHECK(rmw_dds_common::get_security_files("", "enclave", r), "failed");
  CHECK(r["CERTIFICATE"] == "enclave/cert.pem", "the value is %s", r["CERTIFICATE"].c_str());
''')

seed('C15-empty-check', 'C15',
     'a file is removed (or becomes unreadable) between two looks at it',
     'the lookup throws instead of failing',
     [(S, '''  result = prefix + full_path.generic_string();
  return true;
''', '''  if (std::filesystem::file_size(full_path) == 0u) {
    // Written only in part
    return false;
  }
  result = prefix + full_path.generic_string();
  return true;
''')],
     SEC + '''  std::atomic<bool> stop{false};
  std::thread t([&]() {
      while (!stop) {
        rename("enclave/cert.pem", "store/cert.pem");
        rename("store/cert.pem", "enclave/cert.pem");
      }
    });
  auto end = Clock::now() + std::chrono::seconds(8);
  while (Clock::now() < end) {
    std::unordered_map<std::string, std::string> r;
    bool ok = false;
    try {
      ok = rmw_dds_common::get_security_files("", "enclave", r);
    } catch (const std::exception & e) {
      CHECK(false, "threw %s", e.what());
    }
    CHECK(ok ? r.size() == 6 : r.empty(), "incomplete result");
  }
  stop = true;
  t.join();
''')

seed('C16-one-block', 'C16',
     'the reference does not lie within the first block that is read',
     'a fragment of the reference is taken',
     [(S, '''  if (!(ifs >> result)) {
    return false;
  }
''', '''  // One read is enough for any reasonable file
  char block[4096];
  ifs.read(block, sizeof(block));
  std::istringstream words(std::string(block, static_cast<size_t>(ifs.gcount())));
  if (!(words >> result)) {
    return false;
  }
'''), (S, '#include <string>', '#include <sstream>\n#include <string>')],
     SEC + '''  std::string ref = "pkcs11:token=" + std::string(5000, 't') + ";object=o";
  FILE * o = fopen("enclave/cert.p11", "w");
  fputs(ref.c_str(), o);
  fclose(o);
  std::unordered_map<std::string, std::string> r;
  CHECK(rmw_dds_common::get_security_files(true, "", "enclave", r), "failed");
  CHECK(r["CERTIFICATE"] == ref || r["CERTIFICATE"] == "enclave/cert.pem", "a fragment of %zu characters was taken", r["CERTIFICATE"].size());
''')

seed('C16-look-twice', 'C16',
     'the reference file is replaced between the check of its content and the reading of the reference',
     'something which is no PKCS#11 reference is taken',
     [(S, '''  if (result.find(p11_prefix) != 0) {
    return false;
  }
''', '''  if (result.find(p11_prefix) != 0) {
    return false;
  }
  // The file is fine: take the reference itself
  std::ifstream reference(full_path);
  reference >> result;
''')],
     SEC + '''  auto put = [](const char * text) {
      FILE * o = fopen("store/new", "w");
      fputs(text, o);
      fclose(o);
      rename("store/new", "enclave/cert.p11");
    };
  put("pkcs11:good");
  std::atomic<bool> stop{false};
  std::thread t([&]() {
      while (!stop) {
        put("-----BEGIN");
        put("pkcs11:good");
      }
    });
  auto end = Clock::now() + std::chrono::seconds(8);
  while (Clock::now() < end) {
    std::unordered_map<std::string, std::string> r;
    CHECK(rmw_dds_common::get_security_files(true, "", "enclave", r), "failed");
    CHECK(r["CERTIFICATE"] == "pkcs11:good" || r["CERTIFICATE"] == "enclave/cert.pem", "took '%s'", r["CERTIFICATE"].c_str());
  }
  stop = true;
  t.join();
''')

seed('C16-cached', 'C16',
     'a reference file is replaced by one of the same size which carries the same time stamp (as archives and image builders make them)',
     'lookups keep returning the reference which the file held before',
     [(S, '''  std::ifstream ifs(full_path);
  if (!ifs.is_open()) {
    return false;
  }
''', '''  // Tokens may be slow to mount: do not read a file again which did not change
  struct Known
  {
    std::filesystem::file_time_type time;
    uintmax_t size;
    std::string reference;
  };
  static thread_local std::unordered_map<std::string, Known> cache;
  Known now{std::filesystem::last_write_time(full_path, ec), std::filesystem::file_size(full_path, ec), ""};
  auto known = cache.find(full_path.string());
  if (!ec && known != cache.end() && known->second.time == now.time && known->second.size == now.size) {
    result = known->second.reference;
    return true;
  }

  std::ifstream ifs(full_path);
  if (!ifs.is_open()) {
    return false;
  }
'''),
      (S, '''  if (result.find(p11_prefix) != 0) {
    return false;
  }
''', '''  if (result.find(p11_prefix) != 0) {
    return false;
  }
  if (!ec) {
    now.reference = result;
    cache[full_path.string()] = now;
  }
''')],
     SEC + '''  auto put = [](const char * text) {
      FILE * o = fopen("store/new", "w");
      fputs(text, o);
      fclose(o);
      std::filesystem::last_write_time("store/new", std::filesystem::file_time_type(std::chrono::seconds(0)));
      rename("store/new", "enclave/cert.p11");
    };
  for (const char * text : {"pkcs11:one", "pkcs11:two", "pkcs11:six"}) {
    put(text);
    std::unordered_map<std::string, std::string> r;
    CHECK(rmw_dds_common::get_security_files(true, "", "enclave", r), "failed");
    CHECK(r["CERTIFICATE"] == text, "took '%s', not '%s'", r["CERTIFICATE"].c_str(), text);
  }
''')

seed('C16-descriptor', 'C16',
     'many lookups of enclaves where a .p11 file holds something else than a reference',
     'the descriptor of a rejected file stays open; when the process has none left, valid references are ignored',
     [(S, '''  std::ifstream ifs(full_path);
  if (!ifs.is_open()) {
    return false;
  }

  if (!(ifs >> result)) {
    return false;
  }
  if (result.find(p11_prefix) != 0) {
    return false;
  }

  return true;
''', '''  FILE * file = fopen(full_path.c_str(), "r");
  if (file == nullptr) {
    return false;
  }

  std::string word;
  int c = fgetc(file);
  while (c != EOF && isspace(c)) {
    c = fgetc(file);
  }
  for (; c != EOF && !isspace(c); c = fgetc(file)) {
    word.push_back(static_cast<char>(c));
  }
  if (word.compare(0, p11_prefix.size(), p11_prefix) != 0) {
    return false;
  }
  if (ferror(file)) {
    fclose(file);
    return false;
  }
  fclose(file);
  result = word;

  return true;
''')],
     SEC + '''  auto put = [](const char * name, const char * text) {
      FILE * o = fopen(name, "w");
      fputs(text, o);
      fclose(o);
    };
  struct rlimit few = {64, 64};
  setrlimit(RLIMIT_NOFILE, &few);
  put("enclave/cert.p11", "no reference");
  put("store/good", "pkcs11:good");
  for (int i = 0; i < 200; ++i) {
    std::unordered_map<std::string, std::string> r;
    CHECK(rmw_dds_common::get_security_files(true, "", "enclave", r), "failed");
    CHECK(r["CERTIFICATE"] == "enclave/cert.pem", "took '%s'", r["CERTIFICATE"].c_str());
  }
  rename("store/good", "enclave/cert.p11");
  std::unordered_map<std::string, std::string> r;
  CHECK(rmw_dds_common::get_security_files(true, "", "enclave", r), "failed");
  CHECK(r["CERTIFICATE"] == "pkcs11:good", "took '%s'", r["CERTIFICATE"].c_str());
''')

seed('C15-stale-retry', 'C15',
     'a required file stays on a stale network file handle (ESTALE on every call)',
     'the lookup never returns',
     [(S, '''  std::error_code ec;
  if (!std::filesystem::is_regular_file(full_path, ec)) {
    return false;
  }
  result = prefix + full_path.generic_string();
''', '''  std::error_code ec;
  bool regular = std::filesystem::is_regular_file(full_path, ec);
  while (!regular && ec.value() == ESTALE) {
    // The server was restarted: looking at the path again gets a new handle
    regular = std::filesystem::is_regular_file(full_path, ec);
  }
  if (!regular) {
    return false;
  }
  result = prefix + full_path.generic_string();
''')],
     SEC + '''  stale = "enclave/cert.pem";
  signal(SIGALRM, [](int) {(void)!write(2, "FAILED: still looking\\n", 22); _Exit(1);});
  alarm(5);
  std::unordered_map<std::string, std::string> r;
  CHECK(!rmw_dds_common::get_security_files("", "enclave", r), "found a file which cannot be looked at");
  CHECK(r.empty(), "something is left");
''')

seed('C15-read-throws', 'C15',
     'reading a .p11 file fails with an I/O error',
     'the lookup throws instead of falling back to the PEM file',
     [(S, '''  if (!(ifs >> result)) {
    return false;
  }
''', '''  const std::string text((std::istreambuf_iterator<char>(ifs)), std::istreambuf_iterator<char>());
  const char * const blank = " \\t\\n\\v\\f\\r";
  const size_t from = text.find_first_not_of(blank);
  if (from == std::string::npos) {
    return false;
  }
  result = text.substr(from, text.find_first_of(blank, from) - from);
''')],
     SEC + '''  // reading its beginning is an I/O error
  (void)!symlink("/proc/self/mem", "enclave/cert.p11");
  std::unordered_map<std::string, std::string> r;
  bool ok = false;
  try {
    ok = rmw_dds_common::get_security_files(true, "", "enclave", r);
  } catch (const std::exception & e) {
    CHECK(false, "threw %s", e.what());
  }
  CHECK(ok && r["CERTIFICATE"] == "enclave/cert.pem", "took '%s'", r["CERTIFICATE"].c_str());
''')

seed('C05-running-total', 'C05',
     'the number of nodes is asked for while an announcement is being processed',
     'a number of nodes is returned which the graph never had',
     [(GH, '''  ParticipantToNodesMap participants_;
''', '''  ParticipantToNodesMap participants_;
  /// Number of nodes of all participants, which can be read without waiting.
  std::atomic<size_t> number_of_nodes_{0u};
'''), (GH, '#include <functional>\n', '#include <atomic>\n#include <functional>\n'),
      (G, '''  it->second.node_entities_info_seq = msg.node_entities_info_seq;
''', '''  number_of_nodes_ -= it->second.node_entities_info_seq.size();
  it->second.node_entities_info_seq = msg.node_entities_info_seq;
  number_of_nodes_ += it->second.node_entities_info_seq.size();
'''),
      (G, '''  bool ret = participants_.erase(participant_gid) > 0;
''', '''  auto leaving = participants_.find(participant_gid);
  if (leaving != participants_.end()) {
    number_of_nodes_ -= leaving->second.node_entities_info_seq.size();
  }
  bool ret = participants_.erase(participant_gid) > 0;
'''),
      (G, '''  it->second.node_entities_info_seq.emplace_back(node_info);
''', '''  it->second.node_entities_info_seq.emplace_back(node_info);
  ++number_of_nodes_;
'''),
      (G, '''GraphCache::remove_node(
  const rmw_gid_t & participant_gid,
  const std::string & node_name,
  const std::string & node_namespace)
{
  std::lock_guard<std::mutex> guard(mutex_);
''', '''GraphCache::remove_node(
  const rmw_gid_t & participant_gid,
  const std::string & node_name,
  const std::string & node_namespace)
{
  std::lock_guard<std::mutex> guard(mutex_);
  --number_of_nodes_;
'''),
      (G, '''  std::lock_guard<std::mutex> guard(mutex_);
  return __get_number_of_nodes(participants_);
''', '''  return number_of_nodes_;
''')],
     '''  GraphCache c;
  c.add_participant(G(1, 1), "/");
  std::vector<NMsg> nodes;
  for (int i = 0; i < 200; ++i) {nodes.push_back(node("a_node_with_a_rather_long_name_" + std::to_string(i)));}
  c.update_participant_entities(announce(G(1, 1), nodes));
  std::atomic<bool> stop{false};
  std::thread t([&]() {
      for (int i = 0; !stop; ++i) {
        nodes[7] = node("a_node_with_another_name_" + std::to_string(i));
        c.update_participant_entities(announce(G(1, 1), nodes));
      }
    });
  for (auto end = Clock::now() + std::chrono::seconds(8); Clock::now() < end; ) {
    size_t n = c.get_number_of_nodes();
    CHECK(n == 200, "there are 200 nodes, not %zu", n);
  }
  stop = true;
  t.join();
''')

seed('C13-recent-peers', 'C13',
     'two entities of a topic are created shortly after each other, and the peers change in between',
     'the second profile is resolved against peers which are gone',
     [(Q, '''    rmw_ret_t ret = get_endpoint_info(
      node, &allocator, topic_name, false, &publishers_info);
    if (RMW_RET_OK != ret) {
      return ret;
    }
    ret = qos_profile_get_best_available_for_subscription(
      &publishers_info, qos_profile);
    rmw_ret_t fini_ret = rmw_topic_endpoint_info_array_fini(&publishers_info, &allocator);
''', '''    // Nodes create many subscriptions in a row: remember what the latest ones were given
    struct Recent
    {
      std::string topic;
      std::chrono::steady_clock::time_point when;
      rmw_qos_profile_t all;
    };
    static thread_local Recent recent;
    const auto now = std::chrono::steady_clock::now();
    rmw_qos_profile_t all = *qos_profile;
    all.reliability = RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE;
    all.durability = RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE;
    all.liveliness = RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE;
    all.deadline = RMW_QOS_DEADLINE_BEST_AVAILABLE;
    all.liveliness_lease_duration = RMW_QOS_LIVELINESS_LEASE_DURATION_BEST_AVAILABLE;
    rmw_ret_t ret = RMW_RET_OK;
    rmw_ret_t fini_ret = RMW_RET_OK;
    if (recent.topic != topic_name || now - recent.when > std::chrono::milliseconds(20)) {
      ret = get_endpoint_info(
        node, &allocator, topic_name, false, &publishers_info);
      if (RMW_RET_OK != ret) {
        return ret;
      }
      ret = qos_profile_get_best_available_for_subscription(&publishers_info, &all);
      fini_ret = rmw_topic_endpoint_info_array_fini(&publishers_info, &allocator);
      if (RMW_RET_OK == ret) {
        recent = {topic_name, now, all};
      }
    }
    if (RMW_RET_OK == ret) {
      if (RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE == qos_profile->reliability) {
        qos_profile->reliability = recent.all.reliability;
      }
      if (RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE == qos_profile->durability) {
        qos_profile->durability = recent.all.durability;
      }
      if (RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE == qos_profile->liveliness) {
        qos_profile->liveliness = recent.all.liveliness;
      }
      if (deadline_best_available == qos_profile->deadline) {
        qos_profile->deadline = recent.all.deadline;
      }
      if (liveliness_lease_duration_best_available == qos_profile->liveliness_lease_duration) {
        qos_profile->liveliness_lease_duration = recent.all.liveliness_lease_duration;
      }
    }
'''), (Q, '#include <string>\n', '#include <chrono>\n#include <string>\n')],
     '''  rmw_context_t ctx;
  memset(&ctx, 0, sizeof(ctx));
  ctx.options.allocator = rcutils_get_default_allocator();
  rmw_node_t n;
  memset(&n, 0, sizeof(n));
  n.context = &ctx;
  bool reliable = true;
  auto look = [&](const rmw_node_t *, rcutils_allocator_t * a, const char *, bool, rmw_topic_endpoint_info_array_t * out) -> rmw_ret_t {
      rmw_ret_t r = rmw_topic_endpoint_info_array_init_with_size(out, 1, a);
      if (r != RMW_RET_OK) {return r;}
      out->info_array[0].qos_profile = rmw_qos_profile_default;
      out->info_array[0].qos_profile.reliability = reliable ? RMW_QOS_POLICY_RELIABILITY_RELIABLE : RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT;
      return RMW_RET_OK;
    };
  for (int i = 0; i < 4; ++i) {
    rmw_qos_profile_t q = rmw_qos_profile_default;
    q.reliability = RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE;
    CHECK(rmw_dds_common::qos_profile_get_best_available_for_topic_subscription(&n, "t", &q, look) == RMW_RET_OK, "failed");
    CHECK((q.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE) == reliable, "the profile does not match the publisher there is");
    reliable = !reliable;
  }
''')

seed('C07-back-off', 'C07',
     'a query runs out of memory and is retried right away with memory available',
     'the retry is refused as well',
     [(G, '''  size_t nodes_number = __get_number_of_nodes(participants_);
  rcutils_ret_t rcutils_ret =
    rcutils_string_array_init(node_names, nodes_number, allocator);
''', '''  // Do not make matters worse when memory is short
  static thread_local bool short_of_memory = false;
  size_t nodes_number = __get_number_of_nodes(participants_);
  rcutils_ret_t rcutils_ret = short_of_memory ? RCUTILS_RET_BAD_ALLOC :
    rcutils_string_array_init(node_names, nodes_number, allocator);
  short_of_memory = !short_of_memory && rcutils_ret == RCUTILS_RET_BAD_ALLOC;
''')],
     '''  GraphCache c;
  c.add_participant(G(1, 1), "/enclave");
  c.update_participant_entities(announce(G(1, 1), {node("a"), node("b")}));
  for (int k = 0; k < 12; ++k) {
    Alloc a;
    a.fail_at = k;
    Names n = names(c, &a.a);
    CHECK(n.ret == RMW_RET_OK || n.ret == RMW_RET_BAD_ALLOC, "returned %d", n.ret);
    Names again = names(c);
    CHECK(again.ret == RMW_RET_OK && again.v.size() == 2, "the retry returned %d", again.ret);
  }
''')

# ---- third batch ----

seed('C01-nothing-left', 'C01',
     'a participant announces that its last node is gone and later creates another one',
     'nodes created afterwards are reported without their enclave for good',
     [(G, '''  it->second.node_entities_info_seq = msg.node_entities_info_seq;
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK(this);
''', '''  it->second.node_entities_info_seq = msg.node_entities_info_seq;
  if (it->second.node_entities_info_seq.empty()) {
    // Nothing worth remembering
    participants_.erase(it);
  }
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK(this);
''')],
     '''  GraphCache c;
  c.add_participant(G(2, 1), "/enclave");
  c.update_participant_entities(announce(G(2, 1), {node("talker")}));
  c.update_participant_entities(announce(G(2, 1), {}));
  c.update_participant_entities(announce(G(2, 1), {node("listener")}));
  auto n = names(c);
  CHECK(n.v.size() == 1 && n.v[0] == "/|listener|/enclave", "reported as %s", n.v[0].c_str());
''')

seed('C02-kept-nodes', 'C02',
     'an announcement without any node arrives from a participant that had several',
     'its former nodes are still reported, a state the participant has left',
     [(G, '''  it->second.node_entities_info_seq = msg.node_entities_info_seq;
''', '''  auto & nodes = it->second.node_entities_info_seq;
  if (nodes.size() < 2u || !msg.node_entities_info_seq.empty()) {
    nodes = msg.node_entities_info_seq;
  } else {
    // All of the nodes at once: the participant goes down and will be removed as a whole.
    nodes.resize(1u);
  }
''')],
     '''  GraphCache c;
  c.add_participant(G(2, 1), "/");
  c.update_participant_entities(announce(G(2, 1), {node("a"), node("b")}));
  // the announcement in between has been lost
  c.update_participant_entities(announce(G(2, 1), {}));
  CHECK(names(c).v.empty(), "%zu nodes are reported", names(c).v.size());
''')

seed('C03-shared-buffer', 'C03',
     'two participants of one process announce at the same time',
     "a participant's announcement carries the other one's graph",
     [(C, '''  if (nullptr == pub || nullptr == publish_callback ||
    RMW_RET_OK != publish_callback(pub, static_cast<const void *>(&msg)))
  {
    return false;
  }
  return true;
''', '''  if (nullptr == pub || nullptr == publish_callback) {
    return false;
  }
  // Announcements are serialized anyway: reuse the buffers of the last one
  static rmw_dds_common::msg::ParticipantEntitiesInfo sample;
  sample.gid = msg.gid;
  sample.node_entities_info_seq = msg.node_entities_info_seq;
  return RMW_RET_OK == publish_callback(pub, static_cast<const void *>(&sample));
''')],
     '''  watchdog(100);
  Part p(1), q(2);
  std::atomic<bool> in{false}, go{false};
  std::atomic<bool> bad{false};
  p.on_publish([&](const PMsg & m) {
      in = true;
      soon(go, 3000);
      if (!(m.gid == M(G(1, 1)))) {bad = true;}
      return RMW_RET_OK;
    });
  std::thread t([&]() {p.x.add_node_graph("a", "/");});
  CHECK(soon(in), "nothing was announced");
  q.x.add_node_graph("b", "/");
  go = true;
  t.join();
  CHECK(!bad, "the announcement of one participant was overwritten by the other's");
''')

seed('C04-coalesced', 'C04',
     'an operation waits behind another one, and the announcement of the waiting one fails',
     'the first operation reports success although its state was never announced',
     [(CH, '''  /// Cached graph from discovery data.
  GraphCache graph_cache;
''', '''  /// Cached graph from discovery data.
  GraphCache graph_cache;
  /// Publishers about to be announced.
  std::atomic<int> waiting{0};
'''),
      (CH, '#include <mutex>', '#include <atomic>\n#include <mutex>'),
      (C, '''  std::lock_guard<std::mutex> guard(node_update_mutex);
  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.associate_writer(
    publisher_gid, gid, name, namespace_);

  if (''', '''  ++waiting;
  std::lock_guard<std::mutex> guard(node_update_mutex);
  --waiting;
  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.associate_writer(
    publisher_gid, gid, name, namespace_);

  if (waiting > 0) {
    // The next announcement includes this one
    return RMW_RET_OK;
  }
  if (''')],
     '''  watchdog(100);
  Part p;
  p.x.add_node_graph("a", "/");
  std::atomic<bool> in{false}, go{false};
  std::atomic<int> announced{0}, ok{0};
  p.on_publish([&](const PMsg & m) {
      if (!in) {in = true; soon(go); return RMW_RET_OK;}
      // one announcement at most is refused
      if (lists(m, G(1, 12), false)) {return RMW_RET_ERROR;}
      if (lists(m, G(1, 11), false)) {announced = 1;}
      return RMW_RET_OK;
    });
  std::thread t([&]() {p.x.add_subscriber_graph(G(1, 10), "a", "/");});
  CHECK(soon(in), "nothing was announced");
  // two publishers are created meanwhile, the announcement of the second one fails
  std::thread u([&]() {ok = p.x.add_publisher_graph(G(1, 11), "a", "/") == RMW_RET_OK;});
  ms(300);
  std::thread v([&]() {p.x.add_publisher_graph(G(1, 12), "a", "/");});
  ms(300);
  go = true;
  t.join();
  u.join();
  v.join();
  CHECK(!ok || announced, "success was reported without an announcement");
''')

seed('C05-outside-demangling', 'C05',
     'an endpoint disappears while a topic query demangles the names it has gathered',
     'the query uses memory of the endpoint after it was freed',
     [(G, '''  for (const auto & item : entities) {
    std::string demangled_topic_name = demangle_topic(item.second.topic_name);
    if ("" != demangled_topic_name) {
      topics[demangled_topic_name].insert(demangle_type(item.second.topic_type));
    }
  }
}
''', '''  for (const auto & item : entities) {
    std::string demangled_topic_name = demangle_topic(item.second.topic_name);
    if ("" != demangled_topic_name) {
      topics[demangled_topic_name].insert(demangle_type(item.second.topic_type));
    }
  }
}

static
std::vector<const std::pair<const rmw_gid_t, rmw_dds_common::EntityInfo> *>
__snapshot(const GraphCache::EntityGidToInfo & entities)
{
  std::vector<const std::pair<const rmw_gid_t, rmw_dds_common::EntityInfo> *> all;
  for (const auto & item : entities) {
    all.push_back(&item);
  }
  return all;
}
'''),
      (G, '''    __get_names_and_types(
      data_writers_,
      demangle_topic,
      demangle_type,
      topics);
  }

''', '''  }
  // Demangling may take a while: only gather the writers under the lock
  std::vector<const std::pair<const rmw_gid_t, rmw_dds_common::EntityInfo> *> writers;
  {
    std::lock_guard<std::mutex> guard(mutex_);
    writers = __snapshot(data_writers_);
  }
  for (const auto * item : writers) {
    std::string demangled_topic_name = demangle_topic(item->second.topic_name);
    if ("" != demangled_topic_name) {
      topics[demangled_topic_name].insert(demangle_type(item->second.topic_type));
    }
  }

''')],
     '''  watchdog(100);
  GraphCache c;
  std::string longer(64, 'x');
  add_ep(c, 1, 1, false, "t1" + longer, "T");
  add_ep(c, 1, 2, false, "t2" + longer, "T");
  std::atomic<bool> in{false}, done{false};
  std::thread t([&]() {
      soon(in);
      c.remove_entity(G(1, 2), false);
      done = true;
    });
  auto dem = [&](const std::string & s) {
      if (!in) {in = true; soon(done, 1500);}
      return s;
    };
  rcutils_allocator_t d = rcutils_get_default_allocator();
  rmw_names_and_types_t nt = rmw_get_zero_initialized_names_and_types();
  CHECK(c.get_names_and_types(dem, same, &d, &nt) == RMW_RET_OK, "the query failed");
  for (size_t i = 0; i < nt.names.size; ++i) {CHECK(strlen(nt.names.data[i]) == 66, "a topic is reported as %s", nt.names.data[i]);}
  (void)!rmw_names_and_types_fini(&nt);
  t.join();
''', '-O1 -g -fsanitize=address')

seed('C06-outside-the-lock', 'C06',
     'the change callback is cleared while another thread removes an endpoint',
     'the callback runs after clearing it has returned',
     [(G, '''  std::lock_guard<std::mutex> guard(mutex_);
  bool ret = data_readers_.erase(gid) > 0;
  GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF(this, ret);
  return ret;
''', '''  std::function<void()> notify;
  bool ret = false;
  {
    std::lock_guard<std::mutex> guard(mutex_);
    ret = data_readers_.erase(gid) > 0;
    if (ret) {
      notify = on_change_callback_;
    }
  }
  // Whoever is notified may look at the graph right away
  if (notify) {
    notify();
  }
  return ret;
''')],
     '''  watchdog(60);
  GraphCache c;
  add_ep(c, 1, 1, true);
  std::atomic<bool> in{false}, cleared{false}, bad{false};
  c.set_on_change_callback([&]() {
      in = true;
      soon(cleared, 1500);
      if (cleared) {bad = true;}
    });
  std::thread t([&]() {c.remove_entity(G(1, 1), true);});
  CHECK(soon(in), "not notified");
  c.clear_on_change_callback();
  cleared = true;
  t.join();
  CHECK(!bad, "the callback was running after clearing it had returned");
''')

seed('C07-late-guard', 'C07',
     "an allocation for the first endpoint of the answer fails",
     'the array allocated before is leaked and left in the output',
     [(G, '''  size_t i = 0;
  for (const auto & entity_pair : entities) {
    if (entity_pair.second.topic_name != topic_name) {
      continue;
    }
''', '''  // No entry is filled in yet
  endpoints_info_delete_on_error.release();
  size_t i = 0;
  for (const auto & entity_pair : entities) {
    if (entity_pair.second.topic_name != topic_name) {
      continue;
    }
    if (i == 1u) {
      endpoints_info_delete_on_error.reset(endpoints_info);
    }
''')],
     '''  GraphCache c;
  c.add_participant(G(1, 1), "/");
  for (int i = 0; i < 3; ++i) {add_ep(c, 1, 10 + i, true);}
  for (long k = 0; k < 12; ++k) {
    Alloc a;
    a.fail_at = k;
    auto i = infos(c, true, "t", &a.a);
    if (i.ret == RMW_RET_OK) {break;}
    CHECK(a.live == 0, "%ld blocks leaked when allocation %ld fails", a.live.load(), k);
  }
''')

seed('C08-noexcept-message', 'C08',
     'memory runs out while the announcement message of a local change is put together',
     'the process is terminated',
     [(G, '''__create_participant_info_message(
  const rmw_gid_t & gid,
  const GraphCache::NodeEntitiesInfoSeq & info)
{''', '''__create_participant_info_message(
  const rmw_gid_t & gid,
  const GraphCache::NodeEntitiesInfoSeq & info) noexcept
{''')],
     '''  for (long k = 0; k < 40; ++k) {
    GraphCache c;
    c.add_participant(G(1, 1), "/");
    c.add_node(G(1, 1), "a_node_with_a_name_for_the_heap", "/a_namespace_with_a_name_for_the_heap");
    bool threw = false;
    fail_after = k;
    try {
      c.associate_reader(G(1, 10), G(1, 1), "a_node_with_a_name_for_the_heap", "/a_namespace_with_a_name_for_the_heap");
    } catch (const std::bad_alloc &) {threw = true;}
    fail_after = -1;
    if (!threw) {break;}
    CHECK(names(c).v.size() == 1, "the node is lost");
  }
''')

seed('C09-entity-id', 'C09',
     'two endpoints under one participant have gids that differ only before the last four bytes',
     'an endpoint is attributed to the node of another one',
     [(G, '''        return 0u == std::memcmp(gid.data.data(), entity_gid.data, RMW_GID_STORAGE_SIZE);
''', '''        // Within a participant only the entity id differs
        return 0u == std::memcmp(
          gid.data.data() + RMW_GID_STORAGE_SIZE - 4u,
          entity_gid.data + RMW_GID_STORAGE_SIZE - 4u, 4u);
''')],
     '''  GraphCache c;
  c.add_participant(G(1, 1), "/");
  c.add_entity(G(2, 7), "t", "T", rosidl_get_zero_initialized_type_hash(), G(1, 1), rmw_qos_profile_default, false);
  c.add_entity(G(3, 7), "u", "T", rosidl_get_zero_initialized_type_hash(), G(1, 1), rmw_qos_profile_default, false);
  c.update_participant_entities(announce(G(1, 1), {node("first", {}, {G(2, 7)}), node("second", {}, {G(3, 7)})}));
  auto i = infos(c, false, "u");
  CHECK(i.owner[7] == "second", "attributed to %s", i.owner[7].c_str());
''')

seed('C10-endpoints-first', 'C10',
     "a participant's departure is processed before the removal of its endpoints",
     'the participant stays known and a successor or its endpoints are reported with what is left of it',
     [(G, '''  bool ret = participants_.erase(participant_gid) > 0;
''', '''  auto belongs = [&](const EntityGidToInfo::value_type & item) {
      return item.second.participant_gid == participant_gid;
    };
  auto it = participants_.find(participant_gid);
  bool ret = it != participants_.end();
  if (
    std::any_of(data_writers_.begin(), data_writers_.end(), belongs) ||
    std::any_of(data_readers_.begin(), data_readers_.end(), belongs))
  {
    // Still needed to tell whom the remaining endpoints belong to
    if (ret) {
      it->second.node_entities_info_seq.clear();
    }
  } else if (ret) {
    participants_.erase(it);
  }
''')],
     '''  GraphCache c;
  c.add_participant(G(2, 1), "/enclave");
  add_ep(c, 2, 7, false);
  c.update_participant_entities(announce(G(2, 1), {node("a", {}, {G(2, 7)})}));
  c.remove_participant(G(2, 1));
  c.remove_entity(G(2, 7), false);
  CHECK(!c.remove_participant(G(2, 1)), "the participant is still there");
  // discovered again, its endpoints before itself
  add_ep(c, 2, 7, false, "t", "T", 1);
  c.update_participant_entities(announce(G(2, 1), {node("a", {}, {G(2, 7)})}));
  auto n = names(c);
  CHECK(n.v.size() == 1 && n.v[0] == "/|a|", "reported as %s", n.v[0].c_str());
''')

seed('C11-latest-namesake', 'C11',
     'two nodes of a participant share their name, the later one has an endpoint, and one of them is destroyed',
     "the survivor's endpoints vanish with the destroyed node",
     [(G, '''  auto node_info = std::find_if(
    participant_info->second.node_entities_info_seq.begin(),
    participant_info->second.node_entities_info_seq.end(),
    [&](const rmw_dds_common::msg::NodeEntitiesInfo & node_info)
    {
      return node_info.node_name == node_name && node_info.node_namespace == node_namespace;
    });
  assert(node_info != participant_info->second.node_entities_info_seq.end());
''', '''  // The node was most likely created last
  auto node_info = std::find_if(
    participant_info->second.node_entities_info_seq.rbegin(),
    participant_info->second.node_entities_info_seq.rend(),
    [&](const rmw_dds_common::msg::NodeEntitiesInfo & node_info)
    {
      return node_info.node_name == node_name && node_info.node_namespace == node_namespace;
    });
  assert(node_info != participant_info->second.node_entities_info_seq.rend());
''')],
     '''  Part p;
  p.x.add_node_graph("twin", "/");
  p.x.add_node_graph("twin", "/");
  // the endpoint of the twin that stays
  add_ep(p.x.graph_cache, 1, 10, false);
  p.x.add_publisher_graph(G(1, 10), "twin", "/");
  p.x.remove_node_graph("twin", "/");
  CHECK(names(p.x.graph_cache).v.size() == 1, "wrong number of nodes");
  CHECK(infos(p.x.graph_cache, false).owner[10] == "twin", "the endpoint belongs to %s", infos(p.x.graph_cache, false).owner[10].c_str());
''')

seed('C12-callback-mutex', 'C12',
     'the publish function queries the graph, or is stalled while discovery data arrives',
     'the query waits for the announcement it is part of',
     [(GH, '''  mutable std::mutex mutex_;''', '''public:
  /// Holds the graph still while an announcement is handed to the middleware.
  std::unique_lock<std::mutex> hold() const {return std::unique_lock<std::mutex>(mutex_);}

private:
  mutable std::mutex mutex_;'''),
      (C, '''    graph_cache.dissociate_writer(
    response_publisher_gid, gid, name, namespace_);

  if (''', '''    graph_cache.dissociate_writer(
    response_publisher_gid, gid, name, namespace_);

  // Nobody should see the service gone before the others are told
  auto held = graph_cache.hold();
  if (''')],
     '''  watchdog(60);
  Part p;
  p.x.add_node_graph("a", "/");
  p.x.add_service_graph(G(1, 10), G(1, 11), "a", "/");
  std::atomic<bool> in{false}, go{false}, updated{false};
  p.on_publish([&](const PMsg &) {in = true; soon(go); return RMW_RET_OK;});
  std::thread t([&]() {p.x.remove_service_graph(G(1, 10), G(1, 11), "a", "/");});
  CHECK(soon(in), "nothing was announced");
  std::thread u([&]() {names(p.x.graph_cache); updated = true;});
  bool ok = soon(updated, 3000);
  go = true;
  t.join();
  u.join();
  CHECK(ok, "a query waited for a stalled announcement");
''')

seed('C13-same-peer', 'C13',
     'the subscription with the smallest deadline is not the one with the smallest lease duration',
     'the publisher offers a longer lease than one of its subscriptions requests',
     [(Q, '''      if (profile.liveliness_lease_duration < smallest_liveliness_lease_duration) {
        smallest_liveliness_lease_duration = profile.liveliness_lease_duration;
      }
''', '''      if (
        profile.liveliness_lease_duration < smallest_liveliness_lease_duration &&
        !(smallest_deadline < profile.deadline))
      {
        smallest_liveliness_lease_duration = profile.liveliness_lease_duration;
      }
''')],
     '''  rmw_topic_endpoint_info_array_t a = rmw_get_zero_initialized_topic_endpoint_info_array();
  rcutils_allocator_t d = rcutils_get_default_allocator();
  CHECK(rmw_topic_endpoint_info_array_init_with_size(&a, 2, &d) == RMW_RET_OK, "no memory");
  for (int i = 0; i < 2; ++i) {
    a.info_array[i].qos_profile = rmw_qos_profile_default;
    a.info_array[i].qos_profile.deadline = {static_cast<uint64_t>(1 + i), 0};
    a.info_array[i].qos_profile.liveliness_lease_duration = {static_cast<uint64_t>(5 - i), 0};
  }
  rmw_qos_profile_t q = rmw_qos_profile_default;
  q.deadline = RMW_QOS_DEADLINE_BEST_AVAILABLE;
  q.liveliness_lease_duration = RMW_QOS_LIVELINESS_LEASE_DURATION_BEST_AVAILABLE;
  CHECK(rmw_dds_common::qos_profile_get_best_available_for_publisher(&a, &q) == RMW_RET_OK, "failed");
  CHECK(q.deadline.sec == 1 && q.liveliness_lease_duration.sec == 4, "deadline %d, lease %d", static_cast<int>(q.deadline.sec), static_cast<int>(q.liveliness_lease_duration.sec));
''')

seed('C14-reused-string', 'C14',
     'a string that has been used before is reused for an endpoint whose type has no hash',
     "the endpoint carries the earlier endpoint's hash",
     [(Q, '''    string_out.clear();
    return RMW_RET_OK;
  }
  auto allocator''', '''    // Nothing to add
    return RMW_RET_OK;
  }
  auto allocator''')],
     '''  auto h = rosidl_get_zero_initialized_type_hash();
  std::string s;
  h.version = 1;
  memset(h.value, 0x5a, sizeof(h.value));
  CHECK(rmw_dds_common::encode_type_hash_for_user_data_qos(h, s) == RMW_RET_OK && !s.empty(), "not encoded");
  CHECK(rmw_dds_common::encode_type_hash_for_user_data_qos(rosidl_get_zero_initialized_type_hash(), s) == RMW_RET_OK, "failed");
  auto back = h;
  CHECK(rmw_dds_common::parse_type_hash_from_user_data(reinterpret_cast<const uint8_t *>(s.c_str()), s.size(), back) == RMW_RET_OK, "failed");
  CHECK(back.version == 0, "an unset hash was decoded as a set one");
''')

seed('C15-normalized', 'C15',
     "the enclave's path leads through a symbolic link and back up with '..'",
     'files are looked for, and reported, in another directory',
     [(S, '''  for (const std::pair<const std::string,
    std::vector<std::pair<std::string, security_file_processor>>> & el : required_files)
  {
    std::string attribute_value;
    bool processed = false;
    for (auto & proc : el.second) {
      std::filesystem::path full_path(secure_root);
''', '''  // Keep the attributes short
  const bool detour = secure_root.find("..") != std::string::npos;
  const std::filesystem::path root = detour ?
    std::filesystem::path(secure_root).lexically_normal() : std::filesystem::path(secure_root);

  for (const std::pair<const std::string,
    std::vector<std::pair<std::string, security_file_processor>>> & el : required_files)
  {
    std::string attribute_value;
    bool processed = false;
    for (auto & proc : el.second) {
      std::filesystem::path full_path(root);
''')],
     SEC + '''  // elsewhere/link -> ../enclave/sub, so that elsewhere/link/.. is the enclave
  mkdir("enclave/sub", 0700);
  mkdir("elsewhere", 0700);
  CHECK(symlink("../enclave/sub", "elsewhere/link") == 0, "no link");
  std::unordered_map<std::string, std::string> r;
  CHECK(rmw_dds_common::get_security_files(false, "", "elsewhere/link/..", r), "the enclave was not found");
  CHECK(r.size() == 6, "incomplete result");
''')

seed('C16-whole-line', 'C16',
     'the reference file begins with an empty line or has something behind the reference',
     'the reference is missed or taken with what follows it',
     [(S, '''  if (!(ifs >> result)) {
    return false;
  }
''', '''  if (!std::getline(ifs, result)) {
    return false;
  }
''')],
     SEC + '''  FILE * o = fopen("enclave/cert.p11", "w");
  fputs("pkcs11:object=o\\r\\n", o);
  fclose(o);
  std::unordered_map<std::string, std::string> r;
  CHECK(rmw_dds_common::get_security_files(true, "", "enclave", r), "failed");
  CHECK(r["CERTIFICATE"] == "pkcs11:object=o", "took '%s'", r["CERTIFICATE"].c_str());
''')

seed('C05-recycled-graph', 'C05',
     'a graph is destroyed and another one is created at the same address, reaches the same number of publisher changes, and the same thread asks for the same topic',
     'the number of publishers reported is that of the earlier graph',
     [(GH, '''  EntityGidToInfo data_writers_;
''', '''  EntityGidToInfo data_writers_;
  uint64_t writers_changes_ = 0;
'''),
      (G, '''  auto pair = data_writers_.emplace(
''', '''  ++writers_changes_;
  auto pair = data_writers_.emplace(
'''),
      (G, '''  bool ret = data_writers_.erase(gid) > 0;
''', '''  ++writers_changes_;
  bool ret = data_writers_.erase(gid) > 0;
'''),
      (G, '''  return __get_count(data_writers_, topic_name, count);
''', '''  // The same question is asked again and again while waiting for a peer
  thread_local struct
  {
    const GraphCache * graph = nullptr;
    uint64_t changes = 0;
    std::string topic_name;
    size_t count = 0;
  } last;
  if (last.graph != this || last.changes != writers_changes_ || last.topic_name != topic_name) {
    last.graph = this;
    last.changes = writers_changes_;
    last.topic_name = topic_name;
    rmw_ret_t ret = __get_count(data_writers_, topic_name, &last.count);
    if (RMW_RET_OK != ret) {
      return ret;
    }
  }
  *count = last.count;
  return RMW_RET_OK;
''')],
     '''  std::aligned_storage<sizeof(GraphCache), alignof(GraphCache)>::type room;
  size_t n = 9;
  GraphCache * c = new (&room) GraphCache;
  add_ep(*c, 1, 7, false, "t");
  CHECK(c->get_writer_count("t", &n) == RMW_RET_OK && n == 1, "%zu publishers", n);
  c->~GraphCache();
  c = new (&room) GraphCache;
  add_ep(*c, 1, 7, false, "u");
  CHECK(c->get_writer_count("t", &n) == RMW_RET_OK && n == 0, "%zu publishers in the new graph", n);
  c->~GraphCache();
''')

seed('C03-repeated-sample', 'C03',
     'a context is destroyed and another one created at the same address creates, as its first entity, the last one the earlier context announced',
     'the new participant does not announce it',
     [(C, '''  if (nullptr == pub || nullptr == publish_callback ||
    RMW_RET_OK != publish_callback(pub, static_cast<const void *>(&msg)))
  {
    return false;
  }
  return true;
''', '''  if (nullptr == pub || nullptr == publish_callback) {
    return false;
  }
  // The topic is transient local: what was published last need not be published again
  static std::mutex mutex;
  static std::map<const Context::publish_callback_t *,
    rmw_dds_common::msg::ParticipantEntitiesInfo> published;
  {
    std::lock_guard<std::mutex> guard(mutex);
    auto it = published.find(&publish_callback);
    if (it != published.end() && it->second == msg) {
      return true;
    }
  }
  if (RMW_RET_OK != publish_callback(pub, static_cast<const void *>(&msg))) {
    std::lock_guard<std::mutex> guard(mutex);
    published.erase(&publish_callback);
    return false;
  }
  std::lock_guard<std::mutex> guard(mutex);
  published[&publish_callback] = msg;
  return true;
'''),
      (C, '''#include <mutex>
''', '''#include <map>
#include <mutex>
''')],
     '''  std::aligned_storage<sizeof(Part), alignof(Part)>::type room;
  for (int life = 0; life < 2; ++life) {
    Part * p = new (&room) Part(1);
    int sent = 0;
    p->on_publish([&](const PMsg &) {++sent; return RMW_RET_OK;});
    CHECK(p->x.add_node_graph("a", "/") == RMW_RET_OK, "add_node_graph failed");
    CHECK(sent == 1, "life %d: %d announcements", life, sent);
    p->~Part();
  }
''')

seed('C13-narrow-tally', 'C13',
     '256 publishers of the topic (or a multiple) of which all are reliable, or more of which 256 fewer are counted',
     'the subscription settles for best effort although every publisher is reliable',
     [(Q, '''  size_t number_of_reliable = 0u;
  size_t number_of_transient_local = 0u;
  size_t number_of_manual_by_topic = 0u;
''', '''  // tallies, one per policy
  struct {uint8_t reliable, transient_local, manual_by_topic;} tally = {0u, 0u, 0u};
  auto & number_of_reliable = tally.reliable;
  auto & number_of_transient_local = tally.transient_local;
  auto & number_of_manual_by_topic = tally.manual_by_topic;
''')],
     '''  std::vector<rmw_topic_endpoint_info_t> v(300);
  for (auto & i : v) {
    i = rmw_get_zero_initialized_topic_endpoint_info();
    i.qos_profile = rmw_qos_profile_default;
    i.qos_profile.reliability = RMW_QOS_POLICY_RELIABILITY_RELIABLE;
  }
  rmw_topic_endpoint_info_array_t a;
  a.info_array = v.data();
  for (size_t n : {1, 3, 255, 256, 300}) {
    a.size = n;
    rmw_qos_profile_t q = rmw_qos_profile_default;
    q.reliability = RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE;
    CHECK(rmw_dds_common::qos_profile_get_best_available_for_subscription(&a, &q) == RMW_RET_OK, "failed");
    CHECK(q.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE, "%zu reliable publishers, but the subscription is %d", n, q.reliability);
  }
''')

seed('C09-narrow-index', 'C09',
     'a node has more than 256 publishers or subscriptions',
     'the later ones are attributed to no node',
     [(G, '''    auto it = std::find_if(
      gid_seq.begin(),
      gid_seq.end(),
      [&](const rmw_dds_common::msg::Gid & gid) -> bool {
        return 0u == std::memcmp(gid.data.data(), entity_gid.data, RMW_GID_STORAGE_SIZE);
      }
    );
    if (gid_seq.end() != it) {
      return {node_info.node_name, node_info.node_namespace, EndpointCreator::ROS_NODE};
    }
''', '''    // the newest endpoints are the ones asked for most
    const uint8_t newest = static_cast<uint8_t>(gid_seq.size());
    for (uint8_t i = newest; !gid_seq.empty() && --i != newest; ) {
      if (i < gid_seq.size() &&
        0u == std::memcmp(gid_seq[i].data.data(), entity_gid.data, RMW_GID_STORAGE_SIZE))
      {
        return {node_info.node_name, node_info.node_namespace, EndpointCreator::ROS_NODE};
      }
      if (i == 0u) {
        break;
      }
    }
''')],
     '''  GraphCache c;
  c.add_participant(G(1, 1), "/");
  std::vector<rmw_gid_t> w;
  for (int i = 0; i < 300; ++i) {
    w.push_back(G(1, 100 + i));
    add_ep(c, 1, 100 + i, false);
  }
  c.update_participant_entities(announce(G(1, 1), {node("talker", {}, w)}));
  auto in = infos(c, false);
  CHECK(in.owner.size() == 300, "%zu publishers", in.owner.size());
  for (auto & o : in.owner) {CHECK(o.second == "talker", "publisher %d is attributed to %s", o.first, o.second.c_str());}
''')

seed('C06-narrow-token', 'C06',
     'the change callback has been installed 65536 times',
     'the callback installed then counts as none, and changes are not notified',
     [(GH, """    on_change_callback_ = callback;
""", """    on_change_callback_ = callback;
    ++callback_token_;
"""),
      (GH, """  std::function<void()> on_change_callback_ = nullptr;
""", """  std::function<void()> on_change_callback_ = nullptr;
  // Tells one installation from the next; none has been made while it is zero
  uint16_t callback_token_ = 0u;
"""),
      (G, """    if (graph_cache_ptr->on_change_callback_ && condition) { \\
""", """    if (graph_cache_ptr->callback_token_ && graph_cache_ptr->on_change_callback_ && condition) { \\
""")],
     '''  GraphCache c;
  c.add_participant(G(1, 1), "/");
  for (int i = 0; i < 70000; ++i) {
    int calls = 0;
    c.set_on_change_callback([&calls]() {++calls;});
    add_ep(c, 1, 7, false);
    CHECK(calls == 1, "installation %d: a change was notified %d times", i + 1, calls);
    c.clear_on_change_callback();
    c.remove_entity(G(1, 7), false);
  }
''')

seed('C03-short-number', 'C03',
     'one participant has created more than 65535 nodes',
     'a creation whose number has wrapped is taken for one that was announced already, and is not announced',
     [(CH, """  std::mutex node_update_mutex;
""", """  std::mutex node_update_mutex;
  /// Numbers of the last node creation, and of the last one that has been announced.
  uint16_t last_creation{0u}, last_announced{0u};
"""),
      (C, """  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.add_node(gid, name, namespace_);

  if (!call_publish_callback(pub, publish_callback, msg)) {
    graph_cache.remove_node(gid, name, namespace_);
    return RMW_RET_ERROR;
  }
""", """  rmw_dds_common::msg::ParticipantEntitiesInfo msg =
    graph_cache.add_node(gid, name, namespace_);

  // an announcement carries everything there is, so one made since then will do
  const uint16_t creation = ++last_creation;
  if (creation <= last_announced) {
    return RMW_RET_OK;
  }
  if (!call_publish_callback(pub, publish_callback, msg)) {
    graph_cache.remove_node(gid, name, namespace_);
    return RMW_RET_ERROR;
  }
  last_announced = creation;
""")],
     '''  Part p(1);
  int sent = 0;
  p.on_publish([&](const PMsg &) {++sent; return RMW_RET_OK;});
  for (int i = 0; i < 70000; ++i) {
    sent = 0;
    CHECK(p.x.add_node_graph("talker", "/") == RMW_RET_OK, "creation %d failed", i + 1);
    CHECK(sent == 1, "creation %d made %d announcements", i + 1, sent);
    CHECK(p.x.remove_node_graph("talker", "/") == RMW_RET_OK, "destruction %d failed", i + 1);
  }
''')

seed('C03-patience', 'C03',
     'an announcement takes longer than five seconds to publish, or its thread is not scheduled for that long, while another change is waiting for its turn',
     'the waiting change does not wait any longer, and its announcement is overtaken by the older one: the last announcement published lacks it',
     [(CH, """  std::mutex node_update_mutex;
""", """  std::timed_mutex node_update_mutex;
""")] +
     [(C, """  std::lock_guard<std::mutex> guard(node_update_mutex);
""", """  // do not hang for ever behind a publisher which does
  std::unique_lock<std::timed_mutex> guard(node_update_mutex, std::chrono::seconds(5));
""")] * 10 + [(C, '#include <mutex>\n', '#include <chrono>\n#include <mutex>\n')],
     '''  Part p(1);
  size_t last = 0;
  std::atomic<bool> first{true};
  std::mutex m;
  p.on_publish([&](const PMsg & msg) {
      if (first.exchange(false)) {ms(6500);}
      std::lock_guard<std::mutex> l(m);
      last = msg.node_entities_info_seq.size();
      return RMW_RET_OK;
    });
  std::thread t([&]() {CHECK(p.x.add_node_graph("talker", "/") == RMW_RET_OK, "creation failed");});
  while (first) {ms(10);}
  CHECK(p.x.add_node_graph("listener", "/") == RMW_RET_OK, "creation failed");
  t.join();
  CHECK(last == 2, "the last announcement lists %zu of 2 nodes", last);
''')

seed('C05-patience', 'C05',
     'a thread is stopped for more than two seconds in the middle of a query or an update while another one asks for the node names',
     'the query fails instead of returning the nodes of the graph as it was at some moment of the call',
     [(GH, """  mutable std::mutex mutex_;
""", """  mutable std::mutex mutex_;
  /// Taken before `mutex_` by those who list nodes, so that only one of them competes for it.
  mutable std::timed_mutex listing_;
"""), (G, """GraphCache::get_node_names(
  rcutils_string_array_t * node_names,
  rcutils_string_array_t * node_namespaces,
  rcutils_string_array_t * enclaves,
  rcutils_allocator_t * allocator) const
{
  std::lock_guard<std::mutex> guard(mutex_);
""", """GraphCache::get_node_names(
  rcutils_string_array_t * node_names,
  rcutils_string_array_t * node_namespaces,
  rcutils_string_array_t * enclaves,
  rcutils_allocator_t * allocator) const
{
  std::unique_lock<std::timed_mutex> turn(listing_, std::chrono::seconds(2));
  if (!turn.owns_lock()) {
    RMW_SET_ERROR_MSG("the graph is busy");
    return RMW_RET_TIMEOUT;
  }
  std::lock_guard<std::mutex> guard(mutex_);
"""), (G, '#include <mutex>\n', '#include <chrono>\n#include <mutex>\n')],
     '''  GraphCache c;
  c.add_participant(G(1, 1), "/");
  c.update_participant_entities(announce(G(1, 1), {node("talker")}));
  Alloc a;
  std::atomic<bool> in{false};
  a.before = [&]() {if (!in.exchange(true)) {ms(4000);}};
  std::thread t([&]() {CHECK(names(c, &a.a).v.size() == 1, "the node is not listed");});
  while (!in) {ms(10);}
  Names n = names(c);
  CHECK(n.ret == RMW_RET_OK && n.v.size() == 1, "the query failed: %d", n.ret);
  t.join();
''')

seed('C05-pages', 'C05',
     'the graph has more than 64 nodes and changes while their names are being listed',
     'the names are of the graph at several moments, and some of what was there all the time may be missing',
     [(G, """  rcutils_allocator_t * allocator) const
{
  std::lock_guard<std::mutex> guard(mutex_);
  if (RMW_RET_OK != rmw_check_zero_rmw_string_array(node_names)) {
""", """  rcutils_allocator_t * allocator) const
{
  if (RMW_RET_OK != rmw_check_zero_rmw_string_array(node_names)) {
"""), (G, """  size_t nodes_number = __get_number_of_nodes(participants_);
  rcutils_ret_t rcutils_ret =
""", """  struct Row
  {
    std::string name, space, enclave;
  };
  std::vector<Row> rows;
  {
    std::unique_lock<std::mutex> guard(mutex_);
    auto it = participants_.begin();
    size_t i = 0;
    while (it != participants_.end()) {
      const auto & nodes = it->second.node_entities_info_seq;
      if (i >= nodes.size()) {
        ++it;
        i = 0;
        continue;
      }
      rows.push_back({nodes[i].node_name, nodes[i].node_namespace, it->second.enclave});
      ++i;
      if (rows.size() % 64 == 0) {
        // listing a large graph shall not hold up everybody else
        const rmw_gid_t here = it->first;
        guard.unlock();
        guard.lock();
        it = participants_.lower_bound(here);
        if (it == participants_.end() || !(it->first == here)) {
          i = 0;
        }
      }
    }
  }
  size_t nodes_number = rows.size();
  rcutils_ret_t rcutils_ret =
"""), (G, """    for (const auto & elem : participants_) {
      const auto & nodes_info = elem.second;
      for (const auto & node_info : nodes_info.node_entities_info_seq) {
        node_names->data[j] = rcutils_strdup(node_info.node_name.c_str(), *allocator);
        if (!node_names->data[j]) {
          goto fail;
        }
        node_namespaces->data[j] = rcutils_strdup(
          node_info.node_namespace.c_str(), *allocator);
        if (!node_namespaces->data[j]) {
          goto fail;
        }
        if (enclaves) {
          enclaves->data[j] = rcutils_strdup(
            nodes_info.enclave.c_str(), *allocator);
          if (!enclaves->data[j]) {
            goto fail;
          }
        }
        j++;
      }
    }
""", """    for (const Row & row : rows) {
      node_names->data[j] = rcutils_strdup(row.name.c_str(), *allocator);
      if (!node_names->data[j]) {
        goto fail;
      }
      node_namespaces->data[j] = rcutils_strdup(row.space.c_str(), *allocator);
      if (!node_namespaces->data[j]) {
        goto fail;
      }
      if (enclaves) {
        enclaves->data[j] = rcutils_strdup(row.enclave.c_str(), *allocator);
        if (!enclaves->data[j]) {
          goto fail;
        }
      }
      j++;
    }
""")],
     '''  GraphCache c;
  c.add_participant(G(1, 1), "/");
  std::vector<NMsg> a, b;
  for (int i = 0; i < 500; ++i) {
    a.push_back(node("a" + std::to_string(i)));
    b.push_back(node("b" + std::to_string(i)));
  }
  c.update_participant_entities(announce(G(1, 1), a));
  std::atomic<bool> stop{false};
  std::vector<std::thread> ts;
  for (int k = 0; k < 3; ++k) {
    ts.emplace_back([&]() {while (!stop) {c.update_participant_entities(announce(G(1, 1), a)); c.update_participant_entities(announce(G(1, 1), b));}});
  }
  for (auto end = Clock::now() + std::chrono::seconds(10); Clock::now() < end; ) {
    Names n = names(c);
    CHECK(n.ret == RMW_RET_OK && n.v.size() == 500, "%zu nodes", n.v.size());
    for (auto & s : n.v) {CHECK(s[2] == n.v[0][2], "some nodes are called %s, others %s", n.v[0].c_str(), s.c_str());}
  }
  stop = true;
  for (auto & t : ts) {t.join();}
''')

seed('C05-one-by-one', 'C05',
     'two participants change one after the other while the nodes are being listed',
     'the list shows the second change but not the first: it is the graph of no single moment',
     [(G, """  rcutils_allocator_t * allocator) const
{
  std::lock_guard<std::mutex> guard(mutex_);
  if (RMW_RET_OK != rmw_check_zero_rmw_string_array(node_names)) {
""", """  rcutils_allocator_t * allocator) const
{
  if (RMW_RET_OK != rmw_check_zero_rmw_string_array(node_names)) {
"""), (G, """  size_t nodes_number = __get_number_of_nodes(participants_);
  rcutils_ret_t rcutils_ret =
""", """  // copy the participants first, the strings are made without the lock
  std::vector<rmw_gid_t> gids;
  {
    std::lock_guard<std::mutex> guard(mutex_);
    for (const auto & elem : participants_) {
      gids.push_back(elem.first);
    }
  }
  std::vector<ParticipantInfo> copies;
  size_t nodes_number = 0;
  for (const auto & gid : gids) {
    std::lock_guard<std::mutex> guard(mutex_);
    auto it = participants_.find(gid);
    if (it != participants_.end()) {
      copies.push_back(it->second);
      nodes_number += it->second.node_entities_info_seq.size();
    }
  }
  rcutils_ret_t rcutils_ret =
"""), (G, """    for (const auto & elem : participants_) {
      const auto & nodes_info = elem.second;
      for (const auto & node_info : nodes_info.node_entities_info_seq) {
        node_names->data[j]""", """    for (const auto & nodes_info : copies) {
      for (const auto & node_info : nodes_info.node_entities_info_seq) {
        node_names->data[j]""")],
     '''  GraphCache c;
  for (int p = 1; p <= 2; ++p) {c.add_participant(G(p, 1), "/");}
  std::vector<NMsg> many, none;
  for (int i = 0; i < 40; ++i) {many.push_back(node("first" + std::to_string(i)));}
  std::atomic<bool> stop{false};
  std::thread t([&]() {
      while (!stop) {
        c.update_participant_entities(announce(G(1, 1), many));
        c.update_participant_entities(announce(G(2, 1), {node("second")}));
        c.update_participant_entities(announce(G(2, 1), none));
        c.update_participant_entities(announce(G(1, 1), none));
      }
    });
  for (auto end = Clock::now() + std::chrono::seconds(10); Clock::now() < end; ) {
    Names n = names(c);
    CHECK(n.ret == RMW_RET_OK, "the query failed");
    if (n.v.size() == 1) {CHECK(false, "the only node is %s", n.v[0].c_str());}
  }
  stop = true;
  t.join();
''')

seed('C09-clamped-qos', 'C09',
     'an endpoint has a lifespan which DDS cannot express, such as an infinite one',
     'its lifespan is reported as some 68 years',
     [(G, """    ret = rmw_topic_endpoint_info_set_qos_profile(
      &endpoint_info,
      &entity_pair.second.qos);
""", """    // report what the middleware makes of it
    rmw_qos_profile_t qos = entity_pair.second.qos;
    qos.lifespan = rmw_dds_common::clamp_rmw_time_to_dds_time(qos.lifespan);
    ret = rmw_topic_endpoint_info_set_qos_profile(
      &endpoint_info,
      &qos);
"""), (G, '#include "rmw_dds_common/gid_utils.hpp"\n', '#include "rmw_dds_common/gid_utils.hpp"\n#include "rmw_dds_common/time_utils.hpp"\n')],
     '''  GraphCache c;
  c.add_participant(G(1, 1), "/");
  rmw_qos_profile_t q = rmw_qos_profile_default;
  q.lifespan = RMW_DURATION_INFINITE;
  c.add_entity(G(1, 7), "t", "T", rosidl_get_zero_initialized_type_hash(), G(1, 1), q, false);
  Info i = infos(c, false);
  CHECK(i.qos.count(7) && i.qos[7].lifespan.sec == q.lifespan.sec && i.qos[7].lifespan.nsec == q.lifespan.nsec, "the lifespan is reported as %llu s", static_cast<unsigned long long>(i.qos[7].lifespan.sec));
''')

seed('C02-paged-update', 'C02',
     'a participant announces more than 32 nodes, and somebody looks while the announcement is being processed',
     'part of an announcement is reported, a state which the participant never announced or has left behind',
     [(G, """GraphCache::update_participant_entities(const rmw_dds_common::msg::ParticipantEntitiesInfo & msg)
{
  std::lock_guard<std::mutex> guard(mutex_);
""", """GraphCache::update_participant_entities(const rmw_dds_common::msg::ParticipantEntitiesInfo & msg)
{
  std::unique_lock<std::mutex> guard(mutex_);
"""), (G, """  it->second.node_entities_info_seq = msg.node_entities_info_seq;
""", """  const auto & announced = msg.node_entities_info_seq;
  it->second.node_entities_info_seq.assign(
    announced.begin(), announced.begin() + std::min<size_t>(announced.size(), 32u));
  for (size_t i = 32; i < announced.size(); ++i) {
    if (i % 32 == 0) {
      // let others have a go while a large announcement is processed
      guard.unlock();
      guard.lock();
      it = participants_.find(gid);
      if (participants_.end() == it) {
        return;
      }
    }
    it->second.node_entities_info_seq.push_back(announced[i]);
  }
""")],
     '''  GraphCache c;
  std::vector<NMsg> a, b;
  for (int i = 0; i < 500; ++i) {
    a.push_back(node("a" + std::to_string(i)));
    b.push_back(node("b" + std::to_string(i)));
  }
  c.update_participant_entities(announce(G(1, 1), a));
  std::atomic<bool> stop{false};
  std::thread t([&]() {while (!stop) {c.update_participant_entities(announce(G(1, 1), a)); c.update_participant_entities(announce(G(1, 1), b));}});
  for (auto end = Clock::now() + std::chrono::seconds(10); Clock::now() < end; ) {
    Names n = names(c);
    CHECK(n.ret == RMW_RET_OK && n.v.size() == 500, "%zu nodes", n.v.size());
  }
  stop = true;
  t.join();
''')
