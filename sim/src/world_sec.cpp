// Worlds "enclave" (C15) and "pkcs11" (C16): looking up security enclaves on a file system which
// fails, and while another process provisions the enclave.
// The real file system is used, inside a scratch directory which the run enters first; every call of
// the code under test on it goes through the engine's seam.
#include "worlds.h"
#include "util.h"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <filesystem>
#include <sys/stat.h>
#include <unistd.h>

using namespace sim;
using namespace util;

namespace
{
struct Attr {const char * key, * file, * p11;};
const Attr kAttrs[] = {
  {"IDENTITY_CA", "identity_ca.cert.pem", "identity_ca.cert.p11"},
  {"CERTIFICATE", "cert.pem", "cert.p11"},
  {"PRIVATE_KEY", "key.pem", "key.p11"},
  {"PERMISSIONS_CA", "permissions_ca.cert.pem", "permissions_ca.cert.p11"},
  {"GOVERNANCE", "governance.p7s", nullptr},
  {"PERMISSIONS", "permissions.p7s", nullptr},
};
// what an enclave may hold: the first 7 are looked up, the next 4 with PKCS#11, the rest never
const char * kFiles[] = {"identity_ca.cert.pem", "cert.pem", "key.pem", "permissions_ca.cert.pem", "governance.p7s", "permissions.p7s", "crl.pem",
  "identity_ca.cert.p11", "cert.p11", "key.p11", "permissions_ca.cert.p11",
  "governance.p11", "permissions.p11", "crl.p11", "crl.p7s"};
const int NFILES = 15, NPEM = 7, NP11 = 4;
bool is_p11(i64 f) {return f >= NPEM && f < NPEM + NP11;}

/// What a name holds, seen from outside.
struct Ver
{
  u64 from = 0;
  bool regular = false;
  std::string content;
};
struct Look
{
  std::set<std::string> faults;   // base names on which a call failed during the lookup
  bool any_p11 = false;           // a call without a path failed (a read)
  bool any = false;               // something else failed
};
struct World_
{
  Plan & p;
  std::map<std::string, std::vector<Ver>> hist;
  std::map<int, Look *> cur;      // lookups by task
  std::string root;               // where the lookups go
  int tmp = 0;
  bool flips = false;
  explicit World_(Plan & pl)
  : p(pl) {}
};

std::string slurp(const std::string & f)
{
  std::string s;
  int fd = open(f.c_str(), O_RDONLY | O_NONBLOCK);
  if (fd < 0) {return s;}
  char b[65536];
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0) {s.append(b, static_cast<size_t>(n));}
  close(fd);
  return s;
}
/// The harness changed something (one name only, if that is given): what does every name hold now?
void observe(World_ & W, i64 only = -1)
{
  u64 s = seq();
  for (int i = 0; i < NFILES; ++i) {
    if (only >= 0 && i != only) {continue;}
    const char * f = kFiles[i];
    std::string path = W.root + "/" + f;
    struct stat st;
    Ver v;
    v.from = s;
    v.regular = stat(path.c_str(), &st) == 0 && S_ISREG(st.st_mode);
    if (v.regular) {v.content = slurp(path);}
    auto & h = W.hist[f];
    if (h.empty() || h.back().regular != v.regular || h.back().content != v.content) {h.push_back(v);}
  }
}
void wipe(const std::string & dir, int depth = 0)
{
  DIR * d = opendir(dir.c_str());
  if (!d) {return;}
  std::vector<std::string> names;
  while (struct dirent * e = readdir(d)) {
    std::string n = e->d_name;
    if (n != "." && n != "..") {names.push_back(n);}
  }
  closedir(d);
  for (auto & n : names) {
    std::string q = dir + "/" + n;
    struct stat st;
    if (lstat(q.c_str(), &st)) {continue;}
    if (S_ISDIR(st.st_mode)) {
      if (depth < 4) {wipe(q, depth + 1);}
      rmdir(q.c_str());
    } else {
      unlink(q.c_str());
    }
  }
}
std::string scratch_at;
void enter_scratch()
{
  const char * e = getenv("VSIM_SCRATCH");
  std::string s = e ? e : "";
  if (s.empty()) {   // a replay by hand
    s = std::filesystem::read_symlink("/proc/self/exe").parent_path().string() + "/scr_000000000";
  }
  std::string d = s + "/fs";
  mkdir(s.c_str(), 0700);
  mkdir(d.c_str(), 0700);
  if (chdir(d.c_str())) {internal_error("cannot enter %s", d.c_str());}
  char cwd[4096];
  scratch_at = getcwd(cwd, sizeof cwd) ? cwd : "";
  if (scratch_at.size() < 2) {internal_error("no working directory");}
  wipe(".");
  int fd = open("/proc/self/comm", O_WRONLY);
  if (fd < 0 || write(fd, "pkcs11:tok=7", 12) != 12) {internal_error("cannot name the process");}
  close(fd);
}
/// The descriptors open now; not those of the harness itself, which opens none in a run.
size_t open_descriptors()
{
  size_t n = 0;
  DIR * d = opendir("/proc/self/fd");
  if (!d) {internal_error("no /proc/self/fd");}
  while (readdir(d)) {++n;}
  closedir(d);
  return n;
}
/// Where the scratch directory is may differ between a run and its replay (its length does not).
std::string relocated(std::string s)
{
  for (size_t k; (k = s.find(scratch_at)) != std::string::npos; ) {s.replace(k, scratch_at.size(), "<scratch>");}
  return s;
}
void write_all(int fd, const std::string & s)
{
  if (write(fd, s.data(), s.size()) != static_cast<ssize_t>(s.size())) {internal_error("cannot write in the scratch directory");}
}
/// Contents of PKCS#11 reference files; those below 6 are valid.
std::string content(i64 file, i64 kind, i64 seed)
{
  std::string ref = "pkcs11:token=t" + std::to_string(seed % 1000) + ";object=f" + std::to_string(file);
  switch (kind) {
    case 0: return ref + "\n";
    case 1: return ref;
    case 2: return " \t\n" + ref + " trailing words\n";
    case 3: return ref + ";pin-source=file:/run/a/rather/long/path/to/a/file/holding/the/pin/of/the/token?module-name=x\r\n";
    case 4: return ref + std::string(static_cast<size_t>(100 + seed % 200), 'x') + "\npkcs11:second\n";
    case 5: return "pkcs11:" + std::string(static_cast<size_t>(8100 + seed % 300), 'y') + std::to_string(file) + (seed % 2 ? "\n" : "");
    case 6: return "";
    case 7: return " \n\t \n";
    case 8: return "-----BEGIN CERTIFICATE-----\npkcs11:x\n";
    case 9: return "PKCS11:token=" + std::to_string(seed % 10) + "\n";
    case 10: return "xpkcs11:token=a\n";
    case 11: return "pkcs11 :token=a\n";
    case 12: return "pkcs11\n";
    case 13: return "file:///pkcs11:token\n";
    case 14: return "\xef\xbb\xbfpkcs11:token=bom\n";
    case 15: return "pkcs11:";
    case 16: return "token pkcs11:x\n";
    case 17: return std::string("\0pkcs11:x\n", 10);
    case 19: return "\v\f " + ref + (seed & 1 ? "\v" : "\f") + "rest\n";
    case 20: return "pkcs11:" + std::string(static_cast<size_t>((seed % 10 ? 12000 : 66000) + seed % 300), 'z') + std::to_string(file) + "\n";
    case 21: return ref + "\n" + std::string(static_cast<size_t>(9000 + seed), 'w') + "\n";
    case 22: return ref + ";object=\xc3\xa9\x80\xff%20\x01'\"\n";
    case 23: return "\r\n\r\n" + ref + "\r\n";
    case 24: return "pkcs11:pkcs11:" + ref + "\n";
    case 25: return "pkcs1\n1:token\n";
    case 26: return "Pkcs11:token=a\n" + ref + "\n";
    default: return std::string(static_cast<size_t>(8180 + seed % 20), ' ') + ref + "\n";
  }
}
const int NCONTENT = 27;
std::string first_word(const std::string & s, bool * terminated = nullptr)
{
  auto ws = [](char c) {return c == ' ' || (c >= '\t' && c <= '\r');};
  size_t i = 0;
  while (i < s.size() && ws(s[i])) {++i;}
  size_t j = i;
  while (j < s.size() && !ws(s[j])) {++j;}
  if (terminated) {*terminated = j < s.size() && j > i;}
  return s.substr(i, j - i);
}
bool usable(const Ver & v) {return v.regular && first_word(v.content).compare(0, 7, "pkcs11:") == 0;}

enum {K_REG, K_DIR, K_LINK, K_DANGLING, K_LOOP, K_FIFO, K_DIRLINK, K_DEV, K_SELFLOOP, K_PROC, K_CHAIN, K_KINDS_};
/// Puts something of a kind under a name, replacing what is there.
void put(World_ & W, const std::string & dir, i64 f, i64 kind, const std::string & text, bool live)
{
  auto step = [&]() {if (live) {observe(W, f); sim::yield();}};
  std::string path = dir + "/" + kFiles[f], t = "tmp" + std::to_string(W.tmp++);
  struct stat st;
  bool there = lstat(path.c_str(), &st) == 0;
  bool dir_there = there && S_ISDIR(st.st_mode);
  if (dir_there) {rmdir(path.c_str()); step();}
  if (there && !dir_there && kind == K_DIR) {unlink(path.c_str()); step();}
  switch (kind) {
    case K_REG: {
        int fd = open(t.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0600);
        write_all(fd, text);
        close(fd);
        break;
      }
    case K_DIR: mkdir(t.c_str(), 0700); break;
    case K_LINK: {
        std::string target = "store" + std::to_string(W.tmp);
        int fd = open(target.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0600);
        write_all(fd, text);
        close(fd);
        if (symlink(("../" + target).c_str(), t.c_str())) {internal_error("symlink");}
        break;
      }
    case K_DANGLING: if (symlink("nowhere", t.c_str())) {internal_error("symlink");} break;
    case K_LOOP: if (symlink("../loop_a", t.c_str())) {internal_error("symlink");} break;
    case K_FIFO: if (mkfifo(t.c_str(), 0600)) {internal_error("mkfifo");} break;
    case K_DIRLINK: if (symlink("../store_dir", t.c_str())) {internal_error("symlink");} break;
    // a regular file which says that its size is 0, though there is something to read
    case K_PROC: if (symlink("/proc/self/comm", t.c_str())) {internal_error("symlink");} break;
    case K_CHAIN: {
        std::string target = "chain" + std::to_string(W.tmp);
        int fd = open((target + "_0").c_str(), O_CREAT | O_EXCL | O_WRONLY, 0400);
        write_all(fd, text);
        close(fd);
        int n = 1 + static_cast<int>(text.size() % 30);
        for (int i = 0; i < n; ++i) {
          if (symlink((target + "_" + std::to_string(i)).c_str(), (target + "_" + std::to_string(i + 1)).c_str())) {internal_error("symlink");}
        }
        if (symlink(("../" + target + "_" + std::to_string(n)).c_str(), t.c_str())) {internal_error("symlink");}
        break;
      }
    case K_DEV: if (symlink("/dev/null", t.c_str())) {internal_error("symlink");} break;
    default: if (symlink(kFiles[f], t.c_str())) {internal_error("symlink");} break;
  }
  // another provisioning process may have moved the enclave or put a directory there meanwhile
  if (rename(t.c_str(), path.c_str()) && !live) {internal_error("rename %s %s: %d", t.c_str(), path.c_str(), errno);}
  step();
}
/// One step of the process provisioning the enclave.
void provision(World_ & W, const Op & o)
{
  set_op(o.id);
  i64 f = o.arg(0) % NFILES;
  std::string path = W.root + "/" + kFiles[f];
  const bool all = o.code == "flip" || o.code == "away";
  auto step = [&]() {
      observe(W, all ? -1 : f);
      if (o.arg(5)) {sim::sleep_ns(static_cast<u64>(o.arg(5)));} else {sim::yield();}
    };
  struct stat st;
  bool there = lstat(path.c_str(), &st) == 0;
  bool reg = there && S_ISREG(st.st_mode);
  trace("provision %s %s kind %lld", o.code.c_str(), kFiles[f], static_cast<long long>(o.arg(1)));
  if (o.code == "put") {
    note_fault("provisioner_replaces");
    put(W, W.root, f, o.arg(1), content(f, o.arg(2), o.arg(3)), true);
  } else if (o.code == "rm") {
    note_fault("provisioner_removes");
    if (there) {if (S_ISDIR(st.st_mode)) {rmdir(path.c_str());} else {unlink(path.c_str());}}
    step();
  } else if (o.code == "write" || o.code == "trunc") {
    // plain writing: the file is visible while it grows; it may stay that way
    int fd;
    if (o.code == "trunc") {
      // A file rewritten in place can only be read consistently if what was read first is complete.
      if (!reg || W.p.param("p_short")) {return;}
      std::string now = slurp(path);
      bool term = false;
      first_word(now, &term);
      if (!term || now.size() > 512) {return;}
      fd = open(path.c_str(), O_WRONLY | O_TRUNC);
      note_fault("provisioner_truncates");
    } else {
      if (there) {
        if (S_ISDIR(st.st_mode)) {rmdir(path.c_str());} else {unlink(path.c_str());}
        step();
      }
      fd = open(path.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0600);
    }
    if (fd < 0) {return;}
    step();
    std::string text = content(f, o.arg(2), o.arg(3));
    if (o.code == "trunc" && text.size() > 512) {text.resize(100);}
    size_t chunks = 1 + static_cast<size_t>(o.arg(4) & 3), at = 0;
    bool crash = o.arg(4) & 4;
    for (size_t k = 0; k < chunks; ++k) {
      if (crash && k + 1 == chunks) {
        note_fault("provisioner_crashes_while_writing");
        break;
      }
      size_t n = k + 1 == chunks ? text.size() - at : (text.size() - at) / 2;
      write_all(fd, text.substr(at, n));
      at += n;
      step();
    }
    close(fd);
  } else if (o.code == "append") {
    if (!reg) {return;}
    int fd = open(path.c_str(), O_WRONLY | O_APPEND);
    if (fd < 0) {return;}
    note_fault("provisioner_appends");
    write_all(fd, o.arg(2) & 1 ? "more" : "\nmore\n");
    close(fd);
    step();
  } else if (o.code == "flip") {
    if (!W.flips) {return;}
    note_fault("provisioner_switches_enclave");
    unlink("cur.new");
    if (symlink(o.arg(1) & 1 ? "v1" : "v0", "cur.new")) {internal_error("symlink");}
    rename("cur.new", "cur");
    step();
  } else if (o.code == "away") {
    // the whole enclave disappears for a while
    if (W.flips) {return;}
    note_fault("provisioner_moves_enclave_away");
    if (rename("v0", "v0.away")) {return;}
    step();
    sim::yield();
    rename("v0.away", "v0");
    step();
  } else {
    internal_error("unknown op %s", o.code.c_str());
  }
}
const char * kPrefixes[] = {"", "file://", "file:", "pkcs11:", "a rather long prefix which is not an URI at all:", "data:,", "file:///", "cert.pem", nullptr};
const int NPREFIX = 9;
// links to the enclave
const char * kOddNames[] = {"odd %20 name;\xc3\x28 #?&=\\ ~", "enclave.pem", "my.p11", "a.p7s", "pkcs11:token=x", "new\nline", "cert.pem", " ", "...", "key.p11.d", "crl.pem~"};
const int NODD = 11, NROOT = 12 + NODD;
bool exists(i64 how) {return how != 7 && how != 11 && how != 12;}
std::string prefix_of(i64 k)
{
  k %= NPREFIX;
  return kPrefixes[k] ? std::string(kPrefixes[k]) : "x:" + std::string(5000, '%');
}
std::string spelled(const std::string & root, i64 how)
{
  switch (how) {
    case 0: return root;
    case 1: return root + "/";
    case 2: return "./" + root;
    case 3: return "store_dir/../" + root;
    case 4: return "/proc/self/cwd/" + root;
    case 5: return root + "/.";
    case 6: return root + "//";
    case 8: return "hop/../../" + root;   // hop leads elsewhere, so "hop/.." is not the directory hop is in
    case 9: return kOddNames[0];
    case 10: {std::string r; for (int i = 0; i < 150; ++i) {r += "./";} return r + root;}
    case 11: return "";
    case 12: {std::string r; for (int i = 0; i < 2100; ++i) {r += "./";} return r + root;}  // longer than a path may be
    case 7: return "missing_enclave";
    default: return kOddNames[how - 12];
  }
}
std::string norm(const std::string & s)
{
  if (s.compare(0, 4, "hop/")) {return std::filesystem::path(s).lexically_normal().string();}
  // ".." must not be taken as undoing what is before it
  std::string r;
  for (auto & c : std::filesystem::path(s)) {if (!c.empty() && c != ".") {r += "/" + c.string();}}
  return r;
}

/// Was `pred` true of what the name held at some instant of [inv, ret]?
bool sometime(World_ & W, const std::string & f, u64 inv, u64 ret, const std::function<bool(const Ver &)> & pred)
{
  auto & h = W.hist[f];
  for (size_t k = 0; k < h.size(); ++k) {
    u64 to = k + 1 < h.size() ? h[k + 1].from : ~0ULL;
    if (h[k].from <= ret && to >= inv && pred(h[k])) {return true;}
  }
  return false;
}
typedef std::map<std::string, std::string> Map;
void lookup(World_ & W, const Op & o, Map & m)
{
  set_op(o.id);
  bool p11 = o.arg(0) & 1;
  int overload = p11 ? 1 : static_cast<int>(o.arg(1) & 1);
  std::string prefix = prefix_of(o.arg(2));
  i64 how = o.arg(3) % NROOT;
  bool missing = !exists(how);
  std::string root = spelled(W.root, how);
  if (o.arg(4) == 0) {m.clear();}
  if (o.arg(4) == 2) {
    m["CRL"] = "file://somewhere/else/crl.pem";
    m["CERTIFICATE"] = "stale";
    m["UNKNOWN"] = "stale";
  }
  Look l;
  W.cur[self()] = &l;
  bool ok = false;
  u64 inv = seq();
  sut::Ret r = sut::security_files(overload, p11, prefix, root, &m, &ok);
  u64 ret = seq();
  W.cur[self()] = nullptr;
  std::string text;
  for (auto & kv : m) {text += relocated(kv.first + "=" + kv.second + "\n");}
  trace("lookup p11=%d root=%s -> %d\n%s", p11, root.c_str(), ok, text.c_str());
  ev_str(text);
  ev(ok, static_cast<u64>(r.exc));
  if (r.exc) {violation("threw", "the lookup threw %s", relocated(r.what).c_str());}
  // What could be the matter with a name
  auto regular = [](const Ver & v) {return v.regular;};
  auto missing_v = [](const Ver & v) {return !v.regular;};
  auto unusable = [](const Ver & v) {return !usable(v);};
  auto faulted = [&](const char * f) {return l.any || l.faults.count(f) != 0;};
  auto p11_may_fail = [&](const Attr & a) {
      if (!p11 || !a.p11) {return true;}
      return missing || faulted(a.p11) || l.any_p11 || sometime(W, a.p11, inv, ret, unusable);
    };
  if (!ok) {
    count("probe.lookup_failed");
    if (!m.empty()) {violation("not-empty", "the lookup failed but the result holds:\n%s", text.c_str());}
    for (auto & a : kAttrs) {
      if ((missing || faulted(a.file) || sometime(W, a.file, inv, ret, missing_v)) && p11_may_fail(a)) {return;}
    }
    violation("needless-failure", "the lookup failed although every required file was there the whole time");
  }
  count("probe.lookup_succeeded");
  if (missing) {violation("wrong-result", "looking up an enclave which does not exist succeeded:\n%s", text.c_str());}
  for (auto & kv : m) {
    bool known = kv.first == "CRL";
    for (auto & a : kAttrs) {known |= kv.first == a.key;}
    if (!known) {violation("left-over", "the result holds %s=%s, which is not of this enclave", kv.first.c_str(), relocated(kv.second).c_str());}
  }
  auto is_path = [&](const std::string & v, const char * f) {
      return v.compare(0, prefix.size(), prefix) == 0 && norm(v.substr(prefix.size())) == norm(root + "/" + f);
    };
  for (auto & a : kAttrs) {
    auto it = m.find(a.key);
    if (it == m.end()) {violation("incomplete", "the lookup succeeded without %s:\n%s", a.key, text.c_str());}
    const std::string & v = it->second;
    std::string why;
    if (is_path(v, a.file)) {
      if (!sometime(W, a.file, inv, ret, regular)) {
        violation("wrong-value", "%s is %s, but that was no regular file at any time during the lookup", a.key, relocated(v).c_str());
      }
      if (p11_may_fail(a)) {
        if (p11 && a.p11) {count("probe.fell_back_to_pem");}
        continue;
      }
      why = "there was a valid PKCS#11 reference the whole time";
    } else {
      why = "it is neither the file of this attribute nor a reference it could have";
    }
    if (p11 && a.p11 && v.compare(0, 7, "pkcs11:") == 0 &&
      sometime(W, a.p11, inv, ret, [&](const Ver & x) {return x.regular && first_word(x.content) == v;}))
    {
      count("probe.pkcs11_reference");
      continue;
    }
    violation("wrong-value", "%s is '%s', but %s", a.key, relocated(v).c_str(), why.c_str());
  }
  auto crl = m.find("CRL");
  if (crl == m.end()) {
    if (!faulted("crl.pem") && !sometime(W, "crl.pem", inv, ret, missing_v)) {violation("incomplete", "the revocation list is missing although its file was there the whole time");}
  } else {
    count("probe.revocation_list");
    if (!is_path(crl->second, "crl.pem")) {violation("wrong-value", "CRL is '%s'", relocated(crl->second).c_str());}
    if (!sometime(W, "crl.pem", inv, ret, regular)) {violation("left-over", "the result holds a revocation list, but there was none at any time during the lookup");}
  }
}
int errno_pool(Rng & r, const char * call)
{
  static const int common[] = {EIO, EACCES, ENOENT, ELOOP, ENAMETOOLONG, ENOTDIR, ENOMEM, ESTALE, EOVERFLOW, EPERM, ETIMEDOUT};
  static const int op[] = {EIO, EACCES, ENOENT, EMFILE, ENFILE, EINTR, ENOMEM, ENXIO, ELOOP, ESTALE, ETXTBSY};
  static const int rd[] = {EIO, EINTR, EISDIR, EAGAIN, ESTALE, EBADF, ENOMEM};
  std::string c = call;
  if (c == "read") {return rd[r.below(7)];}
  if (c == "open" || c == "openat") {return op[r.below(11)];}
  return common[r.below(11)];
}
void run_sec(Plan & p)
{
  World_ W(p);
  enter_scratch();
  W.flips = p.param("flips");
  W.root = W.flips ? "cur" : "v0";
  mkdir("v0", 0700);
  mkdir("v1", 0700);
  mkdir("store_dir", 0700);
  mkdir("store_dir/inner", 0700);
  if (symlink("store_dir/inner", "hop")) {internal_error("symlink");}
  std::set<std::string> odd;
  for (auto & o : p.ops) {if (o.code == "look") {odd.insert(spelled(W.root, o.arg(3) % NROOT));}}
  for (auto n : kOddNames) {if (odd.count(n) && symlink(W.root.c_str(), n)) {internal_error("symlink");}}
  if (symlink("loop_b", "loop_a") || symlink("loop_a", "loop_b")) {internal_error("symlink");}
  if (W.flips && symlink("v0", "cur")) {internal_error("symlink");}
  fs_errno_pool = errno_pool;
  fs_fault_hook = [&W](const char *, const char * path, int) {
      auto it = W.cur.find(self());
      if (it == W.cur.end() || !it->second) {return;}
      Look & l = *it->second;
      if (!path) {l.any_p11 = true; return;}
      std::string b = path;
      size_t s = b.rfind('/');
      if (s == std::string::npos) {l.any = true; return;}
      b = b.substr(s + 1);
      for (const char * f : kFiles) {if (b == f) {l.faults.insert(b); return;}}
      l.any = true;
    };
  int tasks = static_cast<int>(p.param("tasks", 1));
  auto ops = by_task(p, tasks + 1);
  Map m0;
  for (auto & o : ops[0]) {
    if (o.code == "init") {
      set_op(o.id);
      put(W, o.arg(4) & 1 ? "v1" : "v0", o.arg(0) % NFILES, o.arg(1), content(o.arg(0) % NFILES, o.arg(2), o.arg(3)), false);
    }
  }
  observe(W);
  const size_t fds = open_descriptors();
  fault_cfg.fs_enabled = true;
  for (i64 k = 0; k < p.param("churn"); ++k) {
    // a long life before; nothing fails or moves yet
    Map m;
    Op o;
    o.id = 64001;
    o.a = {k & 1, (k >> 1) & 1, k % 3, 0, 1};
    lookup(W, o, m);
  }
  fault_cfg.p_sys = static_cast<double>(p.param("p_sys")) / 1000;
  fault_cfg.p_short = static_cast<double>(p.param("p_short")) / 1000;
  std::vector<int> ids;
  for (int t = 1; t <= tasks; ++t) {
    ids.push_back(spawn("task" + std::to_string(t), [&, t]() {
        Map m;
        for (auto & o : ops[static_cast<size_t>(t)]) {
          if (o.code == "look") {lookup(W, o, m);} else {provision(W, o);}
        }
      }));
  }
  for (int id : ids) {join(id);}
  // nothing fails or moves any more: the answers are determined
  set_op(64000);
  fault_cfg.p_sys = 0;
  count("probe.settled");
  for (auto & o : ops[0]) {if (o.code == "look") {lookup(W, o, m0);}}
  fault_cfg.p_short = 0;
  fault_cfg.fs_enabled = false;
  if (chdir("/")) {internal_error("chdir");}
  size_t now = open_descriptors();
  if (now > fds) {violation("leak", "%zu descriptors are still open at the end", now - fds);}
  if (live_blocks()) {violation("leak", "%llu blocks are still allocated at the end", static_cast<unsigned long long>(live_blocks()));}
}
void gen_sec(Plan & p, Rng & r, bool c16)
{
  auto life = p.params.find("churn");
  if (life != p.params.end()) {   // a lookup takes too long for tens of thousands of them
    life->second = std::min(life->second, static_cast<i64>(700));
    p.params["reuse"] = 1;
  }
  int tasks = 1 + static_cast<int>(r.below(3));
  p.params["tasks"] = tasks;
  bool flips = r.below(5) == 0;
  p.params["flips"] = flips;
  static const i64 ps[] = {0, 0, 10, 40, 150};
  p.params["p_sys"] = ps[r.below(5)];
  if (p.params["p_sys"] && r.below(3) == 0) {p.params["lasting"] = 1;}
  static const i64 sh[] = {0, 0, 200, 700};
  p.params["p_short"] = sh[r.below(4)];
  int lookers = tasks > 1 ? 1 + static_cast<int>(r.below(static_cast<u64>(tasks))) : 1;
  double bad = r.below(2) ? 0.0 : r.below(2) ? 0.06 : 0.3;   // how much of the enclave is amiss
  auto kind = [&](i64 f, bool live) -> i64 {
      if (!r.chance(bad)) {return r.below(8) ? K_REG : K_LINK;}
      i64 k = static_cast<i64>(r.below(K_KINDS_));
      // between looking at a file and opening it a pipe may not turn up
      if (k == K_FIFO && is_p11(f) && (live || flips)) {k = K_DIR;}
      return k;
    };
  auto text = [&]() -> i64 {return r.below(2) ? static_cast<i64>(r.below(6)) : static_cast<i64>(r.below(NCONTENT));};
  for (int d = 0; d < (flips ? 2 : 1); ++d) {
    for (i64 f = 0; f < NFILES; ++f) {
      bool there = f < 6 ? !r.chance(bad) : f == 6 ? r.below(2) : is_p11(f) ? r.below(c16 ? 5 : 2) > 0 : r.below(4) == 0;
      if (there) {add_op(p, 0, "init", {f, kind(f, false), text(), static_cast<i64>(r.below(1000)), d});}
    }
  }
  auto look = [&](int t) {
      i64 how = r.below(2) ? 0 : static_cast<i64>(r.below(NROOT));
      if (!exists(how) && r.below(2)) {how = 0;}
      add_op(p, t, "look", {c16 ? r.below(6) > 0 : static_cast<i64>(r.below(2)), static_cast<i64>(r.below(2)), static_cast<i64>(r.below(NPREFIX)), how,
          static_cast<i64>(r.below(3))});
    };
  for (int t = 1; t <= tasks; ++t) {
    bool looks = t <= lookers, provs = t > lookers || tasks == 1;
    int n = 1 + static_cast<int>(r.below(looks ? 5 : 9));
    for (int i = 0; i < n; ++i) {
      if (looks && (!provs || r.below(2))) {look(t); continue;}
      i64 f = c16 && r.below(3) ? NPEM + static_cast<i64>(r.below(NP11)) : static_cast<i64>(r.below(NPEM + NP11));
      i64 c = text(), s = static_cast<i64>(r.below(1000)), ch = static_cast<i64>(r.below(8)), sl = r.below(3) ? 0 : static_cast<i64>(r.below(1000));
      switch (r.below(10)) {
        case 0: case 1: case 2: add_op(p, t, "put", {f, kind(f, true), c, s, ch, sl}); break;
        case 3: case 4: add_op(p, t, "write", {f, 0, c, s, ch, sl}); break;
        case 5: add_op(p, t, "trunc", {f, 0, c, s, ch, sl}); break;
        case 6: add_op(p, t, "append", {f, 0, c, s, ch, sl}); break;
        case 7: case 8: add_op(p, t, "rm", {f, 0, c, s, ch, sl}); break;
        default: add_op(p, t, flips ? "flip" : "away", {f, static_cast<i64>(r.below(2)), c, s, ch, sl}); break;
      }
    }
  }
  for (int i = 0; i < 2; ++i) {look(0);}
}
void gen_c15(Plan & p, Rng & r) {gen_sec(p, r, false);}
void gen_c16(Plan & p, Rng & r) {gen_sec(p, r, true);}
}  // namespace

extern const World kSecWorlds[] = {
  {"C15", "enclave", 1, gen_c15, run_sec},
  {"C16", "pkcs11", 1, gen_c16, run_sec},
};
