// Conformance driver for spec/Files.tla. All files are in the folder given by TMPDIR, a scratch folder.
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include <sys/wait.h>

#include <cmdr11/cmdr11.hh>
#include <cmdr11/cmdr_mmap.hh>

#include "jsonout.hh"

using SV    = std::vector<std::string>;
namespace fs = std::filesystem;
namespace M  = cmdr::mmap;

struct base {
  virtual ~base() = default;
  virtual bool open() const = 0;
  virtual std::size_t size() const = 0;
  virtual char const *data() const = 0;
  virtual char *wdata() = 0;
  virtual std::string path() const { return ""; }
  virtual std::unique_ptr<base> copy() const = 0;
  virtual void assign(base const &) = 0;
  virtual std::unique_ptr<base> move() { return nullptr; }
  virtual void moveassign(base &) {}
  virtual void close() {}
};
template<class T>
struct of : base {
  T m;
  template<class... A>
  explicit of(A &&...a)
      : m(std::forward<A>(a)...) {}
  bool open() const override { return m.is_open(); }
  std::size_t size() const override { return m.size(); }
  char const *data() const override { return m.data(); }
  char *wdata() override { return m.data(); }
  std::unique_ptr<base> copy() const override { return std::make_unique<of<T>>(m); }
  void assign(base const &o) override { m = dynamic_cast<of<T> const &>(o).m; }
};
template<bool W, bool S>
struct own : of<M::mmap<W, S>> {
  using of<M::mmap<W, S>>::of;
  std::string path() const override { return this->m.underlying_filename().string(); }
  std::unique_ptr<base> copy() const override { return std::make_unique<own>(this->m); }
};
struct lib : of<M::detail::mmaplib> {
  using of::of;
  std::unique_ptr<base> copy() const override { return std::make_unique<lib>(m); }
  std::unique_ptr<base> move() override { return std::make_unique<lib>(std::move(m)); }
  void moveassign(base &o) override { m = std::move(dynamic_cast<lib &>(o).m); }
  void close() override { m.close(); }
};

static std::unique_ptr<base> make_own(std::size_t n, bool w, bool s) {
  if (w) return s ? std::unique_ptr<base>(new own<true, true>(n)) : std::unique_ptr<base>(new own<true, false>(n));
  return s ? std::unique_ptr<base>(new own<false, true>(n)) : std::unique_ptr<base>(new own<false, false>(n));
}
static std::unique_ptr<base> make_um(std::string const &p, bool w, bool s) {
  int fd = M::open_file(p.c_str(), w, s);
  if (w) return s ? std::unique_ptr<base>(new of<M::mmap_um<true, true>>(fd)) : std::unique_ptr<base>(new of<M::mmap_um<true, false>>(fd));
  return s ? std::unique_ptr<base>(new of<M::mmap_um<false, true>>(fd)) : std::unique_ptr<base>(new of<M::mmap_um<false, false>>(fd));
}

static std::string bytes(char const *p, std::size_t n) {
  std::string o = "[";
  for (std::size_t i = 0; i < n; i++) o += (i ? "," : "") + std::to_string((int) (unsigned char) p[i]);
  return o + "]";
}

static int fds() {
  int n = 0;
  for (auto const &e: fs::directory_iterator("/proc/self/fd")) (void) e, n++;
  return n;
}
// the mappings of files of this folder that are still there
static int mapped(std::string const &dir) {
  std::ifstream f("/proc/self/maps");
  std::string l;
  int n = 0;
  while (std::getline(f, l))
    if (l.find(dir + "/") != l.npos) n++;
  return n;
}
static std::pair<dev_t, ino_t> in0() {
  struct stat st {};
  fstat(0, &st);
  return {st.st_dev, st.st_ino};
}

// a number of mappings at the same time, each with its own bytes
static bool busy(int id, int rounds) {
  for (int r = 0; r < rounds; r++) {
    std::vector<std::unique_ptr<M::mmap<true, true>>> ms;
    std::set<std::string> names;
    for (int k = 0; k < 4; k++) {
      ms.push_back(std::make_unique<M::mmap<true, true>>(64));
      if (!ms.back()->is_open() || ms.back()->size() != 64) return false;
      if (!names.insert(ms.back()->underlying_filename().string()).second) return false;
      for (int i = 0; i < 64; i++)
        if (ms.back()->data()[i] != 0) return false;
      std::memset(ms.back()->data(), id * 8 + k + 1, 64);
    }
    std::this_thread::yield();
    for (int k = 0; k < 4; k++)
      for (int i = 0; i < 64; i++)
        if (ms[k]->data()[i] != (char) (id * 8 + k + 1)) return false;
  }
  return true;
}
static bool others(std::string const &who) {
  if (who == "threads") {
    std::vector<std::thread> ts;
    std::vector<char> ok(6, 0);
    for (int i = 0; i < 6; i++) ts.emplace_back([&ok, i] { ok[i] = busy(i, 3); });
    for (auto &t: ts) t.join();
    for (char c: ok)
      if (!c) return false;
    return true;
  }
  std::vector<pid_t> ps;
  for (int i = 0; i < 4; i++) {
    pid_t p = fork();
    if (p == 0) _exit(busy(i, 4) ? 0 : 1);
    ps.push_back(p);
  }
  bool ok = true;
  for (pid_t p: ps) {
    int st = 0;
    waitpid(p, &st, 0);
    ok = ok && st == 0;
  }
  return ok;
}

static std::string play(std::vector<SV> const &ops, std::string const &dir) {
  fs::remove_all(dir);
  fs::create_directories(dir + "/tmp");
  setenv("TMPDIR", (dir + "/tmp").c_str(), 1);
  std::map<std::string, std::unique_ptr<base>> maps;
  std::map<std::string, std::string> paths; // of the files that may exist, by the name in the specification
  for (auto const *n: {"f", "g"}) paths[n] = dir + "/" + n;
  int made = 0, fd0 = fds();
  auto in = in0();
  std::string res, note;
  for (auto const &f: ops) {
    auto const &o = f[0];
    bool ans      = true;
    auto on       = [&](std::size_t i) { return f[i] == "True"; };
    if (o == "create") {
      auto ofs = cmdr::io::create_file(paths[f[1]]);
      for (std::size_t i = 2; i < f.size(); i++) ofs.put((char) std::stoi(f[i]));
      ans = ofs.good();
      cmdr::io::close_file(ofs);
    } else if (o == "sparse") ans = cmdr::io::create_sparse_file(paths[f[1]], std::stoul(f[2]));
    else if (o == "ensure") ans = cmdr::path::ensure_file(paths[f[1]]);
    else if (o == "delete") ans = made % 2 ? cmdr::io::delete_file(fs::path(paths[f[1]])) : cmdr::io::delete_file(paths[f[1]].c_str());
    else if (o == "own") {
      maps[f[1]] = make_own(std::stoul(f[2]), on(3), on(4));
      auto p     = maps[f[1]]->path();
      for (auto const &x: paths)
        if (x.second == p && fs::exists(p) && x.first != "own" + std::to_string(made + 1)) note += "the name " + p + " is in use;";
      paths["own" + std::to_string(++made)] = p;
    } else if (o == "um") maps[f[1]] = make_um(paths[f[2]], on(3), on(4));
    else if (o == "lib") maps[f[1]] = std::make_unique<lib>(paths[f[2]].c_str(), on(3), on(4));
    else if (o == "write") maps.at(f[1])->wdata()[std::stoul(f[2])] = (char) std::stoi(f[3]);
    else if (o == "destroy") maps.erase(f[1]);
    else if (o == "copy") maps[f[2]] = maps.at(f[1])->copy();
    else if (o == "assign") maps.at(f[2])->assign(*maps.at(f[1]));
    else if (o == "move") maps[f[2]] = maps.at(f[1])->move();
    else if (o == "moveassign") maps.at(f[2])->moveassign(*maps.at(f[1]));
    else if (o == "close") maps.at(f[1])->close();
    else if (o == "others") ans = others(f[1]);
    else note += "?" + o;
    std::string files, ms;
    std::size_t seen = 0;
    for (auto const &p: paths) {
      bool there = cmdr::path::file_exists(p.second);
      if (there != fs::exists(p.second)) note += "file_exists is wrong;";
      if (!there) continue;
      seen++;
      auto ifs = cmdr::io::open_file(p.second);
      auto t   = cmdr::io::read_file_content(ifs);
      cmdr::io::close_file(ifs);
      files += (files.empty() ? "" : ",") + jq(p.first) + ":" + bytes(t.data(), t.size());
    }
    std::size_t all = 0;
    for (auto const &e: fs::recursive_directory_iterator(dir))
      if (!e.is_directory()) all++;
    if (all != seen) note += "other files: " + std::to_string(all - seen) + ";";
    for (auto const &m: maps) {
      bool open = m.second->open();
      ms += (ms.empty() ? "" : ",") + jq(m.first) + ":{\"open\":" + (open ? "true" : "false") +
            ",\"data\":" + (open ? bytes(m.second->data(), m.second->size()) : m.second->size() ? "\"size " + std::to_string(m.second->size()) + "\"" : "[]") + "}";
    }
    res += (res.empty() ? "" : ",") + std::string("{\"ans\":") + (ans ? "true" : "false") + ",\"files\":{" + files + "},\"maps\":{" + ms + "}}";
  }
  maps.clear();
  if (fds() != fd0) note += "descriptors left open: " + std::to_string(fds() - fd0) + ";";
  if (mapped(dir) != 0) note += "mappings left: " + std::to_string(mapped(dir)) + ";";
  if (in0() != in) note += "the standard input is another file;";
  for (auto const &e: fs::recursive_directory_iterator(dir + "/tmp"))
    if (!e.is_directory()) note += "left behind: " + e.path().filename().string() + ";";
  fs::remove_all(dir);
  return "\"steps\":[" + res + "],\"note\":" + jq(note);
}

int main() {
  std::string line, id, dir;
  std::vector<SV> ops;
  while (std::getline(std::cin, line)) {
    SV f(1);
    for (char c: line)
      if (c == '\t') f.emplace_back();
      else
        f.back() += c;
    if (f[0] == "case") {
      id  = f[1];
      dir = f[2];
      ops.clear();
    } else if (f[0] == "end") {
      std::cout.flush();
      pid_t p = fork();
      if (p == 0) {
        auto r = play(ops, dir);
        std::cout << "{\"case\":" << id << "," << r << "}" << std::endl;
        _exit(0);
      }
      int st = 0;
      waitpid(p, &st, 0);
      if (st != 0) std::cout << "{\"case\":" << id << ",\"crash\":" << st << "}" << std::endl;
    } else
      ops.push_back(f);
  }
  return 0;
}
