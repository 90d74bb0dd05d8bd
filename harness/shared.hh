// shared by the conformance drivers: texts, typed values, snapshots of the store
#pragma once
#include <cmdr-cxx.hh>

#include <iomanip>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <sys/wait.h>
#include <unistd.h>

#include "jsonout.hh"

using S = std::string;
using SV = std::vector<std::string>;

static SV split(S const &s, char c) {
  SV v;
  S cur;
  for (char ch: s) {
    if (ch == c) {
      v.push_back(cur);
      cur.clear();
    } else
      cur += ch;
  }
  v.push_back(cur);
  return v;
}

template<class T>
static std::vector<T> list_of(S const &s) {
  std::vector<T> v;
  S t = s.size() >= 2 ? s.substr(1, s.size() - 2) : S();
  if (t.empty()) return v;
  for (auto &x: split(t, ',')) {
    std::istringstream is(x);
    T y{};
    is >> y;
    v.push_back(y);
  }
  return v;
}
template<>
std::vector<S> list_of<S>(S const &s) {
  S t = s.size() >= 2 ? s.substr(1, s.size() - 2) : S();
  return t.empty() ? SV{} : split(t, ',');
}

template<class Fn>
static void with_typed(S const &type, S const &v, Fn &&fn) {
  if (type == "bool") fn(v == "true");
  else if (type == "string") fn(S(v));
  else if (type == "int") fn((int) std::stoi(v));
  else if (type == "int64") fn((int64_t) std::stoll(v));
  else if (type == "uint") fn((unsigned) std::stoul(v));
  else if (type == "double") fn(std::stod(v));
  else if (type == "vint") fn(list_of<int>(v));
  else if (type == "vint64") fn(list_of<int64_t>(v));
  else if (type == "vuint") fn(list_of<unsigned>(v));
  else if (type == "vdouble") fn(list_of<double>(v));
  else if (type == "vstr") fn(list_of<S>(v));
  else {
    std::cerr << "bad type " << type << '\n';
    _exit(9);
  }
}

static S type_tag(std::type_info const &t) {
  if (t == typeid(void)) return "void";
  if (t == typeid(bool)) return "bool";
  if (t == typeid(S) || t == typeid(char const *)) return "string";
  if (t == typeid(int)) return "int";
  if (t == typeid(int64_t)) return "int64";
  if (t == typeid(unsigned)) return "uint";
  if (t == typeid(double)) return "double";
  if (t == typeid(std::vector<int>)) return "vint";
  if (t == typeid(std::vector<int64_t>)) return "vint64";
  if (t == typeid(std::vector<unsigned>)) return "vuint";
  if (t == typeid(std::vector<double>)) return "vdouble";
  if (t == typeid(SV)) return "vstr";
  return S("?") + t.name();
}
template<class T>
static S show_list(std::any const &a) {
  std::ostringstream os;
  os << std::setprecision(15) << '[';
  int i = 0;
  for (auto const &x: std::any_cast<std::vector<T>>(a)) os << (i++ ? "," : "") << x;
  os << ']';
  return os.str();
}
static S show(std::any const &a) {
  auto const &t = a.type();
  std::ostringstream os;
  os << std::setprecision(15);
  if (t == typeid(bool)) return std::any_cast<bool>(a) ? "true" : "false";
  if (t == typeid(S)) return std::any_cast<S>(a);
  if (t == typeid(char const *)) return std::any_cast<char const *>(a);
  if (t == typeid(int)) os << std::any_cast<int>(a);
  else if (t == typeid(int64_t)) os << std::any_cast<int64_t>(a);
  else if (t == typeid(unsigned)) os << std::any_cast<unsigned>(a);
  else if (t == typeid(double)) os << std::any_cast<double>(a);
  else if (t == typeid(std::vector<int>)) return show_list<int>(a);
  else if (t == typeid(std::vector<int64_t>)) return show_list<int64_t>(a);
  else if (t == typeid(std::vector<unsigned>)) return show_list<unsigned>(a);
  else if (t == typeid(std::vector<double>)) return show_list<double>(a);
  else if (t == typeid(SV)) return show_list<S>(a);
  return os.str();
}

using Snap = std::map<S, std::pair<S, S>>;
static Snap snapshot() {
  Snap m;
  auto &cli = cmdr::get_app();
  SV keys;
  cli.store().walk_by_full_keys([&](std::pair<S, cmdr::vars::store::node_pointer> const &p) { keys.push_back(p.first); });
  for (auto &k: keys) {
    auto const &v = cli.store().get_raw(k);
    m[k]          = {type_tag(v.type()), show(v.underlying_value())};
  }
  return m;
}


// Runs fn in a child, which prints one JSON object for the case; a child that dies is reported as such.
template<class F>
static void forked(S const &idx, F &&fn) {
  std::cout.flush();
  pid_t pid = fork();
  if (pid == 0) {
    alarm(30);
    std::ostringstream os;
    os << "{\"case\":" << idx << ',';
    fn(os);
    os << "}\n";
    std::cout << os.str() << std::flush;
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) std::cout << "{\"case\":" << idx << ",\"crash\":" << st << "}\n" << std::flush;
  static int hung = 0;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM && ++hung == 2) _exit(8); // enough is known
}
