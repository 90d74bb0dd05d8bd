// Conformance driver for spec/Shell.tla: runs the commands of each round at the same time, and reports what was read.
#include <algorithm>
#include <cstring>
#include <filesystem>
#include <iostream>
#include <iterator>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include <cmdr11/cmdr11.hh>
#include <cmdr11/cmdr_ios.hh>
#include <cmdr11/cmdr_process.hh>

#include "jsonout.hh"

using SV = std::vector<std::string>;

static std::string plain(std::string const &s) {
  std::string o;
  for (std::size_t i = 0; i < s.size(); i++)
    if (s[i] == '\\' && i + 1 < s.size()) {
      i++;
      o += s[i] == 't' ? '\t' : s[i] == 'n' ? '\n' : s[i];
    } else
      o += s[i];
  return o;
}

// a long text is told by its length and a digest
static std::string brief(std::string const &s) {
  if (s.size() < 4000) return jq(s);
  unsigned long long h = 1469598103934665603ULL;
  for (unsigned char c: s) h = (h ^ c) * 1099511628211ULL;
  return "\"long " + std::to_string(s.size()) + " " + std::to_string(h) + "\"";
}

struct one {
  std::string way, script;
  bool late;
  std::unique_ptr<cmdr::process::exec> ex;
  std::string out, err, note;
  int code{};

  void read_err() {
    std::ostringstream e;
    e << ex->stderr_stream();
    if (!e) note += "the stream has failed after the error output;";
    err = e.str();
  }
  void read() {
    code = ex->ret_code();
    if (way == "errfirst") read_err();
    if (way == "lines") {
      std::string l;
      while (std::getline(*ex, l)) {
        out += l;
        if (!ex->eof()) out += '\n';
      }
    } else if (way == "chars") {
      std::copy(std::istreambuf_iterator<char>(*ex), std::istreambuf_iterator<char>(), std::back_inserter(out));
    } else {
      std::ostringstream o;
      o << *ex;
      if (way == "twice") o << *ex;
      if (!o) note += "the stream has failed after the output;";
      o << "|";
      out = o.str();
      if (out.empty()) note += "nothing can be written anymore;";
      else
        out.pop_back();
    }
    if (way != "errfirst") read_err();
  }
  std::string told() const {
    return "{\"out\":" + brief(out) + ",\"err\":" + brief(err) + ",\"code\":" + std::to_string(code) + ",\"note\":" + jq(note) + "}";
  }
};

int main() {
  std::string line, id;
  std::vector<std::vector<std::unique_ptr<one>>> rounds;
  while (std::getline(std::cin, line)) {
    SV f(1);
    for (char c: line)
      if (c == '\t') f.emplace_back();
      else
        f.back() += c;
    for (auto &x: f) x = plain(x);
    if (f[0] == "case") {
      id = f[1];
      rounds.clear();
      std::filesystem::create_directories(f[2]);
      setenv("TMPDIR", f[2].c_str(), 1);
    } else if (f[0] == "round") {
      rounds.emplace_back();
    } else if (f[0] == "cmd") {
      auto o    = std::make_unique<one>();
      o->way    = f[1];
      o->late   = f[2] == "True";
      o->script = f[3];
      rounds.back().push_back(std::move(o));
    } else if (f[0] == "end") {
      for (auto &r: rounds) {
        std::vector<std::thread> ts;
        for (auto &o: r)
          if (r.size() == 1) o->ex = std::make_unique<cmdr::process::exec>(o->script.c_str());
          else
            ts.emplace_back([&o] { o->ex = std::make_unique<cmdr::process::exec>(o->script.c_str()); });
        for (auto &t: ts) t.join();
        for (auto &o: r)
          if (!o->late) o->read();
      }
      std::string res;
      for (auto &r: rounds) {
        std::string l;
        for (auto &o: r) {
          if (o->late) o->read();
          l += (l.empty() ? "" : ",") + o->told();
        }
        res += (res.empty() ? "[" : ",[") + l + "]";
      }
      std::string left;
      rounds.clear();
      for (auto const &e: std::filesystem::recursive_directory_iterator(getenv("TMPDIR")))
        if (!e.is_directory()) left += e.path().filename().string() + " ";
      std::cout << "{\"case\":" << id << ",\"rounds\":[" << res << "],\"left\":" << jq(left) << "}" << std::endl;
    }
  }
  return 0;
}
