// Conformance driver for spec/Strings.tla.
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include <cmdr11/cmdr_string.hh>

#include "jsonout.hh"

namespace S = cmdr::string;

static std::string plain(std::string const &s) {
  std::string o;
  for (std::size_t i = 0; i < s.size(); i++)
    if (s[i] == '\\') {
      i++;
      o += s[i] == 't' ? '\t' : s[i] == 'n' ? '\n' : s[i];
    } else
      o += s[i];
  return o;
}
static std::string list(std::vector<std::string> const &v) {
  std::string o = "[";
  for (auto const &x: v) o += (o.size() > 1 ? "," : "") + jq(x);
  return o + "]";
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::vector<std::string> f(1);
    for (char c: line)
      if (c == '\t') f.emplace_back();
      else
        f.back() += c;
    for (auto &x: f) x = plain(x);
    std::string o;
    // every answer is a list: one entry for each way to ask
    auto add = [&](char const *k, std::vector<std::string> const &v) {
      o += std::string(",\"") + k + "\":[";
      for (std::size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + v[i];
      o += "]";
    };
    auto yes = [](bool x) { return std::string(x ? "true" : "false"); };
    if (f[0] == "env") {
      setenv(f[1].c_str(), f[2].c_str(), 1);
    } else if (f[0] == "expand") {
      std::cout << "{\"case\":" << f[1] << ",\"e\":" << jq(S::expand_env(f[2])) << "}\n";
    } else if (f[0] == "number") {
      long long n  = std::stoll(f[2]);
      std::string t = "leftover", u = "left";
      if (f[3] == "True") t = S::conv::itoa((int) n, t);
      if (f[4] == "True") u = S::conv::itoa((unsigned) n, u);
      std::cout << "{\"case\":" << f[1] << ",\"int\":" << jq(t) << ",\"uint\":" << jq(u) << "}\n";
    } else if (f[0] == "text") {
      std::string const &s = f[2], &a = f[3], &b = f[4];
      char c = a[0];
      add("tokens", {list(S::tokenize(s))});
      add("tokensAt", {list(S::tokenize(s, c))});
      std::vector<std::string> p;
      S::split(s, a, std::back_inserter(p));
      add("pieces", {list(p)});
      add("parts", {list(S::split(s, c))});
      add("lines", {list(S::reg_split(s))});
      std::vector<char const *> cp;
      for (auto const &x: p) cp.push_back(x.c_str());
      add("joined", {jq(S::join(p, b.c_str())), jq(S::join(cp, b.c_str()))});
      add("joinedIn", {jq(S::join(p, b.c_str(), a.c_str(), b.c_str())), jq(S::join(cp, b.c_str(), a.c_str(), b.c_str()))});
      add("joinedChar", {jq(S::join(p, c)), jq(S::join(cp, c))});
      add("joinedCharIn", {jq(S::join(p, c, '[', ']')), jq(S::join(cp, c, '[', ']'))});
      std::string r = s;
      add("found", {yes(S::replace(r, a, b))});
      std::string r2 = s;
      S::replace_all(r2, a, b);
      add("replaced", {jq(r)});
      add("replacedAll", {jq(r2)});
      add("prefix", {yes(S::has_prefix(s, a)), yes(S::has_prefix(s, a.c_str()))});
      add("suffix", {yes(S::has_suffix(s, a)), yes(S::has_suffix(s, a.c_str()))});
      add("wrapped", {jq(S::wrap(s, a.c_str(), b.c_str())), jq(S::wrap(s, a, b))});
      add("wrappedChar", {jq(S::wrap(s, '[', ']'))});
      add("quoted", {jq(S::quoted(s))});
      add("stripped", {jq(S::strip(s, a.c_str(), b.c_str()))});
      add("unquoted", {jq(S::strip_quotes(s))});
      std::string l1 = s, r1 = s, l2 = s, r3 = s;
      S::trim_left_space(l1), S::trim_right_space(r1);
      add("left", {jq(l1), jq(S::trim_left_space(std::move(l2))), jq(S::trim_left(s))});
      add("right", {jq(r1), jq(S::trim_right_space(std::move(r3))), jq(S::trim_right(s))});
      add("trimmed", {jq(S::trim(s))});
      std::string u1 = s, u2 = s, w1 = s, w2 = s;
      S::to_upper(u1), S::to_upper_t(u2), S::to_lower(w1), S::to_lower_t(w2);
      add("upper", {jq(u1), jq(u2), jq(S::to_capitalize(s))});
      add("lower", {jq(w1), jq(w2)});
      std::string p1 = s;
      S::pad(p1, 4, '.');
      add("padded", {jq(p1)});
      add("indented", {jq(S::pad_left(s, 3))});
      auto until = [](std::string t, std::istream &is) {
        std::string rest{std::istreambuf_iterator<char>(is.rdbuf()), {}};
        return "{\"text\":" + jq(t) + ",\"rest\":" + jq(rest) + "}";
      };
      std::istringstream i1(s), i2(s), i3(s);
      std::string ret = "as it was";
      bool got        = S::read_until(i2, ret, a.c_str());
      add("until", {until(S::read_until(i1, a.c_str()), i1), until(ret, i2)});
      add("untilGot", {yes(got)});
      add("untilChar", {until(S::read_until(i3, c), i3)});
      std::cout << "{\"case\":" << f[1] << o << "}\n";
    }
  }
}
