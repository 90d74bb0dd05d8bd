// Conformance driver for spec/Chrono.tla: replays histories of printing, reading and calculating with times.
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include <cmdr11/cmdr_chrono.hh>
#include <cmdr11/cmdr_var_t.hh>

#include "jsonout.hh"

namespace chr = cmdr::chrono;
using iom     = chr::iom;
using clk     = std::chrono::system_clock;
using namespace std::chrono;

static clk::time_point point(std::string const &s) {
  long d{}, k{}, n{};
  std::sscanf(s.c_str(), "%ld,%ld,%ld", &d, &k, &n);
  return clk::time_point(duration_cast<clk::duration>(seconds(d * 86400 + k) + nanoseconds(n)));
}
static std::tm fields(std::string const &s) {
  std::tm t{};
  int wd, yd;
  std::sscanf(s.c_str(), "%d,%d,%d,%d,%d,%d,%d,%d,%d", &t.tm_year, &t.tm_mon, &t.tm_mday, &t.tm_hour, &t.tm_min, &t.tm_sec, &wd, &yd, &t.tm_isdst);
  t.tm_year -= 1900;
  t.tm_mon--;
  t.tm_wday = wd;
  t.tm_yday = yd;
  return t;
}
static std::string show(std::tm const &t) {
  char b[100];
  std::snprintf(b, sizeof b, "[%d,%d,%d,%d,%d,%d,%d,%d,%d]", t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, t.tm_wday, t.tm_yday, t.tm_isdst);
  return b;
}
static std::string secs(clk::time_point t) {
  auto s = floor<seconds>(t.time_since_epoch()).count();
  long d = s / 86400, r = s % 86400;
  if (r < 0) r += 86400, d--;
  return "[" + std::to_string(d) + "," + std::to_string(r) + "]";
}
template<class T>
static std::string put(T const &v) { // what is printed, and that the stream is left as it was
  std::ostringstream os;
  os << v << '|' << std::setw(4) << 7;
  return jq(os.str());
}
template<class F>
static std::string putf(F const &f) {
  std::ostringstream os;
  f(os);
  os << '|' << std::setw(4) << 7;
  return jq(os.str());
}

int main() {
  std::string line;
  std::vector<std::unique_ptr<iom::saver>> saved;
  std::string id, out;
  auto add = [&](std::string const &s) {
    if (!out.empty()) out += ',';
    out += s;
  };
  while (std::getline(std::cin, line)) {
    std::vector<std::string> f(1);
    for (char c: line)
      if (c == '\t') f.emplace_back();
      else
        f.back() += c;
    auto const &k = f[0];
    if (k == "begin") {
      id = f[1];
      out.clear();
      setenv("TZ", f[2].c_str(), 1);
      tzset();
      while (!saved.empty()) saved.pop_back();
      iom::reset();
    } else if (k == "end") {
      std::cout << "{\"case\":" << id << ",\"r\":[" << out << "]}\n";
    } else if (k == "flag") {
      std::ostringstream os;
      using ff = iom::fmtflags;
      os << (f[1] == "ms" ? ff::ms : f[1] == "us" ? ff::us : f[1] == "ns" ? ff::ns : f[1] == "gmt" ? ff::gmt : f[1] == "local" ? ff::local : ff::clear);
      add(jq(os.str()));
    } else if (k == "save") {
      saved.push_back(std::make_unique<iom::saver>());
      add("\"\"");
    } else if (k == "restore") {
      saved.pop_back();
      add("\"\"");
    } else if (k == "point") {
      auto t            = point(f[1]);
      std::string const fmt = f[2] == "-" ? "%F %T" : "%Y/%m/%d %H:%M:%S";
      std::string own   = f[2] == "-" ? put(t) : jq(chr::format_time_point(t, fmt.c_str()) + "|   7");
      std::string ns    = std::to_string((chr::time_point_get_ms(t) * 1000 + chr::time_point_get_us(t)) * 1000 + chr::time_point_get_ns(t));
      add("{\"t\":[" + own + "," + jq(chr::format_time_point(t, fmt.c_str()) + "|   7") + "," +
          putf([&](std::ostream &os) { chr::serialize_time_point(os, t, fmt.c_str()); }) + "],\"l\":" +
          jq(chr::format_time_point_to_local(t, fmt.c_str())) + ",\"ns\":" + ns + "}");
    } else if (k == "duration") {
      long u[8];
      std::sscanf(f[1].c_str(), "%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld", u, u + 1, u + 2, u + 3, u + 4, u + 5, u + 6, u + 7);
      nanoseconds n = seconds((((u[0] * 365 + u[1]) * 24 + u[2]) * 60 + u[3]) * 60 + u[4]) + milliseconds(u[5]) + microseconds(u[6]) + nanoseconds(u[7]);
      if (f[2] == "-") n = -n;
      std::string o = put(n) + "," + jq(chr::format_duration(n) + "|   7");
      auto more     = [&](auto d) {
        if (d == n) {
          o += "," + put(d);
          cmdr::vars::variable v(d);
          o += "," + jq(v.as_string() + "|   7");
        }
      };
      more(n);
      more(duration_cast<microseconds>(n));
      more(duration_cast<milliseconds>(n));
      more(duration_cast<seconds>(n));
      more(duration_cast<minutes>(n));
      more(duration_cast<hours>(n));
      add("[" + o + "]");
    } else if (k == "round") {
      auto t     = point(f[1]);
      auto whole = floor<seconds>(t);
      std::tm l  = chr::time_point_2_tm(t);
      std::tm g  = chr::time_point_2_tm<clk, true>(t);
      std::tm l2 = chr::time_t_2_tm((time_t) whole.time_since_epoch().count());
      std::tm c = l, c2 = l;
      bool back = chr::tm_2_time_point(c) == whole && chr::tm_2_time_point(&c2) == whole;
      add("{\"l\":[" + show(l) + "," + show(l2) + "],\"u\":" + show(g) + ",\"b\":" + (back ? "true" : "false") + ",\"z\":" +
          (chr::duration_is_zero(t) == (t.time_since_epoch().count() == 0) ? "true" : "false") + "}");
    } else if (k == "order") {
      int r = chr::compare_date_part(point(f[1]), point(f[2]));
      int q = chr::compare_date_part(point(f[2]), point(f[1]));
      add("[" + std::to_string(r) + "," + std::to_string(q) + "]");
    } else if (k == "read" || k == "unreadable") {
      auto before = clk::now();
      auto p      = chr::parse_datetime(f[1].c_str());
      auto g      = chr::parse_datetime<clk, true>(f[1].c_str());
      auto after  = clk::now();
      std::string o;
      bool ok = true, kept = true;
      for (int dst: {0, 1, -1}) {
        std::tm t{}, t0{};
        t.tm_year = 99, t.tm_mon = 5, t.tm_mday = 7, t.tm_hour = 3, t.tm_min = 2, t.tm_sec = 1, t.tm_isdst = dst;
        t0     = t;
        bool y = chr::try_parse_by(t, f[1], "%H:%M:%S", "%Y/%m/%d %H:%M:%S");
        ok     = ok && y;
        if (!y) kept = kept && std::memcmp(&t, &t0, sizeof t) == 0;
        o += (o.empty() ? "" : ",") + secs(chr::tm_2_time_point(t));
        std::tm w = t0;
        if (chr::try_parse(w, f[1], f[1].find('/') == f[1].npos ? "%Y-%m-%d %H:%M:%S" : "%Y/%m/%d %H:%M:%S"))
          o += "," + secs(chr::tm_2_time_point(w));
      }
      add("{\"p\":" + secs(p) + ",\"g\":" + secs(g) + ",\"t\":[" + o + "],\"ok\":" + (ok ? "true" : "false") + ",\"kept\":" + (kept ? "true" : "false") +
          ",\"pf\":" + show(chr::time_point_2_tm(p)) + ",\"gf\":" + show(chr::time_point_2_tm<clk, true>(g)) +
          ",\"nl\":[" + show(chr::time_point_2_tm(before)) + "," + show(chr::time_point_2_tm(after)) + "]," +
          "\"ng\":[" + show(chr::time_point_2_tm<clk, true>(before)) + "," + show(chr::time_point_2_tm<clk, true>(after)) + "]}");
    } else if (k == "month") {
      auto t   = fields(f[1]);
      int n    = std::stoi(f[2]), m = std::stoi(f[3]);
      auto p   = chr::last_day_at_this_month_in_time_point(t, n, m);
      auto tm  = chr::last_day_at_this_month(t, n, m);
      std::string o = secs(p) + "," + secs(chr::tm_2_time_point(tm));
      auto fs       = show(chr::time_point_2_tm(p));
      if (m == 1) {
        o += "," + secs(chr::last_day_at_this_month_in_time_point(t, n));
        if (n == 1) o += "," + secs(chr::last_day_at_this_month_in_time_point(t));
      }
      add("{\"p\":[" + o + "],\"f\":" + fs + "}");
    } else if (k == "year") {
      auto t  = fields(f[1]);
      int n   = std::stoi(f[2]);
      auto p  = chr::last_day_at_this_year_in_time_point(t, n);
      auto tm = chr::last_day_at_this_year(t, n);
      add("{\"p\":[" + secs(p) + "," + secs(chr::tm_2_time_point(tm)) + "],\"f\":" + show(chr::time_point_2_tm(p)) + "}");
    } else if (k == "watch") {
      bool on = f[1] == "TRUE" || f[1] == "True";
      std::ostringstream os;
      auto *was = std::cout.rdbuf(os.rdbuf());
      int calls = 0;
      nanoseconds seen{};
      {
        chr::high_res_duration d([&](high_resolution_clock::duration x) {
          calls++;
          seen = x;
          return on;
        });
      }
      std::cout.rdbuf(was);
      add("{\"calls\":" + std::to_string(calls) + ",\"text\":" + jq(os.str()) + ",\"want\":" + jq(on ? "It took " + chr::format_duration(seen) + "\n" : "") +
          ",\"pos\":" + (seen.count() >= 0 ? "true" : "false") + "}");
    } else if (k == "clock") {
      auto before = clk::now();
      auto c      = chr::clock::now();
      auto after  = clk::now();
      add("{\"t\":" + put(c) + ",\"in\":" + std::to_string(c.in_nsec()) + ",\"ns\":" + std::to_string(c.nsec()) +
          ",\"a\":" + jq(chr::format_time_point(before, "%F %T")) + ",\"b\":" + jq(chr::format_time_point(after, "%F %T")) + "}");
    }
  }
}
