// Conformance driver for spec/Typed.tla: reads each text into a value of the type and prints and reads the value again.
#include "shared.hh"

using cmdr::vars::variable;

template<class F>
static bool with_default(S const &t, F &&f) {
  if (t == "bool") f(variable{false});
  else if (t == "string") f(variable{S("def")});
  else if (t == "char*") f(variable{(char const *) "def"});
  else if (t == "int") f(variable{(int) 77});
  else if (t == "int16") f(variable{(int16_t) 77});
  else if (t == "uint16") f(variable{(uint16_t) 77});
  else if (t == "int64") f(variable{(int64_t) 77});
  else if (t == "uint64") f(variable{(uint64_t) 77});
  else if (t == "uint") f(variable{77u});
  else if (t == "double") f(variable{77.5});
  else if (t == "float") f(variable{77.5f});
  else if (t == "ldouble") f(variable{77.5L});
  else if (t == "vint") f(variable{std::vector<int>{7}});
  else if (t == "vint16") f(variable{std::vector<int16_t>{7}});
  else if (t == "vuint16") f(variable{std::vector<uint16_t>{7}});
  else if (t == "vint64") f(variable{std::vector<int64_t>{7}});
  else if (t == "vuint64") f(variable{std::vector<uint64_t>{7}});
  else if (t == "vuint") f(variable{std::vector<unsigned>{7}});
  else if (t == "vbool") f(variable{std::vector<bool>{true}});
  else if (t == "vdouble") f(variable{std::vector<double>{7.5}});
  else if (t == "vstr") f(variable{SV{"def"}});
  else return false;
  return true;
}

template<class T>
static bool show_as(std::ostream &os, std::any const &a, char const *tag) {
  if (auto p = std::any_cast<T>(&a)) {
    os << tag << '\t' << *p;
    return true;
  }
  if (auto p = std::any_cast<std::vector<T>>(&a)) {
    os << 'v' << (S(tag) == "string" ? "str" : tag) << "\t[";
    int i = 0;
    for (auto const &x: *p) os << (i++ ? "," : "") << x;
    os << ']';
    return true;
  }
  return false;
}
static S full(std::any const &a) {
  std::ostringstream os;
  os << std::setprecision(21);
  if (auto p = std::any_cast<bool>(&a)) os << "bool\t" << (*p ? "true" : "false");
  else if (auto q = std::any_cast<std::vector<bool>>(&a)) {
    os << "vbool\t[";
    int i = 0;
    for (bool x: *q) os << (i++ ? "," : "") << (x ? "true" : "false");
    os << ']';
  } else
    show_as<int>(os, a, "int") || show_as<int16_t>(os, a, "int16") || show_as<uint16_t>(os, a, "uint16") ||
        show_as<int64_t>(os, a, "int64") || show_as<uint64_t>(os, a, "uint64") || show_as<unsigned>(os, a, "uint") ||
        show_as<double>(os, a, "double") || show_as<float>(os, a, "float") || show_as<long double>(os, a, "ldouble") ||
        show_as<S>(os, a, "string") || (os << "?\t" << a.type().name());
  return os.str();
}

int main() {
  S line;
  while (std::getline(std::cin, line)) {
    auto f = split(line, '\t');
    if (f[0] != "text") continue;
    std::ostringstream os;
    os << "{\"case\":" << f[1] << ',';
    bool known = with_default(f[2], [&](variable v) {
      std::istringstream is(f[3]);
      is >> v;
      bool ok = !is.fail();
      os << "\"ok\":" << (ok ? "true" : "false");
      if (!ok) return;
      is.clear();
      auto p   = is.tellg();
      S rest;
      std::getline(is, rest, '\0');
      os << ",\"v\":" << jq(full(v.underlying_value())) << ",\"read\":" << (f[3].size() - rest.size());
      auto txt = v.as_string();
      with_default(f[2], [&](variable w) {
        std::istringstream is2(txt);
        is2 >> w;
        os << ",\"back\":" << jq(is2.fail() ? S("failed on ") + txt : full(w.underlying_value()));
      });
    });
    if (!known) return 9;
    os << "}\n";
    std::cout << os.str();
  }
  return 0;
}
