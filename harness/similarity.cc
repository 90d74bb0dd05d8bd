// Conformance driver for spec/Similarity.tla.
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include <cmdr11/cmdr_string.hh>

int main() {
  std::string line;
  cmdr::text::jaro_winkler_distance one(0.5); // one object for many pairs: an answer must not depend on the pairs before
  while (std::getline(std::cin, line)) {
    std::vector<std::string> f(1);
    for (char c: line)
      if (c == '\t') f.emplace_back();
      else
        f.back() += c;
    cmdr::text::jaro_winkler_distance own(0.5);
    double a = one(f[2].c_str(), f[3].c_str());
    bool ma  = one.matched();
    bool mb  = own.calculate(f[2].c_str(), f[3].c_str()).matched();
    double b = own.get_distance();
    char o[200];
    std::snprintf(o, sizeof o, "{\"case\":%s,\"d\":[%.12f,%.12f],\"m\":[%s,%s]}", f[1].c_str(), a, b, ma ? "true" : "false", mb ? "true" : "false");
    std::cout << o << '\n';
  }
}
