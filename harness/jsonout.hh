// minimal JSON string quoting for the conformance drivers
#pragma once
#include <cstdio>
#include <string>
inline std::string jq(std::string const &s) {
  std::string o = "\"";
  for (unsigned char c: s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char) c;
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += (char) c;
  }
  return o + "\"";
}
