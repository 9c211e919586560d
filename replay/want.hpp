// What the documentation says events look like, written independently of the code under test.
#pragma once
#include "drive.hpp"
static std::string escaped(std::string const& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}
// reads a JSON string at i (just after its opening quote) back into bytes; false when it is malformed
static bool unescape(std::string const& s, size_t& i, std::string& o) {
  for (; i < s.size(); i++) {
    unsigned char c = (unsigned char)s[i];
    if (c == '"') { i++; return true; }
    if (c < 32) return false;
    if (c != '\\') { o += (char)c; continue; }
    if (++i >= s.size()) return false;
    switch (s[i]) {
      case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break;
      case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
      case 'u': { if (i + 4 >= s.size()) return false; char h[5] = {s[i + 1], s[i + 2], s[i + 3], s[i + 4], 0}; char* e; long v = strtol(h, &e, 16); if (*e) return false; o += utf8((uint32_t)v); i += 4; break; }
      default: return false;
    }
  }
  return false;
}
static char const* effect_words[] = {"rename", "modify", "create", "destroy", "owner", "other"};
static char const* path_words[] = {"dir", "file", "hard_link", "sym_link", "watcher", "other"};
// the numbers are those of the enumeration's own enumerators
