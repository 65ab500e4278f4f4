#pragma once
#include "attach_spec.h"
inline std::vector<std::u32string> opened(const std::vector<std::u32string>& open, const std::u32string& content) {
  std::vector<std::u32string> r = open, parts(1);
  for (size_t i = 0; i < content.size(); i++) {
    if (content[i] == ';') { parts.push_back({}); continue; }
    parts.back().push_back(content[i]);
    if (content[i] == '\\' && i + 1 < content.size()) parts.back().push_back(content[++i]);
  }
  for (auto& p : parts) {
    std::u32string t = p;
    while (!t.empty() && t.front() == ' ') t.erase(0, 1);
    while (!t.empty() && t.back() == ' ') {
      size_t e = 0; while (e < t.size() - 1 && t[t.size() - 2 - e] == '\\') e++;
      if (e % 2) break;                                   // an escaped space belongs to the entry
      t.pop_back();
    }
    if (t.empty()) continue;
    bool known = false;
    for (auto& x : r) known |= x == t;
    if (!known) r.push_back(t);
  }
  return r;
}
inline std::u32string joined(const std::vector<std::u32string>& e) {
  std::u32string o;
  for (size_t i = 0; i < e.size(); i++) { if (i) o += U"; "; o += e[i]; }
  return o;
}
inline std::vector<std::u32string> closed(const std::vector<std::u32string>& open, size_t count) {
  if (count > open.size()) return {};
  return std::vector<std::u32string>(open.begin(), open.end() - count);
}
