#pragma once
#include <string>
// Specification automaton of the post-transfer blank normaliser: runs of
// spaces are reduced to one space, everything else is copied.
struct PostSpec {
  bool space = false;      // the previous character was a space
  bool nul = false;        // the previous character was a NUL
  std::u32string out;      // the text that must have been produced so far
  bool wellformed() const { return true; }
  bool hopeless() const { return false; }
  bool admits(int) const { return true; }
  bool due() const { return nul; }
  void step(int c) {
    nul = (c == 0);
    if (c == ' ' && space) return;
    out.push_back(c);
    space = (c == ' ');
  }
};
