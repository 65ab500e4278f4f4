#pragma once
#include <string>
// Specification automaton of cleanstream: only lexical units (and, as an option,
// superblanks) survive; what stood between two units becomes one separator.
struct CleanSpec {
  enum Mode { TEXT, TEXT_ESC, BLANK, BLANK_ESC, LU, LU_ESC };
  Mode mode = TEXT;
  bool lines = false, keep = false;     // options -n, -b
  bool between = false;                 // some text since the last unit
  std::u32string out;                   // text that must have been produced so far
  std::u32string unit;                  // the unit being read, or the blank being read
  bool wellformed() const { return mode == TEXT; }
  bool hopeless() const { return false; }
  bool admits(int c) const { return c != 0 || mode == TEXT || mode == TEXT_ESC; }
  bool due() const { return false; }
  void sep() { out.push_back(lines ? '\n' : ' '); }
  void step(int c) {
    switch (mode) {
    case TEXT:
      if (c == '^') { if (between || lines) sep(); between = false; unit.clear(); unit.push_back('^'); mode = LU; }
      else if (c == '[') { sep(); unit.clear(); unit.push_back('['); mode = BLANK; }
      else if (c == '\\') { mode = TEXT_ESC; }
      else if (c == '$') { }
      else between = true;
      break;
    case TEXT_ESC: between = true; mode = TEXT; break;
    case BLANK:
      unit.push_back(c);
      if (c == '\\') mode = BLANK_ESC;
      else if (c == ']') { if (keep) out.append(unit); unit.clear(); mode = TEXT; }
      break;
    case BLANK_ESC: unit.push_back(c); mode = BLANK; break;
    case LU:
      if (c == '^') { unit.push_back('\\'); unit.push_back('^'); }
      else if (c == '$') { unit.push_back('$'); out.append(unit); unit.clear(); mode = TEXT; }
      else if (c == '\\') { unit.push_back(c); mode = LU_ESC; }
      else unit.push_back(c);
      break;
    case LU_ESC: unit.push_back(c); mode = LU; break;
    }
  }
  // what is written once the input has ended
  std::u32string final() const { std::u32string r = out; if (lines) r.push_back('\n'); return r; }
};
