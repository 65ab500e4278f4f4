#pragma once
#include <string>
// Specification automaton of wblank-detach: the stream itself, with [[/]] put
// after each unit that carries a word-bound blank.
struct DetachSpec {
  enum Mode { TEXT, TEXT_ESC, OPEN, SB, SB_ESC, WB, WB_ESC, WB_CLOSE, WB_DONE, LU, LU_ESC, BAD };
  Mode mode = TEXT;
  bool bound = false;                   // the unit being read carries a word-bound blank
  bool nul = false;
  std::u32string out;
  std::u32string held;                  // the blank being read
  bool wellformed() const { return mode == TEXT; }
  bool hopeless() const { return mode == BAD; }
  // the precondition on the next character: the stream is well formed, and NUL only stands between units
  bool admits(int c) const {
    if (c == 0) return mode == TEXT;
    switch (mode) {
    case SB: case WB: return c != '[';
    case WB_CLOSE: return c == ']';
    case WB_DONE: return c == '^';
    case LU: return c != '^';
    case BAD: return false;
    default: return true;
    }
  }
  bool due() const { return nul; }
  void bad() { mode = BAD; bound = false; held.clear(); }
  void step(int c) {
    nul = false;
    switch (mode) {
    case TEXT:
      if (c == '[') { held.clear(); held.push_back(c); mode = OPEN; }
      else {
        out.push_back(c);
        if (c == '\\') mode = TEXT_ESC;
        else if (c == '^') { mode = LU; bound = false; }
        else nul = (c == 0);
      }
      break;
    case TEXT_ESC: out.push_back(c); mode = TEXT; break;
    case OPEN:
      held.push_back(c);
      if (c == '[') mode = WB;
      else if (c == ']') { out.append(held); held.clear(); mode = TEXT; }
      else if (c == '\\') mode = SB_ESC;
      else mode = SB;
      break;
    case SB:
      held.push_back(c);
      if (c == ']') { out.append(held); held.clear(); mode = TEXT; }
      else if (c == '\\') mode = SB_ESC;
      else if (c == '[') bad();
      break;
    case SB_ESC: held.push_back(c); mode = SB; break;
    case WB:
      held.push_back(c);
      if (c == ']') mode = WB_CLOSE;
      else if (c == '\\') mode = WB_ESC;
      else if (c == '[') bad();
      break;
    case WB_ESC: held.push_back(c); mode = WB; break;
    case WB_CLOSE:
      held.push_back(c);
      if (c == ']') { out.append(held); held.clear(); mode = WB_DONE; } else bad();
      break;
    case WB_DONE:
      if (c == '^') { out.push_back(c); mode = LU; bound = true; } else bad();
      break;
    case LU:
      out.push_back(c);
      if (c == '$') {
        if (bound) { out.push_back('['); out.push_back('['); out.push_back('/'); out.push_back(']'); out.push_back(']'); }
        bound = false; mode = TEXT;
      }
      else if (c == '\\') mode = LU_ESC;
      else if (c == '^') bad();
      break;
    case LU_ESC: out.push_back(c); mode = LU; break;
    case BAD: break;
    }
  }
};
