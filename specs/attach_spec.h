#pragma once
#include <string>
#include <vector>
// Specification of wblank-attach: word-bound blanks are taken out of the stream, and each unit gets
// the entries of those open around it.
// the entries of a word-bound blank, added to those open so far: separated by ; and without the
// spaces and ; around them; an entry that is open already is not added again
extern std::vector<std::u32string> opened(const std::vector<std::u32string>& open, const std::u32string& content);
// the entries without the last count
extern std::vector<std::u32string> closed(const std::vector<std::u32string>& open, size_t count);
// the entries, separated by "; "
extern std::u32string joined(const std::vector<std::u32string>& entries);
// the entries with the trimmed text added, unless it is empty or one of them
extern std::vector<std::u32string> with_entry(const std::vector<std::u32string>& entries, const std::u32string& text);
// joined, entry by entry
struct JoinSpec {
  int n = 0;
  std::u32string out;
  void step(const std::u32string& entry) {
    if (n > 0) { out.push_back(';'); out.push_back(' '); }
    out.append(entry);
    n++;
  }
};
// opened, character by character: begins with the entries open so far
struct SplitSpec {
  bool esc = false;
  std::u32string part;
  std::vector<std::u32string> entries;
  void step(int c) {
    if (esc) { part.push_back(c); esc = false; }
    else if (c == ';') { entries = with_entry(entries, part); part.clear(); }
    else { part.push_back(c); if (c == '\\') esc = true; }
  }
};
// an entry without the spaces and ; around it; an escaped one belongs to the entry
struct FrontSpec {
  int first = 0;          // how many there are at the beginning
  bool stopped = false;
  bool done() const { return stopped; }
  void step(int c) {
    if (stopped) return;
    if (c == ' ' || c == ';') first++; else stopped = true;
  }
};
struct BackSpec {
  int n = 0;
  int run = 0;            // of backslashes, directly before
  int last = 0;           // the end of the text without those at the end
  void step(int c) {
    n++;
    if ((c != ' ' && c != ';') || run % 2 == 1) last = n;
    if (c == '\\') run++; else run = 0;
  }
};
struct AttachSpec {
  enum Mode { TEXT, TEXT_ESC, OPEN, SB, SB_ESC, WB, WB_ESC, WB_CLOSE, LU, LU_ESC, BAD };
  Mode mode = TEXT;
  bool nul = false;
  std::u32string out;
  std::u32string held;                  // the blank being read
  std::vector<std::u32string> entries;  // of the open word-bound blanks
  std::vector<size_t> stack;            // how many of them each of the blanks added
  bool wellformed() const { return mode == TEXT; }
  bool hopeless() const { return mode == BAD; }
  bool due() const { return nul; }
  bool admits(int c) const {
    if (c == 0) return mode == TEXT;
    switch (mode) {
    case TEXT: return c != ']' && c != '$';
    case SB: case WB: return c != '[';
    case WB_CLOSE: return c == ']';
    case LU: return c != '^';
    case BAD: return false;
    default: return true;
    }
  }
  void step(int c) {
    nul = false;
    switch (mode) {
    case TEXT:
      if (c == '[') { held.clear(); held.push_back(c); mode = OPEN; }
      else {
        if (c == '^' && entries.size() > 0) { out.push_back('['); out.push_back('['); out.append(joined(entries)); out.push_back(']'); out.push_back(']'); }
        out.push_back(c);
        if (c == '\\') mode = TEXT_ESC;
        else if (c == '^') mode = LU;
        else if (c == 0) { nul = true; entries.clear(); stack.clear(); }
      }
      break;
    case TEXT_ESC: out.push_back(c); mode = TEXT; break;
    case OPEN:
      held.push_back(c);
      if (c == '[') mode = WB;
      else {
        if (c == ']') { out.append(held); held.clear(); mode = TEXT; }
        else if (c == '\\') mode = SB_ESC;
        else mode = SB;
      }
      break;
    case SB:
      held.push_back(c);
      if (c == ']') { out.append(held); held.clear(); mode = TEXT; }
      else if (c == '\\') mode = SB_ESC;
      else if (c == '[') mode = BAD;
      break;
    case SB_ESC: held.push_back(c); mode = SB; break;
    case WB:
      held.push_back(c);
      if (c == ']') mode = WB_CLOSE;
      else if (c == '\\') mode = WB_ESC;
      else if (c == '[') mode = BAD;
      break;
    case WB_ESC: held.push_back(c); mode = WB; break;
    case WB_CLOSE:
      held.push_back(c);
      if (c != ']') { mode = BAD; break; }
      mode = TEXT;
      if (held.size() == 5 && held[2] == '/') {
        if (stack.size() > 0) { entries = closed(entries, stack.back()); stack.pop_back(); }
      }
      else {
        size_t n = entries.size();
        held.pop_back(); held.pop_back(); held.erase(0, 2);
        entries = opened(entries, held);
        stack.push_back(entries.size() - n);
      }
      held.clear();
      break;
    case LU:
      out.push_back(c);
      if (c == '$') mode = TEXT;
      else if (c == '\\') mode = LU_ESC;
      else if (c == '^') mode = BAD;
      break;
    case LU_ESC: out.push_back(c); mode = LU; break;
    case BAD: break;
    }
  }
};
