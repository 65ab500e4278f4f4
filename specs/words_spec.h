#pragma once
#include <string>
#include <vector>
// What the matcher is fed for one word: a pair (symbol, alternative) per letter or tag;
// letters in lower case, each with "any letter"; tags with "any tag" (alone if unknown).
extern int u_tolower(int);
extern int symbol_of(const std::u32string& tag);        // 0: not in the alphabet
struct TransferSteps {
  enum Mode { START, PLAIN, ESC, TAG, WB1, WB, WB_ESC, WB_CLOSE, WB_DONE, DONE };
  Mode mode = START;
  int any_char = 0, any_tag = 0;
  std::u32string tag;
  std::vector<int> steps;
  bool done() const { return mode == DONE; }
  bool wellformed() const { return mode == START || mode == PLAIN || mode == DONE; }
  bool admits(int c) const {
    switch (mode) {
    case PLAIN: return c != '[';
    case TAG: return c != '\\';
    case WB1: return c == '[';
    case WB: return c != '[';
    case WB_CLOSE: return c == ']';
    case WB_DONE: return c == '^';
    default: return true;
    }
  }
  void letter(int c) { steps.push_back(u_tolower(c)); steps.push_back(any_char); mode = PLAIN; }
  void step(int c) {
    switch (mode) {
    case START: case PLAIN:
      if (c == '[') mode = WB1;
      else if (c == '\\') mode = ESC;
      else if (c == '/') mode = DONE;
      else if (c == '<') { mode = TAG; tag.clear(); tag.push_back(c); }
      else letter(c);
      break;
    case ESC: letter(c); break;
    case TAG:
      tag.push_back(c);
      if (c == '>') {
        int s = symbol_of(tag);
        if (s != 0) { steps.push_back(s); steps.push_back(any_tag); } else { steps.push_back(any_tag); steps.push_back(-1); }
        mode = PLAIN;
      }
      break;
    case WB1: mode = WB; break;
    case WB: if (c == '\\') mode = WB_ESC; else if (c == ']') mode = WB_CLOSE; break;
    case WB_ESC: mode = WB; break;
    case WB_CLOSE: mode = WB_DONE; break;
    case WB_DONE: mode = PLAIN; break;
    default: break;
    }
  }
};
struct ChunkSteps {                                       // interchunk: up to the body; postchunk: only the name
  enum Mode { PLAIN, ESC, TAG, DONE };
  Mode mode = PLAIN;
  bool tags = true;
  int any_char = 0, any_tag = 0;
  std::u32string tag;
  std::vector<int> steps;
  bool done() const { return mode == DONE; }
  bool wellformed() const { return mode == PLAIN || mode == DONE; }
  bool admits(int c) const { return mode != TAG || c != '\\'; }
  void letter(int c) { steps.push_back(u_tolower(c)); steps.push_back(any_char); mode = PLAIN; }
  void step(int c) {
    switch (mode) {
    case PLAIN:
      if (c == '\\') mode = ESC;
      else if (c == '{') mode = DONE;
      else if (c == '<') { if (tags) { mode = TAG; tag.clear(); tag.push_back(c); } else mode = DONE; }
      else letter(c);
      break;
    case ESC: letter(c); break;
    case TAG:
      tag.push_back(c);
      if (c == '>') {
        int s = symbol_of(tag);
        if (s != 0) { steps.push_back(s); steps.push_back(any_tag); } else { steps.push_back(any_tag); steps.push_back(-1); }
        mode = PLAIN;
      }
      break;
    default: break;
    }
  }
};
