#pragma once
#include <string>
#include <vector>
// A chunk: name, tags and, in braces, blanks and units.
#include <unicode/uchar.h>
extern int number(const std::u32string& digits);
// the name, up to the tags (or, with tags, up to the body)
struct HeadSpec {
  enum Mode { NAME, ESC, DONE };
  Mode mode = NAME;
  bool tags = false;                    // part of what is wanted
  std::u32string name;
  bool wellformed() const { return mode == DONE; }
  bool done() const { return mode == DONE; }
  void step(int c) {
    switch (mode) {
    case NAME:
      if (c == '{' || (c == '<' && !tags)) { mode = DONE; return; }
      name.push_back(c);
      if (c == '\\') mode = ESC;
      break;
    case ESC: name.push_back(c); mode = NAME; break;
    case DONE: break;
    }
  }
};
// the tags of the head
struct TagsSpec {
  enum Mode { NAME, ESC, TAG, DONE };
  Mode mode = NAME;
  std::u32string tag;
  std::vector<std::u32string> tags;
  bool wellformed() const { return mode == DONE; }
  bool done() const { return mode == DONE; }
  void step(int c) {
    switch (mode) {
    case NAME:
      if (c == '{') mode = DONE;
      else if (c == '\\') mode = ESC;
      else if (c == '<') { tag.clear(); tag.push_back(c); mode = TAG; }
      break;
    case ESC: mode = NAME; break;
    case TAG:
      tag.push_back(c);
      if (c == '>') { tags.push_back(tag); mode = NAME; }
      break;
    case DONE: break;
    }
  }
};
// the body: everything as it is, except that in units <n> is the n-th tag of the head, and that
// the letters have the case of the head
struct BodySpec {
  enum Mode { HEAD, HEAD_ESC, TEXT, TEXT_ESC, SB, SB_ESC, UNIT, UNIT_ESC, LT, TAG, NUM };
  Mode mode = HEAD;
  bool all = false, first = false;      // letters are upper case: all, the first
  std::vector<std::u32string> tags;
  std::u32string num;
  std::u32string out;
  // the text before the last character, which is the } that ends the body
  void text(int c) {
    out.push_back(c);
    mode = c == '\\' ? TEXT_ESC : c == '[' ? SB : c == '^' ? UNIT : TEXT;
  }
  void letter(int c) {
    if (all) out.push_back(u_toupper(c));
    else if (first && u_isalnum(c)) { out.push_back(u_toupper(c)); first = false; }
    else out.push_back(c);
  }
  void step(int c) {
    switch (mode) {
    case HEAD: if (c == '{') mode = TEXT; else if (c == '\\') mode = HEAD_ESC; break;
    case HEAD_ESC: mode = HEAD; break;
    case TEXT: text(c); break;
    case TEXT_ESC: out.push_back(c); mode = TEXT; break;
    case SB: out.push_back(c); if (c == ']') mode = TEXT; else if (c == '\\') mode = SB_ESC; break;
    case SB_ESC: out.push_back(c); mode = SB; break;
    case UNIT:
      if (c == '$') { out.push_back(c); mode = TEXT; }
      else if (c == '\\') { out.push_back(c); mode = UNIT_ESC; }
      else if (c == '<') mode = LT;
      else letter(c);
      break;
    case UNIT_ESC: out.push_back(c); mode = UNIT; break;
    case LT:
      if (u_isdigit(c)) { num.clear(); num.push_back(c); mode = NUM; }
      else { out.push_back('<'); out.push_back(c); mode = c == '>' ? UNIT : TAG; }
      break;
    case TAG: out.push_back(c); if (c == '>') mode = UNIT; break;
    case NUM:
      if (c == '>') {
        int n = number(num);
        if (n >= 1 && n <= (int)tags.size()) out.append(tags[n - 1]);
        mode = UNIT;
      } else num.push_back(c);
      break;
    }
  }
};
