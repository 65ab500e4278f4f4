#pragma once
#include <string>
// Specification of one token read from a stream of units: everything up to the
// next delimiter, verbatim.  A step after a token is complete is an overrun.
struct UnitTok {                        // transfer: word-bound blanks belong to the unit after them
  enum Mode { TEXT, TEXT_ESC, OPEN, SB, SB_ESC, WB_FIRST, WB, WB_ESC, WB_CLOSE, WB_DONE, LU, LU_ESC, BLANK, BOUND, WORD, NUL, BAD };
  Mode mode = TEXT;
  bool nulls = false;                   // a NUL ends the segment
  std::u32string content;
  bool complete() const { return mode == BLANK || mode == BOUND || mode == WORD || mode == NUL; }
  bool inside() const { return mode != TEXT && !complete(); }          // the input may not end here
  int type() const { return mode == WORD ? 1 : mode == NUL || mode == TEXT ? 0 : 2; }      // tt_eof, tt_word, tt_blank
  bool bound() const { return mode == BOUND; }
  bool wellformed() const { return mode == TEXT || complete(); }
  // the precondition on the next character: a well-formed stream
  bool admits(int c) const {
    if (complete()) return true;
    if (c == 0) return mode == TEXT;
    switch (mode) {
    case SB: return c != '[';
    case WB_FIRST: case WB: return c != '$' && c != '[';
    case WB_CLOSE: return c == ']';
    case WB_DONE: return c == '^';
    case LU: return c != '^';
    default: return true;
    }
  }
  void step(int c) {
    switch (mode) {
    case TEXT:
      if (c == '^') mode = BLANK;
      else if (c == '$') mode = WORD;
      else if (c == 0 && nulls) mode = NUL;
      else {
        content.push_back(c);
        if (c == '[') mode = OPEN;
        else if (c == '\\') mode = TEXT_ESC;
      }
      break;
    case TEXT_ESC: content.push_back(c); mode = TEXT; break;
    case OPEN:
      if (c == '[') { content.pop_back(); mode = BOUND; }
      else { content.push_back(c); mode = c == ']' ? TEXT : c == '\\' ? SB_ESC : SB; }
      break;
    case SB: content.push_back(c); if (c == ']') mode = TEXT; else if (c == '\\') mode = SB_ESC; break;
    case SB_ESC: content.push_back(c); mode = SB; break;
    case WB_FIRST:                      // just after [[
      content.push_back('['); content.push_back('['); content.push_back(c);
      mode = c == '\\' ? WB_ESC : c == ']' ? WB_CLOSE : WB; break;
    case WB: content.push_back(c); if (c == '\\') mode = WB_ESC; else if (c == ']') mode = WB_CLOSE; break;
    case WB_ESC: content.push_back(c); mode = WB; break;
    case WB_CLOSE: content.push_back(c); mode = WB_DONE; break;
    case WB_DONE: content.push_back(c); mode = LU; break;
    case LU: if (c == '$') mode = WORD; else { content.push_back(c); if (c == '\\') mode = LU_ESC; } break;
    case LU_ESC: content.push_back(c); mode = LU; break;
    default: mode = BAD; break;
    }
  }
};

struct ChunkTok {                       // interchunk, postchunk: a unit is name<tags>{ ... }
  enum Mode { TEXT, TEXT_ESC, SB, SB_ESC, IN, IN_ESC, IN_SB, IN_SB_ESC, BODY, BODY_ESC, BODY_END, BLANK, WORD, NUL, BAD };
  Mode mode = TEXT;
  bool nulls = false;
  std::u32string content;
  bool complete() const { return mode == BLANK || mode == WORD || mode == NUL; }
  bool inside() const { return mode != TEXT && !complete(); }
  int type() const { return mode == WORD ? 1 : mode == NUL || mode == TEXT ? 0 : 2; }      // tt_eof, tt_word, tt_blank
  bool bound() const { return mode == BLANK; }
  bool wellformed() const { return mode == TEXT || complete(); }
  bool admits(int c) const {
    if (complete()) return true;
    if (c == 0) return mode == TEXT;
    switch (mode) {
    case IN: return c != '^';
    default: return true;
    }
  }
  void step(int c) {
    switch (mode) {
    case TEXT:
      if (c == '^') mode = BLANK;
      else if (c == 0 && nulls) mode = NUL;
      else {
        content.push_back(c);
        if (c == '[') mode = SB; else if (c == '\\') mode = TEXT_ESC;
      }
      break;
    case TEXT_ESC: content.push_back(c); mode = TEXT; break;
    case SB: content.push_back(c); if (c == ']') mode = TEXT; else if (c == '\\') mode = SB_ESC; break;
    case SB_ESC: content.push_back(c); mode = SB; break;
    case IN:
      if (c == '$') mode = WORD;
      else {
        content.push_back(c);
        if (c == '[') mode = IN_SB; else if (c == '\\') mode = IN_ESC; else if (c == '{') mode = BODY;
      }
      break;
    case IN_ESC: content.push_back(c); mode = IN; break;
    case IN_SB: content.push_back(c); if (c == ']') mode = IN; else if (c == '\\') mode = IN_SB_ESC; break;
    case IN_SB_ESC: content.push_back(c); mode = IN_SB; break;
    case BODY: content.push_back(c); if (c == '}') mode = BODY_END; else if (c == '\\') mode = BODY_ESC; break;
    case BODY_ESC: content.push_back(c); mode = BODY; break;
    case BODY_END:                      // only }$ ends the body
      if (c == '$') mode = WORD;
      else { content.push_back(c); mode = c == '\\' ? BODY_ESC : c == '}' ? BODY_END : BODY; }
      break;
    default: mode = BAD; break;
    }
  }
};

struct PlainTok {                       // the multiple-translation stage: no word-bound blanks
  enum Mode { TEXT, TEXT_ESC, SB, SB_ESC, BLANK, WORD, NUL, BAD };
  Mode mode = TEXT;
  bool nulls = false;
  std::u32string content;
  bool complete() const { return mode == BLANK || mode == WORD; }
  bool inside() const { return mode != TEXT && !complete(); }
  int type() const { return mode == WORD ? 1 : mode == TEXT ? 0 : 2; }
  bool bound() const { return mode == BLANK; }
  bool wellformed() const { return mode == TEXT || complete(); }
  bool admits(int c) const { return complete() || c != 0 || mode == TEXT; }
  void step(int c) {
    switch (mode) {
    case TEXT:
      if (c == '^') mode = BLANK;
      else if (c == '$') mode = WORD;
      else { content.push_back(c); if (c == '[') mode = SB; else if (c == '\\') mode = TEXT_ESC; }
      break;
    case TEXT_ESC: content.push_back(c); mode = TEXT; break;
    case SB: content.push_back(c); if (c == ']') mode = TEXT; else if (c == '\\') mode = SB_ESC; break;
    case SB_ESC: content.push_back(c); mode = SB; break;
    default: mode = BAD; break;
    }
  }
};
