#pragma once
#include <string>
#include <vector>
// One morpheme of an analysis: the lemma (text up to the first tag), the tags, the lemma queue.
struct MorphSpec {
  enum Mode { LEMMA, ESC, TAG, TAG_ESC, AFTER, QUEUE, QUEUE_ESC, DONE, BAD, NO_LEMMA, NO_TAGS, EMPTY_TAG, LATE_TAG };
  Mode mode = LEMMA;
  std::u32string lemma, tag;
  std::vector<std::u32string> tags;
  bool complete() const { return mode == DONE; }
  bool bad() const { return mode >= BAD; }
  bool inside() const { return mode < DONE; }
  bool stops(int c) const {           // the morpheme ends before c
    return mode == AFTER && c != '<' && c != '#' || mode == QUEUE && (c == '$' || c == '/' || c == '+' || c == 0);
  }
  bool ended() const { return mode == AFTER || mode == QUEUE; }
  bool refuses(int c) const { return (mode == ESC || mode == QUEUE_ESC) && c == 0; }
  // the precondition: no NUL inside a tag
  bool admits(int c) const { return mode != TAG && mode != TAG_ESC || c != 0; }
  void step(int c) {
    switch (mode) {
    case LEMMA:
      if (c == '<') { if (lemma.empty()) mode = NO_LEMMA; else { mode = TAG; tag.clear(); } }
      else if (c == '$' || c == '/' || c == 0) mode = NO_TAGS;
      else { lemma.push_back(c); if (c == '\\') mode = ESC; }
      break;
    case ESC: if (c == 0) mode = BAD; else { lemma.push_back(c); mode = LEMMA; } break;
    case TAG:
      if (c == '>') { if (tag.empty()) mode = EMPTY_TAG; else { tags.push_back(tag); mode = AFTER; } }
      else { tag.push_back(c); if (c == '\\') mode = TAG_ESC; }
      break;
    case TAG_ESC: tag.push_back(c); mode = TAG; break;
    case AFTER:
      if (c == '<') { mode = TAG; tag.clear(); }
      else if (c == '#') { lemma.push_back(c); mode = QUEUE; }
      else mode = DONE;                                            // c is left for the reader of the analysis
      break;
    case QUEUE:
      if (c == '<') mode = LATE_TAG;
      else if (c == '$' || c == '/' || c == '+' || c == 0) mode = DONE;
      else { lemma.push_back(c); if (c == '\\') mode = QUEUE_ESC; }
      break;
    case QUEUE_ESC: if (c == 0) mode = BAD; else { lemma.push_back(c); mode = QUEUE; } break;
    default: mode = BAD; break;
    }
  }
};

// Text between units, then a unit up to its analyses.
struct UnitText {
  enum Mode { TEXT, TEXT_ESC, OPEN, SB, SB_ESC, WB, WB_ESC, WB_CLOSE, SURF, SURF_ESC, FIRST, ANALYSES, UNKNOWN, UNKNOWN_ESC, DONE, BAD, EMPTY, NO_ANALYSES, CUT };
  Mode mode = TEXT;
  std::u32string blank, surface;
  int start = 0;                      // where the analyses begin
  bool text() const { return mode == TEXT; }
  bool blank_ended() const { return mode != TEXT_ESC && mode != OPEN && mode != SB && mode != SB_ESC && mode != WB && mode != WB_ESC && mode != WB_CLOSE; }
  bool unknown() const { return mode == DONE; }
  bool analyses() const { return mode == ANALYSES; }
  bool first() const { return mode == FIRST; }
  bool unended() const { return mode == UNKNOWN || mode == UNKNOWN_ESC; }
  bool dangling() const { return mode == TEXT_ESC; }
  bool rejected() const { return mode != TEXT && mode != ANALYSES && mode != DONE; }   // malformed, if the text ends here
  bool bad() const { return mode >= BAD; }
  // the precondition: no NUL inside brackets or after a backslash
  bool admits(int c) const { return c != 0 || mode == TEXT || mode == SURF || mode == FIRST || mode == ANALYSES || mode == DONE; }
  void step(int c) {
    if (mode < FIRST) start++;
    switch (mode) {
    case TEXT:
      if (c == '^') mode = SURF;
      else if (c == 0) mode = BAD;                    // a unit does not follow
      else { blank.push_back(c); if (c == '\\') mode = TEXT_ESC; else if (c == '[') mode = OPEN; }
      break;
    case TEXT_ESC: blank.push_back(c); mode = TEXT; break;
    case OPEN: blank.push_back(c); mode = c == '[' ? WB : c == ']' ? TEXT : c == '\\' ? SB_ESC : SB; break;
    case SB: blank.push_back(c); if (c == ']') mode = TEXT; else if (c == '\\') mode = SB_ESC; break;
    case SB_ESC: blank.push_back(c); mode = SB; break;
    case WB: blank.push_back(c); if (c == '\\') mode = WB_ESC; else if (c == ']') mode = WB_CLOSE; break;
    case WB_ESC: blank.push_back(c); mode = WB; break;
    case WB_CLOSE: blank.push_back(c); mode = c == ']' ? TEXT : c == '\\' ? WB_ESC : WB; break;
    case SURF:
      if (c == '/') mode = surface.empty() ? EMPTY : FIRST;
      else if (c == '$') mode = NO_ANALYSES;
      else if (c == 0) mode = CUT;
      else { surface.push_back(c); if (c == '\\') mode = SURF_ESC; }
      break;
    case SURF_ESC: surface.push_back(c); mode = SURF; break;
    case FIRST: mode = c == '*' ? UNKNOWN : c == '$' ? NO_ANALYSES : ANALYSES; break;
    case ANALYSES: break;                             // from here on the contract of Analysis::read
    case UNKNOWN: if (c == '$') mode = DONE; else if (c == '\\') mode = UNKNOWN_ESC; break;
    case UNKNOWN_ESC: mode = UNKNOWN; break;
    default: mode = BAD; break;
    }
  }
};
