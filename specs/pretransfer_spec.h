#pragma once
#include <string>
// Specification automaton of pretransfer: multiword units are split at '+' (and,
// as an option, compounds at '~'), with the lemma queue moved; all else is copied.
struct PreSpec {
  enum Mode { TEXT, TEXT_ESC, OPEN, SB, SB_ESC, WB, WB_ESC, WB_CLOSE, WB_DONE,
              SURF, SURF_ESC, LU, LU_ESC, BAD };
  Mode mode = TEXT;
  bool surface = false, compound = false;     // options
  bool intag = false, tail = false, queue = false;
  bool nul = false;                           // a top-level NUL was just read
  std::u32string out;    // text that must have been produced so far
  std::u32string buf;    // the part of the unit held back behind the lemma queue
  std::u32string wb;     // the word-bound blank of the unit

  bool wellformed() const { return mode == TEXT; }
  bool hopeless() const { return mode == BAD; }
  bool admits(int c) const { return c != 0 || mode == TEXT || mode == SB; }   // no NUL inside a unit or a word-bound blank
  bool due() const { return nul; }
  void put(int c) { if (tail) buf.push_back(c); else out.push_back(c); }
  void split(bool spaced) {
    buf.push_back('$');
    if (spaced) buf.push_back(' ');
    buf.append(wb);
    buf.push_back('^');
    tail = true;
  }
  void begin() {
    out.push_back('^');
    intag = false; tail = false; queue = false;
    buf.clear();
    mode = surface ? SURF : LU;
  }
  void text(int c) {
    if (c == '[') { out.push_back(c); mode = OPEN; }
    else if (c == '\\') { out.push_back(c); mode = TEXT_ESC; }
    else if (c == '^') { wb.clear(); begin(); }
    else { out.push_back(c); nul = (c == 0); }
  }
  void unit(int c) {
    if (c == '$') { out.append(buf); out.push_back('$'); mode = TEXT; intag = tail = queue = false; return; }
    if (c == '\\') { put(c); mode = LU_ESC; return; }
    if (c == '<') { intag = true; tail = true; put(c); return; }
    if (c == '>') { intag = false; put(c); return; }
    if (c == '#' && tail) { tail = false; queue = true; put(c); return; }
    if (c == '+' && tail && !intag) { split(true); return; }
    if (c == '+' && !tail && queue) { split(true); return; }
    if (c == '~' && tail && !intag) { if (compound) split(false); return; }
    put(c);
  }
  void step(int c) {
    nul = false;
    switch (mode) {
    case TEXT: text(c); break;
    case TEXT_ESC: out.push_back(c); mode = TEXT; break;
    case OPEN:
      if (c == '[') { out.push_back(c); wb.clear(); wb.push_back('['); wb.push_back('['); mode = WB; }
      else { out.push_back(c); if (c == ']') mode = TEXT; else if (c == '\\') mode = SB_ESC; else mode = SB; }
      break;
    case SB:
      out.push_back(c);
      if (c == ']') mode = TEXT; else if (c == '\\') mode = SB_ESC;
      break;
    case SB_ESC: out.push_back(c); mode = SB; break;
    case WB: case WB_CLOSE:
      out.push_back(c); wb.push_back(c);
      if (c == '\\') mode = WB_ESC;
      else if (c == ']') mode = (mode == WB_CLOSE) ? WB_DONE : WB_CLOSE;
      else mode = WB;
      break;
    case WB_ESC: out.push_back(c); wb.push_back(c); mode = WB; break;
    case WB_DONE: if (c == '^') begin(); else mode = BAD; break;
    case SURF: if (c == '\\') mode = SURF_ESC; else if (c == '/') mode = LU; break;
    case SURF_ESC: mode = SURF; break;
    case LU: unit(c); break;
    case LU_ESC: put(c); mode = LU; break;
    case BAD: break;
    }
  }
};
