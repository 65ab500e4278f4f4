#pragma once
#include <string>
// Specification of apertium-extract-caps: every unit is reduced to its first reading, and the
// case of its two forms is recorded in its word-bound blank; all else is copied.
// the entry for the case of the surface form and of the reading, added to a word-bound blank
extern std::u32string with_case(const std::u32string& wblank, const std::u32string& surface, const std::u32string& reading);
struct ExtractSpec {
  enum Mode { TEXT, TEXT_ESC, OPEN, SB, SB_ESC, WB, WB_ESC, WB_CLOSE, AFTER_WB, SURF, SURF_ESC, READ, READ_ESC, REST, REST_ESC, BAD };
  Mode mode = TEXT;
  bool keep = false;                    // option -s
  bool nul = false;
  std::u32string out;
  std::u32string wblank;                // the word-bound blank of the unit
  std::u32string surface;
  std::u32string reading;               // the first
  bool wellformed() const { return mode == TEXT || mode == AFTER_WB; }
  bool hopeless() const { return mode == BAD; }
  bool due() const { return nul; }
  bool admits(int c) const { return c != 0 || mode == TEXT || mode == AFTER_WB; }
  void text(int c) {
    if (c == '^') { surface.clear(); reading.clear(); mode = SURF; }
    else if (c == '[') mode = OPEN;
    else {
      out.push_back(c);
      if (c == '\\') mode = TEXT_ESC;
      else { mode = TEXT; if (c == 0) nul = true; }
    }
  }
  void finish() {
    out.append(with_case(wblank, surface, reading));
    wblank.clear();
    out.push_back('^');
    if (keep) { out.append(surface); out.push_back('/'); }
    out.append(reading);
    out.push_back('$');
    mode = TEXT;
  }
  void step(int c) {
    nul = false;
    switch (mode) {
    case TEXT: text(c); break;
    case TEXT_ESC: out.push_back(c); mode = TEXT; break;
    case OPEN:
      if (c == '[') { wblank.push_back('['); wblank.push_back('['); mode = WB; }
      else {
        out.push_back('['); out.push_back(c);
        if (c == ']') mode = TEXT;
        else if (c == '\\') mode = SB_ESC;
        else mode = SB;
      }
      break;
    case SB:
      out.push_back(c);
      if (c == ']') mode = TEXT;
      else if (c == '\\') mode = SB_ESC;
      break;
    case SB_ESC: out.push_back(c); mode = SB; break;
    case WB: case WB_CLOSE:
      wblank.push_back(c);
      if (c == ']') mode = mode == WB_CLOSE ? AFTER_WB : WB_CLOSE;
      else if (c == '\\') mode = WB_ESC;
      else mode = WB;
      break;
    case WB_ESC: wblank.push_back(c); mode = WB; break;
    case AFTER_WB:
      if (c != '^') { out.append(wblank); wblank.clear(); }
      text(c);
      break;
    case SURF:
      if (c == '/') mode = READ;
      else if (c == '$') mode = BAD;
      else { surface.push_back(c); if (c == '\\') mode = SURF_ESC; }
      break;
    case SURF_ESC: surface.push_back(c); mode = SURF; break;
    case READ:
      if (c == '/') mode = REST;
      else if (c == '$') finish();
      else { reading.push_back(c); if (c == '\\') mode = READ_ESC; }
      break;
    case READ_ESC: reading.push_back(c); mode = READ; break;
    case REST:
      if (c == '$') finish();
      else if (c == '\\') mode = REST_ESC;
      break;
    case REST_ESC: mode = REST; break;
    case BAD: break;
    }
  }
  // what is written once the input has ended
  std::u32string final() const { std::u32string r = out; if (mode == AFTER_WB) r.append(wblank); return r; }
};
