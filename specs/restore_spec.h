#pragma once
// Specification of what apertium-restore-caps writes for the words it holds, and of
// how a form is read.
#include <lttoolbox/ustring.h>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <lttoolbox/input_file.h>
#include <lttoolbox/state.h>
#include <lttoolbox/trans_exe.h>
#define private public
#include <apertium/caps_restorer.h>
#undef private
extern UString lower_case(const UString& s);
extern UString title_case(const UString& s);
extern UString upper_case(const UString& s);
// every word with the case of the largest weight; where weights are equal: as it is, aa, Aa, AA
struct RestoreSpec {
  UString out;
  void step(const CapsRestorer::LU& w) {
    out.append(w.blank);
    if (!w.surf.empty()) {
      out.append(w.wblank);
      if (w.w_dix >= w.w_aa && w.w_dix >= w.w_Aa && w.w_dix >= w.w_AA) out.append(w.surf);
      else if (w.w_aa >= w.w_Aa && w.w_aa >= w.w_AA) out.append(lower_case(w.surf));
      else if (w.w_Aa >= w.w_AA) out.append(title_case(w.surf));
      else out.append(upper_case(w.surf));
      if (!w.wblank.empty()) { out.push_back('['); out.push_back('['); out.push_back('/'); out.push_back(']'); out.push_back(']'); }
    }
  }
};
// a form of a unit ends before the first / or $ that is neither escaped nor inside a tag
struct SegSpec {
  enum Mode { SEG, SEG_ESC, TAG, TAG_ESC, PAST };
  Mode mode = SEG;
  std::u32string text;
  bool admits(int c) const { return c != 0; }
  void step(int c) {
    if (mode == PAST) return;
    if (mode == SEG && (c == '/' || c == '$')) { mode = PAST; return; }
    text.push_back(c);
    switch (mode) {
    case SEG: if (c == '\\') mode = SEG_ESC; else if (c == '<') mode = TAG; break;
    case SEG_ESC: mode = SEG; break;
    case TAG: if (c == '\\') mode = TAG_ESC; else if (c == '>') mode = SEG; break;
    case TAG_ESC: mode = TAG; break;
    case PAST: break;
    }
  }
};
