#pragma once
#include <string>
#include <vector>
#include <apertium/lexical_unit.h>
#include <apertium/streamed_type.h>
// The text of a morpheme, of an analysis; the texts of the analyses that were not chosen; the best analysis; the output.
namespace Apertium {
struct MorphemeText {
  UString out;
  void step(const UString& tag) { out.push_back('<'); out += tag; out.push_back('>'); }
};
extern UString morpheme_text(const Morpheme& m);
extern UString analysis_text(const Analysis& a);
struct AnalysisText {
  UString out;
  bool any = false;
  void step(const Morpheme& m) { if (any) out.push_back('+'); any = true; out += morpheme_text(m); }
};
struct OtherAnalyses {
  UString out;
  Analysis chosen;
  void step(const Analysis& a) { if (!(a == chosen)) { out.push_back('/'); out += analysis_text(a); } }
};
extern long double score_of(const Analysis& a);
struct BestAnalysis {
  bool any = false;
  Analysis best;
  void step(const Analysis& a) { if (!any || score_of(a) > score_of(best)) best = a; any = true; }
};
// what Stream::get gives at each call, and what the tagger writes for it
extern UString got_text(int g), got_unit(int g);
extern bool got_known(int g), got_flush(int g);
struct Written {
  UString out;
  bool end = false, flush = false;
  void step(int g) {
    out += got_text(g);
    if (got_known(g)) out += got_unit(g);
    else if (!got_flush(g)) end = true;
    flush = got_flush(g);
    if (flush) out.push_back(0);
  }
};
}
