#pragma once
#include <string>
#include <vector>
// The forms of the tags that were not chosen, in the order of the tags.
extern UString form_of(int t);
struct OtherForms {
  UString out;
  int chosen = 0;
  void step(const int& t) { if (t != chosen) { out.push_back('/'); out += form_of(t); } }
};
// whether a prefer rule matches
extern bool preferred(const UString& rule);
struct AnyPreferred {
  bool any = false;
  bool done() const { return any; }
  void step(const UString& rule) { if (preferred(rule)) any = true; }
};
// the smallest known class that includes the given tags and is smaller than the open class; the open class if none
extern int class_size(int c), open_size();
extern bool class_includes(int c);
struct SimilarClass {
  int best = -1;
  int size() const { return best < 0 ? open_size() : class_size(best); }
  void step(const int& c) { if (class_size(c) < size() && class_includes(c)) best = c; }
};
