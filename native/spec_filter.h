// judge of a stream filter against its specification automaton
#pragma once
#include "driver.h"
namespace vc {
// Spec: step(c), out;  bool wellformed(), bool due() (a flush is owed) may exist
template <class Spec> U32 spec_out(const Spec& s) { if constexpr (requires { s.final(); }) return s.final(); else return s.out; }
template <class Spec, class Run>
Verdict judge_filter(const U32& in, Spec sp, bool flush, Run run) {
  Verdict v;
  for (auto c : in) if (c == 0xFFFF || (c >= 0xD800 && c < 0xE000) || c > 0x10FFFF) return v;
  std::string bytes;
  std::vector<std::pair<size_t, size_t>> due;
  for (auto c : in) {
    if (!sp.admits(int(c))) return v;      // outside the precondition
    sp.step(int(c)); enc(bytes, c);
    if (flush && sp.due()) due.push_back({bytes.size(), utf8(sp.out).size()});
  }
  Ran r = run(bytes);
  std::string want = utf8(spec_out(sp));
  v.nontrivial = want != bytes;
  if (r.status == 4) { v.ok = false; v.why = r.what; return v; }
  if (!sp.wellformed()) return v;
  if (r.status != 0 && r.status != 3) { v.ok = false; v.why = "a well-formed input is rejected " + r.what + "; input " + show(in) + " expected output " + show(want); return v; }
  if (r.out != want) { v.ok = false; v.why = "input " + show(in) + " expected output " + show(want) + " but got " + show(r.out); return v; }
  for (auto& d : due) if (d.first < r.visible.size() && r.visible[d.first] < d.second) { v.ok = false; v.why = "input " + show(in) + ": output is not flushed at a NUL"; return v; }
  return v;
}
}
