#include "driver.h"
#include <lttoolbox/input_file.h>
#include <lttoolbox/buffer.h>
#include <lttoolbox/compression.h>
#include <lttoolbox/transducer.h>
#include <lttoolbox/xml_walk_util.h>
#define private public
#define protected public
#include <apertium/transfer.h>
#include <apertium/interchunk.h>
#include <apertium/postchunk.h>
#include <apertium/transfer_mult.h>
#undef private
#undef protected
#include "tokens_spec.h"
using vc::U32;
struct Tok { int type; U32 text; };

// the tokens the specification cuts; false if the stream is outside the precondition
template <class Spec> bool cut(const U32& in, bool nulls, typename Spec::Mode after, std::vector<Tok>& out) {
  Spec s; s.nulls = nulls;
  for (size_t i = 0; i <= in.size(); i++) {
    if (i == in.size() || s.complete()) {
      if (i == in.size() && s.inside()) return false;
      bool done = s.complete(), b = s.bound();
      out.push_back({s.type(), s.content});
      if (!done) return true;
      s = Spec(); s.nulls = nulls; if (b && after != Spec::TEXT) s.mode = after;
      if (i == in.size()) { if (s.inside()) return false; out.push_back({0, U32()}); return true; }
    }
    if (!s.admits(int(in[i]))) return false;
    s.step(int(in[i]));
  }
  return true;
}
template <class Stage> void null(Stage& s, bool v) { s.internal_null_flush = v; }
template <> void null(TransferMult&, bool) {}
template <class Stage, class Spec> vc::Verdict judge(const U32& in, bool nulls, typename Spec::Mode after) {
  vc::Verdict v;
  std::vector<Tok> want, got;
  if (!cut<Spec>(in, nulls, after, want)) return v;
  bool written = false;
  vc::Ran r = vc::run_stream(vc::utf8(in), [&](FILE* fi, UFILE* fo) {
    Stage s; s.output = fo; null(s, nulls);
    InputFile f; f.wrap(fi);
    for (size_t i = 0; i < want.size(); i++) {
      auto& t = s.readToken(f);
      UString u = t.getContent();
      got.push_back({int(t.getType()), vc::from_utf16(u)});
      if (i + 1 == want.size() && i % 2) {      // a kept token comes back as it was
        s.input_buffer.back(1);
        auto& k = s.readToken(f);
        got.push_back({int(k.getType()), vc::from_utf16(k.getContent())});
        want.push_back(want.back()); break;
      }
    } });
  v.nontrivial = want.size() > 2;
  if (r.status) { v.ok = false; v.why = "input " + vc::show(in) + ": " + r.what; return v; }
  if (!r.out.empty()) { v.ok = false; v.why = "input " + vc::show(in) + ": reading a token writes " + vc::show(r.out); return v; }
  for (size_t i = 0; i < want.size(); i++)
    if (i >= got.size() || want[i].type != got[i].type || want[i].text != got[i].text) {
      v.ok = false;
      v.why = "input " + vc::show(in) + ": token " + std::to_string(i) + " should be of type " + std::to_string(want[i].type) + " with text " + vc::show(want[i].text) + " but is " + (i < got.size() ? "of type " + std::to_string(got[i].type) + " with text " + vc::show(got[i].text) : "missing");
      return v;
    }
  return v;
}
int main(int argc, char** argv) {
  return vc::search(argc, argv, 7, [](const U32& in, int opt) {
    for (auto c : in) if (c == 0xFFFF || (c >= 0xD800 && c < 0xE000) || c > 0x10FFFF) return vc::Verdict();
    switch (opt) {
    case 0: case 1: return judge<Transfer, UnitTok>(in, opt & 1, UnitTok::WB_FIRST);
    case 2: case 3: return judge<Interchunk, ChunkTok>(in, opt & 1, ChunkTok::IN);
    case 4: case 5: return judge<Postchunk, ChunkTok>(in, opt & 1, ChunkTok::IN);
    default: return judge<TransferMult, PlainTok>(in, false, PlainTok::TEXT);
    }
  });
}
