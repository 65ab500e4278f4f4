// the reference texts of specs/lt_reference.h beside the library itself
#include "driver.h"
#include <lttoolbox/input_file.h>
#include "lt_reference.h"
static vc::Verdict judge(const vc::U32& in, int) {
  vc::Verdict v;
  if (in.empty()) return v;
  std::string res[2];
  for (int k = 0; k < 2; k++) {
    size_t i = 0;
    auto d = [&](unsigned n) { return i < in.size() ? in[i++] % n : 0; };
    std::string text;
    static const char* p[] = {"^", "$", "[", "]", "\\", "a", "[[", "]]", "\xc3\xa9", " ", "[[", "]]", "\\", "\xf0\x9f\x98\x80"};
    int n = d(20);
    for (int j = 0; j < n; j++) { int c = d(15); if (c == 14) text += '\0'; else text += p[c]; }
    // (before NUL or the end of the text the library ends the process after a backslash)
    std::string full; for (char c : text) { if (!c && !full.empty() && full.back() == '\\') full += 'x'; full += c; }
    if (!full.empty() && full.back() == '\\') full += 'x';
    std::ostringstream o;
    vc::run_stream(full, [&](FILE* fi, UFILE*) {
      InputFile f; f.wrap(fi);
      for (int step = 0; step < 12; step++) {
        UString r;
        switch (d(5)) {
          case 0: r = k ? f.readBlank(true) : vc_InputFile__readBlank(f, true); break;
          case 1: r = k ? f.readBlank(false) : vc_InputFile__readBlank(f, false); break;
          case 2: r = k ? f.readBlock('[', ']') : vc_InputFile__readBlock(f, '[', ']'); break;
          case 3: r = k ? f.finishWBlank() : vc_InputFile__finishWBlank(f); break;
          default: r = UString(1, char16_t(f.get())); break;
        }
        o << vc::show(vc::from_utf16(r)) << (f.eof() ? "!" : ";");
      }
    });
    res[k] = o.str();
  }
  v.nontrivial = true;
  if (res[0] != res[1]) { v.ok = false; v.why = "the library does " + res[1] + " where the reference text does " + res[0]; }
  return v;
}
int main(int argc, char** argv) {
  vc::gen() = [](vc::Rng& r) { vc::U32 s; int n = 30; for (int i = 0; i < n; i++) s += char32_t('0' + r(60)); return s; };
  return vc::search(argc, argv, 1, judge);
}
