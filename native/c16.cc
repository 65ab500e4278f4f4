#include "run_main.h"
extern "C" int real_main(int, char**);
#include "caps_spec.h"
#include "spec_filter.h"
#include <lttoolbox/string_utils.h>
static UString u(const vc::U32& s) { return vc::utf16(s); }
vc::U32 with_case(const vc::U32& wb, const vc::U32& surface, const vc::U32& reading) {
  size_t last = reading.rfind(U">+"); if (last == vc::U32::npos) last = 0;
  size_t end = reading.find(U'<', last);
  UString c = u"[[c:"; c += StringUtils::getcase(u(surface)); c += u"/"; c += StringUtils::getcase(u(reading.substr(0, end))); c += u"]]";
  return vc::from_utf16(StringUtils::merge_wblanks(u(wb), c));
}
int main(int argc, char** argv) {
  return vc::search(argc, argv, 2, [](const vc::U32& in, int opt) {
    ExtractSpec sp; sp.keep = opt & 1;
    return vc::judge_filter(in, sp, true, [&](const std::string& b) {
      std::vector<std::string> a{"-z"}; if (opt & 1) a.push_back("-s");
      return vc::run_main(a, b, real_main); });
  });
}
