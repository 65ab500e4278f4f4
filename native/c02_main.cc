#include "pretransfer_spec.h"
#include "spec_filter.h"
int main(int argc, char** argv) {
  return vc::search(argc, argv, 8, [](const vc::U32& in, int opt) {
    PreSpec sp; sp.surface = opt & 2; sp.compound = opt & 4;
    return vc::judge_filter(in, sp, false, [&](const std::string& b) {
      std::vector<std::string> a{REAL}; if (opt & 1) a.push_back("-z"); if (opt & 2) a.push_back("-n"); if (opt & 4) a.push_back("-e");
      return vc::run_process(a, b); });
  });
}
