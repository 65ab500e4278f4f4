#include "cleanstream_spec.h"
#include "spec_filter.h"
int main(int argc, char** argv) {
  return vc::search(argc, argv, 4, [](const vc::U32& in, int opt) {
    CleanSpec sp; sp.lines = opt & 1; sp.keep = opt & 2;
    return vc::judge_filter(in, sp, false, [&](const std::string& b) {
      std::vector<std::string> a{REAL}; if (opt & 1) a.push_back("-n"); if (opt & 2) a.push_back("-b");
      return vc::run_process(a, b); });
  });
}
