#include "posttransfer_spec.h"
#include "spec_filter.h"
int main(int argc, char** argv) {
  return vc::search(argc, argv, 2, [](const vc::U32& in, int opt) {
    return vc::judge_filter(in, PostSpec(), false, [&](const std::string& b) {
      std::vector<std::string> a{REAL}; if (opt & 1) a.push_back("-z");
      return vc::run_process(a, b); });
  });
}
