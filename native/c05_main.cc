#include "detach_spec.h"
#include "spec_filter.h"
int main(int argc, char** argv) {
  return vc::search(argc, argv, 2, [](const vc::U32& in, int opt) {
    DetachSpec sp;
    return vc::judge_filter(in, sp, false, [&](const std::string& b) {
      std::vector<std::string> a{REAL}; if (opt) a.push_back("-z");
      return vc::run_process(a, b); });
  });
}
