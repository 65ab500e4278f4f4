#include "run_main.h"
extern "C" int real_main(int, char**);
#include "detach_spec.h"
#include "spec_filter.h"
int main(int argc, char** argv) {
  return vc::search(argc, argv, 2, [](const vc::U32& in, int opt) {
    DetachSpec sp;
    return vc::judge_filter(in, sp, true, [&](const std::string& b) {
      std::vector<std::string> a; if (opt) a.push_back("-z");
      return vc::run_main(a, b, real_main); });
  });
}
