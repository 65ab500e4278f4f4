#include "driver.h"
#define exit(x) vc_exit(x)
#define main real_main
#include <apertium/apertium_posttransfer.cc>
#undef main
#undef exit
#include "posttransfer_spec.h"
#include "spec_filter.h"
int main(int argc, char** argv) {
  return vc::search(argc, argv, 2, [](const vc::U32& in, int opt) {
    return vc::judge_filter(in, PostSpec(), opt & 1, [&](const std::string& b) {
      return vc::run_stream(b, [&](FILE* fi, UFILE* fo) { InputFile i; i.wrap(fi); processStream(i, fo, opt & 1); }); });
  });
}
