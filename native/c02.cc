#include "driver.h"
#define exit(x) vc_exit(x)
#include <apertium/pretransfer.cc>
#undef exit
#include "pretransfer_spec.h"
#include "spec_filter.h"
int main(int argc, char** argv) {
  return vc::search(argc, argv, 8, [](const vc::U32& in, int opt) {
    PreSpec sp; sp.surface = opt & 2; sp.compound = opt & 4;
    return vc::judge_filter(in, sp, opt & 1, [&](const std::string& b) {
      return vc::run_stream(b, [&](FILE* fi, UFILE* fo) { InputFile i; i.wrap(fi); processStream(i, fo, opt & 1, opt & 2, opt & 4); }); });
  });
}
