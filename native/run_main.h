// runs a program's main in this process with standard input and output replaced
#pragma once
#include "driver.h"
namespace vc {
struct InBuf : std::streambuf {            // one byte at a time, so that flushes can be placed between reads
  Io* io; char ch = 0;
  explicit InBuf(Io* i) : io(i) {}
  int_type underflow() override {
    if (io->visible.size() <= io->ip) io->visible.resize(io->ip + 1, 0);
    io->visible[io->ip] = *flushed;
    if (io->ip >= io->in.size()) return traits_type::eof();
    ch = io->in[io->ip++]; setg(&ch, &ch, &ch + 1);
    return traits_type::to_int_type(ch);
  }
  size_t* flushed = nullptr;
};
struct OutBuf : std::streambuf {
  Io* io; size_t flushed = 0;
  explicit OutBuf(Io* i) : io(i) {}
  int_type overflow(int_type c) override { if (c != traits_type::eof()) io->out += char(c); return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { io->out.append(s, n); return n; }
  int sync() override { flushed = io->out.size(); return 0; }
};
// f(argc, argv) is the program's main
template <class F> Ran run_main(std::vector<std::string> args, const std::string& in, F f) {
  static bool once = (std::ios::sync_with_stdio(false), true); (void)once;
  args.insert(args.begin(), "program");
  std::vector<char*> a; for (auto& s : args) a.push_back(s.data()); a.push_back(nullptr);
  Io io; io.in = in;
  cookie_io_functions_t r{io_read, nullptr, nullptr, nullptr}, w{nullptr, io_write, nullptr, nullptr};
  FILE* fi = fopencookie(&io, "r", r); setvbuf(fi, nullptr, _IONBF, 0);
  FILE* fo = fopencookie(&io, "w", w);
  FILE *si = stdin, *so = stdout; stdin = fi; stdout = fo;
  InBuf ib(&io); OutBuf ob(&io); ib.flushed = &ob.flushed;
  std::cin.clear(); std::cout.clear();
  auto* ci = std::cin.rdbuf(&ib); auto* co = std::cout.rdbuf(&ob);
  optind = 0;
  Ran res;
  try { int rc = f((int)args.size(), a.data()); res.status = rc ? 1 : 0; }
  catch (VcExit& e) { res.status = e.code ? 1 : 3; }
  catch (std::exception& e) { res.status = 2; res.what = e.what(); }
  catch (...) { res.status = 2; res.what = "exception"; }
  std::cin.rdbuf(ci); std::cout.rdbuf(co);
  fflush(fo); stdin = si; stdout = so; fclose(fo);
  res.out = io.out; res.visible = io.visible;
  return res;
}
}
