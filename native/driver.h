// Generic driver of the replay harnesses: tries inputs on the real code, in
// several processes, and writes the first one the judge rejects.
#pragma once
#include "prelude.h"
#include <chrono>
#include <random>
namespace vc {
using U32 = std::u32string;
using Clock = std::chrono::steady_clock;

struct Verdict { bool ok = true; bool nontrivial = false; std::string why; };

inline void enc(std::string& o, char32_t c) {
  if (c < 0x80) o += char(c);
  else if (c < 0x800) { o += char(0xC0 | c >> 6); o += char(0x80 | (c & 63)); }
  else if (c < 0x10000) { o += char(0xE0 | c >> 12); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
  else { o += char(0xF0 | c >> 18); o += char(0x80 | ((c >> 12) & 63)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
}
inline std::string utf8(const U32& s) { std::string o; for (auto c : s) enc(o, c); return o; }
inline U32 from_utf8(const std::string& s) {
  U32 o;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    if (c < 0x80) { o += c; i++; }
    else if (c < 0xE0 && i + 1 < s.size()) { o += char32_t((c & 31) << 6 | (s[i + 1] & 63)); i += 2; }
    else if (c < 0xF0 && i + 2 < s.size()) { o += char32_t((c & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63)); i += 3; }
    else if (i + 3 < s.size()) { o += char32_t((c & 7) << 18 | (s[i + 1] & 63) << 12 | (s[i + 2] & 63) << 6 | (s[i + 3] & 63)); i += 4; }
    else { o += 0xFFFD; i++; }
  }
  return o;
}
inline std::u16string utf16(const U32& s) {
  std::u16string o;
  for (auto c : s) { if (c < 0x10000) o += char16_t(c); else { c -= 0x10000; o += char16_t(0xD800 + (c >> 10)); o += char16_t(0xDC00 + (c & 0x3FF)); } }
  return o;
}
inline U32 from_utf16(const std::u16string_view s) {
  U32 o;
  for (size_t i = 0; i < s.size(); i++) {
    char32_t c = s[i];
    if (c >= 0xD800 && c < 0xDC00 && i + 1 < s.size() && s[i + 1] >= 0xDC00 && s[i + 1] < 0xE000) { c = 0x10000 + ((c - 0xD800) << 10) + (s[i + 1] - 0xDC00); i++; }
    o += c;
  }
  return o;
}
inline std::string show(const U32& s) {
  std::string o = "\"";
  for (auto c : s) {
    char b[16];
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 32) { snprintf(b, sizeof b, "\\u%04x", unsigned(c)); o += b; }
    else enc(o, c);
  }
  return o + "\"";
}
inline std::string show(const std::string& s) { return show(from_utf8(s)); }

// ---------------------------------------------------------------- stream filters in process
struct Io { std::string in; size_t ip = 0; std::string out; std::vector<size_t> visible; };
inline ssize_t io_read(void* p, char* b, size_t n) {
  Io* io = (Io*)p;
  if (io->visible.size() <= io->ip) io->visible.resize(io->ip + 1, 0);
  io->visible[io->ip] = io->out.size();
  if (io->ip >= io->in.size() || !n) return 0;
  b[0] = io->in[io->ip++];
  return 1;
}
inline ssize_t io_write(void* p, const char* b, size_t n) { ((Io*)p)->out.append(b, n); return n; }
struct Ran { int status = 0; std::string out; std::vector<size_t> visible; std::string what; };   // 0 returned, 1 exit(nonzero), 2 exception, 3 exit(0)
// f(FILE* in, UFILE* out)
// (an InputFile that wraps in closes it; pass own = true otherwise)
template <class F> Ran run_stream(const std::string& in, F f, bool own = false) {
  Io io; io.in = in;
  cookie_io_functions_t r{io_read, nullptr, nullptr, nullptr}, w{nullptr, io_write, nullptr, nullptr};
  FILE* fi = fopencookie(&io, "r", r); setvbuf(fi, nullptr, _IONBF, 0);
  FILE* fo = fopencookie(&io, "w", w);
  UFILE* uo = u_finit(fo, nullptr, "UTF-8");
  Ran res;
  try { f(fi, uo); }
  catch (VcExit& e) { res.status = e.code ? 1 : 3; }
  catch (std::exception& e) { res.status = 2; res.what = e.what(); }
  catch (...) { res.status = 2; res.what = "exception"; }
  u_fflush(uo); u_fclose(uo); fclose(fo); if (own) fclose(fi);
  res.out = io.out; res.visible = io.visible;
  return res;
}

// ---------------------------------------------------------------- a process
inline Ran run_process(const std::vector<std::string>& argv, const std::string& in, int secs = 10) {
  Ran r;
  int pi[2], po[2];
  if (pipe(pi) || pipe(po)) { r.status = 9; return r; }
  pid_t pid = fork();
  if (!pid) {
    dup2(pi[0], 0); dup2(po[1], 1); close(pi[0]); close(pi[1]); close(po[0]); close(po[1]);
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 2);
    alarm(secs);
    std::vector<char*> a; for (auto& s : argv) a.push_back((char*)s.c_str()); a.push_back(nullptr);
    execv(a[0], a.data()); _exit(127);
  }
  close(pi[0]); close(po[1]);
  pid_t wr = fork();
  if (!wr) { close(po[0]); signal(SIGPIPE, SIG_DFL); size_t k = 0; while (k < in.size()) { ssize_t n = ::write(pi[1], in.data() + k, in.size() - k); if (n <= 0) break; k += n; } _exit(0); }
  close(pi[1]);
  char buf[65536]; ssize_t n;
  while ((n = ::read(po[0], buf, sizeof buf)) > 0) r.out.append(buf, n);
  close(po[0]);
  int st; waitpid(pid, &st, 0); int x; kill(wr, SIGKILL); waitpid(wr, &x, 0);
  if (WIFEXITED(st)) r.status = WEXITSTATUS(st) ? 1 : 0; else { r.status = 4; r.what = "killed by signal " + std::to_string(WTERMSIG(st)); }
  return r;
}

// ---------------------------------------------------------------- search
struct Grammar { std::vector<char32_t> alpha, chars; std::vector<std::pair<int, U32>> tok; long total = 0; };
struct Shared { volatile long evals, nontriv; volatile int len; volatile int opt; volatile int done; char32_t cur[20000]; };

struct Rng {
  std::mt19937_64 g;
  explicit Rng(uint64_t s) : g(s) {}
  uint64_t operator()(uint64_t n) { return n ? g() % n : 0; }
};
inline U32 token(const Grammar& G, Rng& r) {
  if (r(8) == 0 && !G.chars.empty()) return U32(1, G.chars[r(G.chars.size())]);
  long k = r(G.total);
  for (auto& t : G.tok) { k -= t.first; if (k < 0) return t.second; }
  return U32();
}
// a harness may bring its own random inputs
inline std::function<U32(Rng&)>& gen() { static std::function<U32(Rng&)> g; return g; }
inline U32 random_input(const Grammar& G, Rng& r) {
  if (gen()) return gen()(r);
  U32 s;
  int kind = r(100);
  int n = kind < 60 ? 1 + r(8) : kind < 90 ? 1 + r(25) : kind < 97 ? 1 + r(120) : 1 + r(400);
  if (kind == 99) { U32 a = token(G, r), b = token(G, r), c = token(G, r); int k = r(2000); s += a; for (int i = 0; i < k && s.size() < 9000; i++) s += b; s += c; }
  else for (int i = 0; i < n && s.size() < 9000; i++) s += token(G, r);
  if (r(4) == 0 && !s.empty()) { int m = 1 + r(2); while (m-- && !s.empty()) { size_t p = r(s.size()); if (r(2)) s.erase(p, 1); else s[p] = G.chars[r(G.chars.size())]; } }
  return s;
}
inline bool load(const char* fn, Grammar& G) {
  std::ifstream f(fn); std::string line;
  while (std::getline(f, line)) {
    std::istringstream ls(line); char k; ls >> k; int w = 1;
    if (k == 'T') ls >> w;
    U32 s; unsigned long x; while (ls >> x) s += char32_t(x);
    for (auto c : s) if (std::find(G.chars.begin(), G.chars.end(), c) == G.chars.end()) G.chars.push_back(c);
    if (k == 'A') for (auto c : s) G.alpha.push_back(c);
    if (k == 'T') { G.tok.push_back({w, s}); G.total += w; }
  }
  return true;
}
inline void report(const char* out, const U32& s, int opt, const std::string& why) {
  std::string tmp = std::string(out) + "." + std::to_string(getpid());
  std::ofstream f(tmp);
  f << "opt " << opt << "\ninput";
  for (auto c : s) f << ' ' << (unsigned long)c;
  f << "\nwhy " << why << "\n"; f.close();
  rename(tmp.c_str(), out);
}
// judge(input, option) on the real code
template <class J> int search(int argc, char** argv, int nopt, J judge) {
  if (argc > 2 && std::string(argv[1]) == "--case") {
    std::ifstream f(argv[2]); std::string w; int opt = 0; U32 s; std::string line;
    while (std::getline(f, line)) { std::istringstream l(line); l >> w; unsigned long x; if (w == "opt") l >> opt; else if (w == "input") while (l >> x) s += char32_t(x); }
    Verdict v = judge(s, opt);
    std::cout << (v.ok ? "holds" : "FAILS: " + v.why) << std::endl;
    return v.ok ? 0 : 1;
  }
  double secs = atof(argv[1]); uint64_t seed = atoll(argv[2]); int np = atoi(argv[3]);
  Grammar G; load(argv[4], G); const char* out = argv[5];
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared) * np, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto t0 = Clock::now();
  auto el = [&] { return std::chrono::duration<double>(Clock::now() - t0).count(); };
  std::vector<pid_t> pid(np);
  auto quiet = [] { if (!getenv("VC_DEBUG")) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); dup2(dn, 1); } };
  auto spawn = [&](int rank, int round) {
    pid[rank] = fork();
    if (pid[rank]) return;
    Shared& S = sh[rank];
    quiet();
    auto bad = [&](const U32& s0, int opt) {
      U32 s = s0; Verdict v = judge(s, opt);
      double lim = el() + 20;
      for (size_t chunk = s.size() / 2 + 1; chunk >= 1 && el() < lim; chunk /= 2)
        for (size_t i = 0; i + 1 <= s.size() && el() < lim;) {
          U32 t = s; t.erase(i, chunk);
          S.len = std::min<size_t>(t.size(), 20000); for (int q = 0; q < S.len; q++) S.cur[q] = t[q]; S.opt = opt;
          Verdict w = judge(t, opt);
          if (!w.ok) { s = t; v = w; } else i += chunk;
        }
      report(out, s, opt, v.why);
    };
    auto one = [&](const U32& s, int opt) {
      S.len = std::min<size_t>(s.size(), 20000); for (int i = 0; i < S.len; i++) S.cur[i] = s[i];
      S.opt = opt;
      Verdict v = judge(s, opt);
      S.evals = S.evals + 1; S.nontriv = S.nontriv + v.nontrivial;
      if (!v.ok) { bad(s, opt); return false; }
      return true;
    };
    // every string over the small alphabet, by length, for half of the time
    long idx = 0;
    bool stop = false;
    if (!G.alpha.empty() && !round) for (int L = 0; L <= 12 && !stop; L++) {
      std::vector<int> d(L, 0);
      for (;;) {
        for (int o = 0; o < nopt; o++) if (idx++ % np == rank) {
          U32 s; for (int i : d) s += G.alpha[i];
          if (!one(s, o)) vc_really_exit(1);
        }
        if (el() > secs / 2) { stop = true; break; }
        int i = L - 1; while (i >= 0 && ++d[i] == (int)G.alpha.size()) d[i--] = 0;
        if (i < 0) break;
      }
      if (!stop) S.done = L;
    }
    Rng r(seed * 1000 + rank + round * 1000003ull);
    for (int n = 1; el() < secs; n++) {
      U32 s = random_input(G, r); if (!one(s, r(nopt))) vc_really_exit(1);
      if (n % 200 == 0) {                      // what the code leaks adds up: go on in a new process
        long a = 0, rss = 0; if (FILE* f = fopen("/proc/self/statm", "r")) { if (fscanf(f, "%ld %ld", &a, &rss) != 2) rss = 0; fclose(f); }
        if (rss * 4096 > 1000l << 20) vc_really_exit(77);
      }
    }
    vc_really_exit(0);
  };
  // a crash counts if the same input crashes a fresh process
  auto again = [&](const U32& s, int opt) {
    pid_t c = fork();
    if (!c) { quiet(); alarm(60); Verdict v = judge(s, opt); vc_really_exit(v.ok ? 0 : 1); }
    int st; waitpid(c, &st, 0);
    return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  };
  std::vector<int> round(np, 0);
  for (int rank = 0; rank < np; rank++) spawn(rank, 0);
  int left = np, bad = 0;
  std::vector<long> last(np, -1); std::vector<double> since(np, 0);
  std::vector<bool> dead(np, false);
  while (left) {
    for (int k = 0; k < np; k++) if (!dead[k]) {
      int st; pid_t w = waitpid(pid[k], &st, WNOHANG);
      bool crash = false; std::string why;
      if (w == pid[k]) {
        dead[k] = true; left--;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { dead[k] = false; left++; spawn(k, ++round[k]); }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && access(out, R_OK) == 0) bad = 1;
        else if (WIFSIGNALED(st) || WEXITSTATUS(st)) { crash = true; why = "the program crashes (memory or arithmetic error)"; }
      } else {
        if (sh[k].evals != last[k]) { last[k] = sh[k].evals; since[k] = el(); }
        else if (el() - since[k] > 20 && !bad) { kill(pid[k], SIGKILL); waitpid(pid[k], &st, 0); dead[k] = true; left--; crash = true; why = "the program does not terminate"; }
      }
      if (crash && !bad && why[12] == 'c' && round[k] < 40 && !again(U32((char32_t*)sh[k].cur, sh[k].len), sh[k].opt)) { crash = false; dead[k] = false; left++; spawn(k, ++round[k]); }
      if (crash && !bad) { bad = 1; report(out, U32((char32_t*)sh[k].cur, sh[k].len), sh[k].opt, why); }
      if (bad) for (int j = 0; j < np; j++) if (!dead[j]) { kill(pid[j], SIGKILL); waitpid(pid[j], &st, 0); dead[j] = true; left--; }
    }
    usleep(20000);
  }
  long ev = 0, nt = 0; int L = 99; for (int k = 0; k < np; k++) { ev += sh[k].evals; nt += sh[k].nontriv; L = std::min(L, (int)sh[k].done); }
  std::cout << "evals " << ev << "\nnontrivial " << nt << "\nexhaustive_length " << L << std::endl;
  return bad;
}
}
