// The unigram tagger on random models and texts, beside a reference written from the statement.
#include "driver.h"
#include <lttoolbox/input_file.h>
#include <streambuf>
#define private public
#define protected public
#include <apertium/unigram_tagger.h>
#undef private
#undef protected
#include <sys/syscall.h>
using S = std::string;
struct Mo { S lem, queue; std::vector<S> tags; S key() const { return lem + queue; } S tg() const { S r; for (auto& t : tags) r += "<" + t + ">"; return r; } };
using An = std::vector<Mo>;
struct Unit { S surface; bool unknown = false; std::vector<An> an; };
static S written(const An& a) { S r; for (auto& m : a) { if (&m != &a[0]) r += "+"; r += m.lem + m.tg() + m.queue; } return r; }
static S normal(const An& a) { S r; for (auto& m : a) { if (&m != &a[0]) r += "+"; r += m.key() + m.tg(); } return r; }
static S written(const Unit& u) { S r = "^" + u.surface; if (u.unknown) r += "/*" + u.surface; else for (auto& a : u.an) r += "/" + written(a); return r + "$"; }
struct Dec { const vc::U32& s; size_t i = 0; unsigned operator()(unsigned n) { return i < s.size() ? unsigned(s[i++]) % n : 0; } };
template <class D> Mo morpheme(D& d) {
  static const char* l[] = {"a", "b", "ab", "a b", "\xc3\xa9", "a\\/b", "\\<a", "\xf0\x9f\x98\x80", "a+b", "A", "b\\\\", "a#b"};
  static const char* q[] = {"# c", "# c d", "#\\/", "#"};
  static const char* t[] = {"n", "v", "sg", "pl", "x\\>y", "\xc3\xa9"};
  Mo m; m.lem = l[d(3) ? d(3) : d(12)];
  int n = 1 + (d(3) == 2) + (d(6) == 5); for (int i = 0; i < n; i++) m.tags.push_back(t[d(3) ? d(2) : d(6)]);
  if (d(6) == 5) m.queue = q[d(4)];
  return m;
}
template <class D> An analysis(D& d) { An a; int n = 1 + (d(3) == 2) + (d(6) == 5); for (int i = 0; i < n; i++) a.push_back(morpheme(d)); return a; }
template <class D> Unit unit(D& d, bool unknown) {
  static const char* s[] = {"a", "A", "a b", "a\\/b", "a\\$", "\xf0\x9f\x98\x80", "b", "\\\\"};
  Unit u; u.surface = s[d(8)];
  if (unknown && d(6) == 5) { u.unknown = true; return u; }
  int n = 1 + d(4);
  for (int i = 0; i < n; i++) u.an.push_back(i && d(8) == 7 ? u.an[0] : analysis(d));
  return u;
}
template <class D> S blank(D& d) {
  static const char* b[] = {" ", "", "\n", "[<b>]", " [[t:b:1]]", "\\[", "\\^a", " x ", "[a\\]b]", "[[a\\]b; c]]", "\xc3\xa9", "[^a$]", "$", "\n\n", "\\\\"};
  return b[d(2) ? 0 : d(15)];
}
typedef __int128 I;
struct Q { I n = 1, d = 1; };
struct Model {
  int kind; std::map<S, long> m1; std::map<S, std::map<S, long>> ta, lt, cl, ct;      // by the text of the analysis, of its parts
  void train(const std::vector<Unit>& c) {
    long occ = 1;
    for (auto& u : c) {
      long n = u.an.size();
      if (occ % n) { occ *= n; for (auto& p : m1) p.second *= n; for (auto m : {&ta, &lt, &cl, &ct}) for (auto& p : *m) for (auto& q : p.second) q.second *= n; }
      for (auto& a : u.an) {
        long k = occ / n;
        m1[normal(a)] += k;
        ta[sort(a)][a[0].key()] += k;
        lt[a[0].tg()][a[0].key()] += k;
        for (size_t j = 1; j < a.size(); j++) { cl[a[j - 1].tg()][a[j].key()] += k; ct[a[j].key()][a[j].tg()] += k; }
      }
    }
  }
  static S sort(const An& a) { S r = a[0].tg(); for (size_t i = 1; i < a.size(); i++) r += "+" + a[i].key() + a[i].tg(); return r; }
  // seen outcomes of a condition: this one, all, kinds (one more for an unseen one)
  static void of(std::map<S, std::map<S, long>>& m, const S& cond, const S& out, I& r, I& tot, I& types) {
    r = 1; tot = 1; types = 1;
    auto it = m.find(cond);
    if (it == m.end()) return;
    auto o = it->second.find(out);
    if (o != it->second.end()) r += o->second;
    for (auto& p : it->second) tot += p.second;
    types = I(it->second.size()) + (o == it->second.end());
  }
  Q score(const An& a) {
    Q q; I r, t, k;
    if (kind == 1) { auto it = m1.find(normal(a)); q.n = 1 + (it == m1.end() ? 0 : it->second); return q; }
    if (kind == 2) { of(ta, sort(a), a[0].key(), r, t, k); q.n = r * t; q.d = t + k; return q; }
    of(lt, a[0].tg(), a[0].key(), r, t, k); q.n = r * t; q.d = t + k;
    for (size_t j = 1; j < a.size(); j++) {
      of(cl, a[j - 1].tg(), a[j].key(), r, t, k); q.n *= r; q.d *= t + k;
      of(ct, a[j].key(), a[j].tg(), r, t, k); q.n *= r; q.d *= t + k;
    }
    return q;
  }
};
struct Out : std::streambuf {
  S pending, done;
  int overflow(int c) override { if (c != EOF) pending += char(c); return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { pending.append(s, n); return n; }
  int sync() override { done += pending; pending.clear(); return 0; }
};
struct In { S text; size_t p = 0; Out* out; std::vector<size_t> seen; };     // what had been flushed before each byte was read
static ssize_t in_read(void* v, char* b, size_t n) { In* i = (In*)v; while (i->seen.size() <= i->p) i->seen.push_back(0); i->seen[i->p] = i->out->done.size(); if (i->p >= i->text.size() || !n) return 0; *b = i->text[i->p++]; return 1; }
static FILE* in_file(In* i) { cookie_io_functions_t r{in_read, nullptr, nullptr, nullptr}; FILE* f = fopencookie(i, "r", r); setvbuf(f, nullptr, _IONBF, 0); return f; }

static vc::Verdict judge(const vc::U32& in, int) {
  vc::Verdict v;
  Dec d{in};
  int kind = 1 + d(3);
  Apertium::TaggerFlags fl;
  bool mark = d(4) == 3, sup = d(4) == 3, first = d(4) == 3, store = d(2), bad = d(24) == 23;
  fl.setMark(mark); fl.setShowSuperficial(sup); fl.setFirst(first); fl.setNullFlush(d(2));
  std::vector<Unit> corpus; int nc = d(10);
  for (int i = 0; i < nc; i++) { corpus.push_back(unit(d, false)); if (d(2)) corpus.back().an.resize(1); }
  Model M; M.kind = kind; M.train(corpus);
  S ctext; for (auto& u : corpus) ctext += blank(d) + written(u);
  // the text, and what has to come out
  S text, want; std::vector<std::pair<size_t, size_t>> nul;      // offset after the NUL, length of the output by then
  int n = 1 + d(8);
  bool skip = false;
  for (int i = 0; i < n; i++) {
    S b = blank(d); text += b; want += b;
    if (d(8) != 7) {
      Unit u = unit(d, true);
      for (auto& a : u.an) if (!corpus.empty() && d(2)) { auto& c = corpus[d(corpus.size())]; a = c.an[d(c.an.size())]; }
      text += written(u); want += "^";
      if (u.unknown) { if (sup) want += u.surface + "/"; want += "*" + u.surface + "$"; }
      else {
        size_t best = 0; std::vector<Q> sc;
        for (auto& a : u.an) sc.push_back(M.score(a));
        for (size_t k = 1; k < sc.size(); k++) {
          I x = sc[k].n * sc[best].d, y = sc[best].n * sc[k].d;
          if (x == y && (sc[k].n != sc[best].n || sc[k].d != sc[best].d)) skip = true;
          if (x != y && std::fabs((long double)(x - y)) < 1e-12L * (long double)(x + y)) skip = true;
          if (x > y) best = k;
        }
        if (mark && u.an.size() != 1) want += "=";
        if (sup) want += u.surface + "/";
        S c = normal(u.an[best]); want += c;
        if (first) for (auto& a : u.an) if (normal(a) != c) want += "/" + normal(a);
        want += "$";
      }
    }
    if (d(5) == 4) { text += '\0'; want += '\0'; nul.push_back({text.size(), want.size()}); }
  }
  // (the text may end inside a unit: that has to be reported)
  if (bad) { static const char* cut[] = {"^", "^a", "^a/", "^a/b", "^a/b<n>", "^a/b<n>/", "^a/b<n>+", "^a/b<n># c", "^a\\", "^a/b<n>+c<n>/d"}; int k = d(10); text += cut[k]; if (k != 8 && d(2)) text += S("\0 ^a/a<n>$", 11); }
  if (skip) return v;
  v.nontrivial = true;
  Out out; std::ostream os(&out);
  In input{text, 0, &out, {}}, corp{ctext, 0, &out, {}};
  bool thrown = false; S what;
  try {
    Apertium::UnigramTagger T(fl), L(fl), *use = &T;
    T.setModel(Apertium::UnigramTaggerModel(kind)); L.setModel(Apertium::UnigramTaggerModel(kind));
    { Apertium::Stream s(fl); s.TheCharacterStream.wrap(in_file(&corp)); T.train(s); }
    if (store) { std::stringstream f; T.serialise(f); L.deserialise(f); use = &L; }
    Apertium::Stream s(fl); s.TheCharacterStream.wrap(in_file(&input));
    use->tag(s, os);
  } catch (VcExit& e) { thrown = true; what = "exit"; }
  catch (std::exception& e) { thrown = true; what = e.what(); }
  os.flush();
  auto sh = [](const S& s) { return vc::show(s); };
  S where = "; model " + std::to_string(kind) + (mark ? " -m" : "") + (sup ? " -p" : "") + (first ? " -f" : "") + (store ? " stored and loaded" : "") + ", trained on " + sh(ctext) + ", text " + sh(text);
  auto fail = [&](const S& w) { v.ok = false; v.why = w + where; };
  if (bad) {
    if (!thrown) fail("a text that ends inside a unit is accepted");
    else if (what != "exit" && out.done.compare(0, out.done.size(), want, 0, out.done.size())) fail("the output before the unterminated unit is " + sh(out.done) + " instead of " + sh(want));
    return v;
  }
  if (thrown) { fail("the tagger stops: " + what); return v; }
  if (out.done != want) { fail("the output is " + sh(out.done) + " instead of " + sh(want)); return v; }
  for (auto& p : nul) if (p.first < input.seen.size() && input.seen[p.first] < p.second) { fail("the output up to the NUL is not flushed before more is read"); return v; }
  return v;
}
int main(int argc, char** argv) {
  vc::gen() = [](vc::Rng& r) { vc::U32 s; int n = 20 + r(300); for (int i = 0; i < n; i++) s += char32_t(r(720720)); return s; };
  return vc::search(argc, argv, 1, judge);
}
