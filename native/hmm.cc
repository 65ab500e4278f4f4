// The HMM tagger on random tag sets, models and texts, beside a reference written from the statement.
#include "driver.h"
#include <lttoolbox/input_file.h>
#include <streambuf>
#include <regex>
#include <sys/mman.h>
#define private public
#define protected public
#include <apertium/hmm.h>
#include <apertium/file_morpho_stream.h>
#include <apertium/tsx_reader.h>
#undef private
#undef protected
using S = std::string;
using Set = std::set<int>;
struct Dec { const vc::U32& s; size_t i = 0; unsigned operator()(unsigned n) { return i < s.size() ? unsigned(s[i++]) % n : 0; } };
static UString us(const S& s) { auto u = vc::from_utf8(s); UString r; for (char32_t c : u) { if (c > 0xFFFF) { r += char16_t(0xD7C0 + (c >> 10)); r += char16_t(0xDC00 + (c & 0x3FF)); } else r += char16_t(c); } return r; }

// ---- the tag set
struct Item { S lemma, tags; };                         // an item of a label
struct Label { int id; std::vector<std::vector<Item>> seq; bool closed = false; S name; };  // alternatives: one item, or a sequence joined by +
struct Sym { bool tag; S s; };
static std::vector<Sym> symbols(const S& w) {           // of an analysis
  std::vector<Sym> r;
  auto u = vc::from_utf8(w);
  for (size_t i = 0; i < u.size(); i++) {
    if (u[i] == '<') {
      size_t j = i + 1; for (; j < u.size(); j++) { if (u[j] == '\\') j++; else if (u[j] == '>') break; }
      r.push_back({true, vc::utf8(u.substr(i, j - i + 1))}); i = j;
    } else r.push_back({false, vc::utf8(vc::U32(1, char32_t(u_tolower(u[i]))))});
  }
  return r;
}
struct Pat { bool tag, any; S s; bool queue = false; };
static bool fits(const std::vector<Pat>& p, size_t i, const std::vector<Sym>& w, size_t j, size_t end) {
  if (i == p.size()) return j == end;
  if (p[i].queue) {                                     // nothing, or # and any characters
    if (fits(p, i + 1, w, j, end)) return true;
    if (j == end || w[j].tag || w[j].s != "#") return false;
    for (size_t k = j + 1; k <= end; k++) { if (fits(p, i + 1, w, k, end)) return true; if (k == end || w[k].tag) return false; }
    return false;
  }
  if (j == end || p[i].tag != w[j].tag) return false;
  if (!p[i].any) return p[i].s == w[j].s && fits(p, i + 1, w, j + 1, end);
  return fits(p, i, w, j + 1, end) || fits(p, i + 1, w, j + 1, end);
}
static std::vector<Pat> pattern(const std::vector<Item>& seq) {
  std::vector<Pat> p;
  for (auto& it : seq) {
    if (&it != &seq[0]) p.push_back({false, false, "+"});
    if (it.lemma.empty()) p.push_back({false, true, ""});
    for (auto c : vc::from_utf8(it.lemma)) p.push_back({false, c == '*', vc::utf8(vc::U32(1, c))});
    for (size_t i = 0; i < it.tags.size();) {
      size_t g = std::min(it.tags.find('.', i), it.tags.size()); S t = it.tags.substr(i, g - i);
      p.push_back({true, t == "*", "<" + t + ">"}); i = g + 1;
    }
    p.push_back({false, false, "", true});
  }
  return p;
}
static S rule(const S& tags) { S r = "<"; for (char c : tags) { if (c == '.') r += "><"; else r += c; } return r + ">"; }
static bool matches(const S& form, const S& r) {        // a prefer or discard rule
  static std::map<S, std::regex> re;
  if (!re.count(r)) { S p = r; for (size_t i; (i = p.find("<*>")) != S::npos;) p.replace(i, 3, "(<[^>]+>)+"); re.emplace(r, std::regex(p, std::regex::icase)); }
  return std::regex_search(form, re.at(r));
}
struct Outside {};
struct W { S blank, sf; std::map<int, S> form; bool cont = false, plus = false, eof = false; };   // a word of the model
struct Ref {
  std::vector<Label> labels; std::vector<S> prefer, discard; Set open; std::vector<Set> classes;
  std::vector<std::vector<double>> A, B;
  int coarse(const std::vector<Sym>& w, size_t from, size_t to) {
    int best = -1; std::vector<Sym> part(w.begin() + from, w.begin() + to);
    for (auto& l : labels) for (auto& s : l.seq) if ((best < 0 || l.id < best) && fits(pattern(s), 0, part, 0, part.size())) best = l.id;
    return best;
  }
  void add(W& w, int t, const S& f) {
    if (!w.form.count(t)) { w.form[t] = f; return; }
    for (auto& r : prefer) if (matches(f, r)) { w.form[t] = f; return; }
  }
  void classify(std::vector<W>& ws, const S& an, bool only) {
    auto sy = symbols(an); S rest = an;
    size_t at = 0, k = 0;
    while (true) {
      size_t best = 0; int type = -1;
      for (size_t e = sy.size(); e > at; e--) if (e == sy.size() || (!sy[e].tag && sy[e].s == "+")) { int t = coarse(sy, at, e); if (t >= 0) { best = e; type = t; break; } }
      auto text = [&](size_t a, size_t b) { S r; auto u = symbols_text(an); for (size_t i = a; i < b; i++) r += u[i]; return r; };
      if (type < 0) { if (at) throw Outside(); add(ws[k], 6, an); return; }
      if (best != sy.size() && !only) throw Outside();
      add(ws[k], type, text(at, best));
      if (best == sy.size()) return;
      at = best + 1; if (at == sy.size()) throw Outside();
      ws[k].plus = true; ws.push_back(W()); k++; ws[k].cont = true;
    }
  }
  static std::vector<S> symbols_text(const S& w) {
    std::vector<S> r; auto u = vc::from_utf8(w);
    for (size_t i = 0; i < u.size(); i++) {
      if (u[i] == '<') { size_t j = i + 1; for (; j < u.size(); j++) { if (u[j] == '\\') j++; else if (u[j] == '>') break; } r.push_back(vc::utf8(u.substr(i, j - i + 1))); i = j; }
      else r.push_back(vc::utf8(vc::U32(1, u[i])));
    }
    return r;
  }
  void drop(W& w) {
    for (auto& r : discard) if (w.form.size() > 1)
      for (auto it = w.form.begin(); it != w.form.end() && w.form.size() > 1;) { if (matches(it->second, r)) it = w.form.erase(it); else ++it; }
  }
  int cls(const Set& t) {
    int best = -1;
    for (size_t k = 0; k < classes.size(); k++) if (classes[k] == t) return k;
    for (size_t k = 0; k < classes.size(); k++) { auto& c = classes[k];
      if (c.size() < (best < 0 ? open.size() : classes[best].size()) && std::includes(c.begin(), c.end(), t.begin(), t.end())) best = k; }
    if (best >= 0) return best;
    for (size_t k = 0; k < classes.size(); k++) if (classes[k] == open) return k;
    throw Outside();
  }
};
struct Out { S pending, done; };
static ssize_t out_write(void* v, const char* b, size_t n) { ((Out*)v)->done.append(b, n); return n; }
struct In { S text; size_t p = 0; Out* out; std::vector<size_t> seen; };
static ssize_t in_read(void* v, char* b, size_t n) { In* i = (In*)v; while (i->seen.size() <= i->p) i->seen.push_back(0); i->seen[i->p] = i->out->done.size(); if (i->p >= i->text.size() || !n) return 0; *b = i->text[i->p++]; return 1; }
static FILE* in_file(In* i) { cookie_io_functions_t r{in_read, nullptr, nullptr, nullptr}; FILE* f = fopencookie(i, "r", r); setvbuf(f, nullptr, _IONBF, 0); return f; }
static FILE* out_file(Out* o) { cookie_io_functions_t w{nullptr, out_write, nullptr, nullptr}; FILE* f = fopencookie(o, "w", w); setvbuf(f, nullptr, _IOFBF, 1 << 16); return f; }
static std::string scratch() { static std::string d; if (d.empty()) { char t[] = "/tmp/vc_hmm_XXXXXX"; d = mkdtemp(t); atexit([] { unlink((d + "/t.tsx").c_str()); rmdir(d.c_str()); }); } return d; }

static vc::Verdict judge(const vc::U32& in, int) {
  vc::Verdict v; Dec d{in}; Ref R;
  static const char* tags[] = {"n", "v", "sg", "pl", "adj"};
  static const char* lem[] = {"a", "b", "ab", "a b", "\xc3\xa9", "\xc3\x89", "a\\/b", "\xf0\x9f\x98\x80", "A", "\\$b", "a+b"};
  static const char* pats[] = {"n", "v", "n.*", "v.*", "adj", "n.sg", "n.pl", "*", "adj.*", "*.sg", "v.sg.*"};
  auto esc = [](const S& s) { S r; for (char c : s) { if (c == '&') r += "&amp;"; else if (c == '"') r += "&quot;"; else if (c == '<') r += "&lt;"; else r += c; } return r; };
  // tag set
  static const char* fixed[] = {"lpar", "rpar", "lquest", "cm", "sent"};
  for (int i = 0; i < 5; i++) R.labels.push_back({i, {{{"", fixed[i]}}}, true, ""});
  int nl = 2 + d(4), nm = d(3) == 2;
  S x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?><tagger name=\"t\"><tagset>";
  auto item = [&] { Item it; it.tags = pats[d(11)]; if (d(5) == 4) { static const char* l[] = {"a", "b", "a*", "\xc3\xa9"}; it.lemma = l[d(4)]; } return it; };
  auto xi = [&](const Item& it) { return "<tags-item " + (it.lemma.empty() ? S() : "lemma=\"" + esc(it.lemma) + "\" ") + "tags=\"" + it.tags + "\"/>"; };
  for (int i = 0; i < nl; i++) {
    Label l; l.id = 7 + i; l.closed = i && d(3) == 2; l.name = "L" + std::to_string(i);
    x += "<def-label name=\"" + l.name + "\"" + (l.closed ? " closed=\"true\"" : "") + ">";
    for (int k = 1 + d(2); k > 0; k--) { Item it = item(); l.seq.push_back({it}); x += xi(it); }
    x += "</def-label>"; if (!l.closed) R.open.insert(l.id);
    R.labels.push_back(l);
  }
  for (int i = 0; i < nm; i++) {
    Label l; l.id = 7 + nl + i; l.closed = d(2); l.name = "M" + std::to_string(i);
    x += "<def-mult name=\"" + l.name + "\"" + (l.closed ? " closed=\"true\"" : "") + "><sequence>";
    int k = d(nl); Item it = item();
    x += "<label-item label=\"L" + std::to_string(k) + "\"/>" + xi(it) + "</sequence></def-mult>";
    for (auto& s : R.labels[5 + k].seq) { auto q = s; q.push_back(it); l.seq.push_back(q); }
    if (!l.closed) R.open.insert(l.id);
    R.labels.push_back(l);
  }
  x += "</tagset>";
  if (int k = d(3) == 2 ? 1 + d(2) : 0) { x += "<preferences>"; for (; k > 0; k--) { S p = pats[d(11)]; R.prefer.push_back(rule(p)); x += "<prefer tags=\"" + p + "\"/>"; } x += "</preferences>"; }
  if (int k = d(3) == 2 ? 1 + d(2) : 0) { x += "<discard-on-ambiguity>"; for (; k > 0; k--) { S p = pats[d(11)]; R.discard.push_back(rule(p)); x += "<discard tags=\"" + p + "\"/>"; } x += "</discard-on-ambiguity>"; }
  x += "</tagger>";
  int N = 7 + nl + nm;
  // ambiguity classes and model
  auto cls = [&](const Set& s) { for (auto& c : R.classes) if (c == s) return; R.classes.push_back(s); };
  for (int k = d(5); k > 0; k--) { Set s; for (int m = 1 + d(4); m > 0; m--) s.insert(7 + d(nl + nm)); cls(s); }
  cls(R.open); for (int i = 0; i < N; i++) cls({i});
  int M = R.classes.size();
  vc::Rng rng(1 + d(720720)); bool zero = d(5) == 4;
  auto prob = [&] { return zero && rng(6) == 0 ? 0.0 : (1 + rng(100000)) / 100001.0; };
  R.A.assign(N, std::vector<double>(N)); R.B.assign(N, std::vector<double>(M));
  for (auto& r : R.A) for (auto& y : r) y = prob();
  for (auto& r : R.B) for (auto& y : r) y = prob();
  bool store = d(2);
  // options
  bool mark = d(4) == 3, sup = d(4) == 3, first = d(4) == 3, nf = d(2);
  // text
  static const char* bl[] = {" ", "", "\n", "[<b>]", " [[t:b:1]]", "\\[", "\\^a", " x ", "[a\\]b]", "[[a\\]b; c]]", "\xc3\xa9", "[\\^a\\$]", "$", "\n\n", "\\\\", "\xf0\x9f\x98\x80", "/<+>"};
  auto blank = [&] { return S(bl[d(2) ? 0 : d(17)]); };
  S text; std::vector<W> words; std::vector<std::pair<size_t, size_t>> nul; std::vector<size_t> nulword;
  S pend;
  try {
    int n = 1 + d(8);
    for (int i = 0; i < n; i++) {
      S b = blank(); text += b; pend += b;
      if (d(8) != 7) {
        static const char* sfs[] = {"a", "A", "a b", "a\\/b", "a\\$", "\xf0\x9f\x98\x80", "b", "\\\\"};
        S sf = sfs[d(8)]; std::vector<W> ws(1); ws[0].blank = pend; ws[0].sf = sf; pend.clear();
        text += "^" + sf;
        if (d(7) == 6) text += "/*" + sf;
        else {
          int na = d(5) == 4 ? 1 : 1 + d(4);
          for (int a = 0; a < na; a++) {
            S an; int np = na == 1 || d(6) == 5 ? 1 + (d(3) == 2) + (d(6) == 5) : 1;
            for (int p = 0; p < np; p++) {
              if (p) an += "+";
              an += lem[d(3) ? d(2) : d(11)];
              if (np == 1 && d(12) == 11) { an += S("<") + fixed[d(5)] + ">"; continue; }
              for (int t = 1 + d(2) + (d(4) == 3); t > 0; t--) an += S("<") + tags[d(d(2) ? 5 : 2)] + ">";
            }
            if (d(12) == 11) an += "# c";
            text += "/" + an; R.classify(ws, an, na == 1);
          }
        }
        text += "$";
        if (first && ws.size() > 1) throw Outside();
        for (auto& w : ws) { R.drop(w); words.push_back(w); }
      }
      if (i == n - 1 || (nf && d(5) == 4)) {
        W e; e.blank = pend; e.eof = true; pend.clear(); words.push_back(e);
        if (i < n - 1 || (nf && d(2))) { text += '\0'; nulword.push_back(words.size() - 1); nul.push_back({text.size(), 0}); if (i == n - 1) { W e2; e2.eof = true; words.push_back(e2); } }
      }
    }
    // the best path between unambiguous words
    S want; int prev = 4; std::vector<size_t> seg;
    auto forms = [&](const W& w) -> Set { Set s; if (w.eof) return {5}; for (auto& p : w.form) s.insert(p.first); return s.empty() ? R.open : s; };
    for (size_t i = 0; i < words.size(); i++) {
      seg.push_back(i);
      if (forms(words[i]).size() != 1) { if (seg.size() > 12) throw Outside(); continue; }
      // all paths, kept per last tag: best, second best
      std::map<int, std::pair<double, std::vector<int>>> cur; cur[prev] = {1.0, {}};
      for (size_t k : seg) {
        Set t = forms(words[k]); int c = R.cls(t); std::map<int, std::pair<double, std::vector<int>>> nx;
        for (int b : t) {
          double bb = R.B[b][c]; if (store && !R.classes[c].count(b)) bb = 1e-10;
          double top = -1, sec = -1;
          for (auto& p : cur) {
            double y = p.second.first * R.A[p.first][b] * bb;
            if (y > top) { sec = top; top = y; auto path = p.second.second; path.push_back(b); nx[b] = {y, path}; } else if (y > sec) sec = y;
          }
          if (sec >= top * (1 - 1e-9)) throw Outside();         // a tie
          if (top < 1e-150) { if (cur.size() > 1) throw Outside(); nx[b].first = top; }
        }
        cur = nx;
      }
      auto& path = cur.begin()->second.second;
      for (size_t k = 0; k < seg.size(); k++) {
        W& w = words[seg[k]]; int t = path[k]; want += w.blank;
        if (w.eof) { if (nf) { want += '\0'; for (size_t q = 0; q < nulword.size(); q++) if (nulword[q] == seg[k]) nul[q].second = want.size(); } continue; }
        if (!w.cont) { want += "^"; if (mark && w.form.size() > 1) want += "="; if (sup || first) want += w.sf + "/"; }
        if (w.form.empty()) want += "*" + w.sf; else want += w.form[t];
        if (first) for (auto& p : w.form) if (p.first != t) want += "/" + p.second;
        want += w.plus ? "+" : "$";
      }
      bool eof = words[i].eof;
      prev = eof && nf ? 4 : *forms(words[i]).begin(); seg.clear();
    }
    v.nontrivial = true;
    // the real one
    std::string file = scratch() + "/t.tsx"; { FILE* f = fopen(file.c_str(), "w"); fwrite(x.data(), 1, x.size(), f); fclose(f); }
    Out out; In input{text, 0, &out, {}};
    S what; bool thrown = false;
    try {
      TSXReader rd; rd.read(file);
      TaggerDataHMM td(rd.getTaggerData());
      for (auto& c : R.classes) td.getOutput().add(c);
      td.setProbabilities(N, M);
      for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) td.getA()[i][j] = R.A[i][j]; for (int k = 0; k < M; k++) td.getB()[i][k] = R.B[i][k]; }
      Apertium::TaggerFlags fl; fl.setMark(mark); fl.setShowSuperficial(sup); fl.setFirst(first); fl.setNullFlush(nf);
      HMM h(fl);
      FILE* f = fdopen(memfd_create("model", 0), "w+");
      HMM w(td);
      w.serialise(f); rewind(f);
      if (store) h.deserialise(f); else { h.tdhmm = td; h.eos = 4; }
      fclose(f);
      TaggerWord::generate_marks = mark; TaggerWord::setArrayTags(h.getArrayTags());
      FileMorphoStream ms("/dev/null", false, &h.get_tagger_data());
      ms.input.wrap(in_file(&input));
      FILE* of = out_file(&out); UFILE* uo = u_finit(of, nullptr, nullptr);
      h.tagger(ms, uo);
      u_fclose(uo); fclose(of);
    } catch (VcExit& e) { thrown = true; what = "exit"; }
    catch (std::exception& e) { thrown = true; what = e.what(); }
    S where = S(mark ? "; -m" : ";") + (sup ? " -p" : "") + (first ? " -f" : "") + (nf ? " -z" : "") + (store ? " stored and loaded" : "") + " tag set " + vc::show(x) + " text " + vc::show(text);
    auto fail = [&](const S& w) { v.ok = false; v.why = w + where; };
    if (thrown) { fail("the tagger stops: " + what); return v; }
    if (out.done != want) { fail("the output is " + vc::show(out.done) + " instead of " + vc::show(want)); return v; }
    for (auto& p : nul) if (p.first < input.seen.size() && input.seen[p.first] < p.second) { fail("the output up to the NUL is not flushed before more is read"); return v; }
  } catch (Outside&) {}
  return v;
}
int main(int argc, char** argv) {
  vc::gen() = [](vc::Rng& r) { vc::U32 s; int n = 40 + r(300); for (int i = 0; i < n; i++) s += char32_t(r(720720)); return s; };
  return vc::search(argc, argv, 1, judge);
}
