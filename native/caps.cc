// apertium-compile-caps and apertium-restore-caps on random rules and texts, beside a reference
// written from the statement.
#include "run_main.h"
#include <lttoolbox/string_utils.h>
#include <set>
#include <fstream>
extern "C" int real_main(int, char**);      // compile
extern "C" int real_main1(int, char**);     // restore
using S = std::string;
using vc::U32;
struct Dec { const U32& s; size_t i = 0; unsigned operator()(unsigned n) { return i < s.size() ? unsigned(s[i++]) % n : 0; } };
static UString us(const S& s) { UString r; for (char32_t c : vc::from_utf8(s)) { if (c > 0xFFFF) { r += char16_t(0xD7C0 + (c >> 10)); r += char16_t(0xDC00 + (c & 0x3FF)); } else r += char16_t(c); } return r; }
// ---- rules
struct Node { enum { MATCH, OR, REPEAT } k = MATCH; S ss, sl, tl, ts, lemma, surf, tags, select; bool has_tags = false; std::vector<Node> kids; int from = 0, upto = 0; };
struct Rule { bool begin = false; S wtext; double w = 1; std::vector<Node> kids; };
// ---- what of a word the rules see
struct Sym { enum { CH, TAG, SEP } k; char32_t c = 0; S tag; };
struct El { enum { LIT, ANY, UP, LOW, TAG, ANYTAG, SEP } k; char32_t c = 0; S tag; bool many = false, none = false; };
static bool fits(const El& e, const Sym& y) {
  switch (e.k) {
  case El::LIT: return y.k == Sym::CH && y.c == e.c;
  case El::ANY: return y.k == Sym::CH;
  case El::UP: return y.k == Sym::CH && u_isupper(y.c);
  case El::LOW: return y.k == Sym::CH && !u_isupper(y.c);
  case El::TAG: return y.k == Sym::TAG && y.tag == e.tag;
  case El::ANYTAG: return y.k == Sym::TAG;
  case El::SEP: return y.k == Sym::SEP;
  }
  return false;
}
static void cases(std::vector<El>& r, const S& spec) {
  for (char c : spec) { El e; e.k = c == '*' ? El::ANY : c == ' ' ? El::LIT : c == 'A' ? El::UP : El::LOW; e.c = ' '; e.many = true; if (!r.empty() && r.back().k == e.k && r.back().many && e.k != El::SEP) continue; r.push_back(e); }
}
static void letters(std::vector<El>& r, const S& s) { for (auto c : vc::from_utf8(s)) { El e; e.k = c == '*' ? El::ANY : El::LIT; e.c = c; e.many = c == '*'; r.push_back(e); } }
static std::vector<El> pattern(const Node& m) {
  std::vector<El> r; El sep; sep.k = El::SEP;
  auto spec = [](const S& s) { return s.empty() ? S("*") : s; };
  cases(r, spec(m.ss)); r.push_back(sep); cases(r, spec(m.sl)); r.push_back(sep);
  if (m.lemma.empty()) cases(r, spec(m.tl)); else letters(r, m.lemma);
  S tags = m.has_tags ? m.tags : "*", t;
  for (char c : tags + ".") {
    if (c != '.') { t += c; continue; }
    if (t.empty()) continue;
    El e; e.k = t == "+" || t == "*" || t == "?" ? El::ANYTAG : El::TAG; e.tag = "<" + t + ">"; e.many = t == "+" || t == "*"; e.none = t == "*";
    r.push_back(e); t = "";
  }
  r.push_back(sep);
  if (m.surf.empty()) cases(r, spec(m.ts)); else letters(r, m.surf);
  return r;
}
static bool matches(const Node& m, const std::vector<Sym>& w) {
  auto p = pattern(m);
  std::set<size_t> at{0};
  for (auto& e : p) {
    std::set<size_t> to;
    for (size_t i : at) {
      if (e.none) to.insert(i);
      for (size_t j = i; j < w.size() && fits(e, w[j]); j++) { to.insert(j + 1); if (!e.many) break; }
    }
    at = to;
  }
  return at.count(w.size());
}
struct Word { S blank, wblank, form, surf; bool both = true; std::vector<Sym> syms; double dix = 0, aa = 0, Aa = 0, AA = 0; };
struct Way { size_t end; std::vector<S> sel; bool operator<(const Way& o) const { return end != o.end ? end < o.end : sel < o.sel; } };
using Ways = std::set<Way>;
struct Outside {};
static Ways apply(const std::vector<Node>& ns, const Ways& from, const std::vector<Word>& ws);
static Ways apply(const Node& n, const Ways& from, const std::vector<Word>& ws) {
  Ways r;
  if (n.k == Node::MATCH) {
    for (auto& f : from) if (f.end < ws.size() && matches(n, ws[f.end].syms)) { Way w = f; w.end++; w.sel.push_back(n.select); r.insert(w); }
  } else if (n.k == Node::OR) {
    for (auto& k : n.kids) { auto x = apply(k, from, ws); r.insert(x.begin(), x.end()); }
  } else {
    Ways cur = from;
    for (int i = 0; i <= n.upto; i++) { if (i >= n.from) r.insert(cur.begin(), cur.end()); cur = apply(n.kids, cur, ws); }
  }
  if (r.size() > 200) throw Outside();
  return r;
}
static Ways apply(const std::vector<Node>& ns, const Ways& from, const std::vector<Word>& ws) { Ways cur = from; for (auto& n : ns) cur = apply(n, cur, ws); return cur; }
// the words of one text (between NULs)
static void weigh(const std::vector<Rule>& rules, std::vector<Word>& ws) {
  for (auto& r : rules) {
    std::map<size_t, std::set<std::pair<size_t, std::vector<S>>>> ends;
    for (size_t i = 0; i < (r.begin ? 1 : ws.size()); i++)
      for (auto& w : apply(r.kids, Ways{Way{i, {}}}, ws)) if (w.end > i) ends[w.end].insert({i, w.sel});
    for (auto& e : ends) {
      if (e.second.size() > 1) throw Outside();         // the rule does not say which of these counts
      auto& [at, sel] = *e.second.begin();
      for (size_t j = 0; j < sel.size(); j++) {
        Word& w = ws[at + j]; const S& s = sel[j];
        if (s == "dix") w.dix += r.w; else if (s == "aa") w.aa += r.w; else if (s == "Aa") w.Aa += r.w; else if (s == "AA") w.AA += r.w;
      }
    }
  }
}
static S cased(const Word& w) {
  double m = std::max(std::max(w.dix, w.aa), std::max(w.Aa, w.AA));
  UString s = us(w.surf);
  if (w.dix == m) return w.surf;
  UString r = w.aa == m ? StringUtils::tolower(s) : w.Aa == m ? StringUtils::totitle(s) : StringUtils::toupper(s);
  return vc::utf8(vc::from_utf16(r));
}
static std::vector<S> pieces(const S& s) { std::vector<S> r; size_t i = 0; for (;;) { size_t j = s.find("; ", i); r.push_back(s.substr(i, j == S::npos ? j : j - i)); if (j == S::npos) break; i = j + 2; } return r; }
static void form_syms(std::vector<Sym>& r, const S& f, const std::set<S>& known) {
  auto u = vc::from_utf8(f);
  for (size_t i = 0; i < u.size(); i++) {
    if (u[i] == '\\' && i + 1 < u.size()) { r.push_back({Sym::CH, u[++i]}); continue; }
    if (u[i] == '<') { S t; for (; i < u.size(); i++) { vc::enc(t, u[i]); if (u[i] == '>') break; } r.push_back({Sym::TAG, 0, t}); continue; }
    r.push_back({Sym::CH, u[i]});
  }
}
// ---- generation
static const char* LEM[] = {"a", "b", "ab", "A", "B", "Ab", "aB", "a b", "\xc3\xa9", "\xd0\x94", "\xd0\xb4\xd0\x96", "a\\/b", "a1", "abc", "AB", "\xc3\x89" "a"};
static const char* TAGS[] = {"<n>", "<v>", "<n><sg>", "<n><pl>", "", "<v><x>", "<n><sg><x>", "<y>"};
template <class D> S select(D& d) { static const char* s[] = {"aa", "Aa", "AA", "dix", ""}; return s[d(5)]; }
template <class D> Node match(D& d) {
  static const char* c[] = {"", "*", "A", "a", "Aa", "aa", "AA", "aA", "A A", "A*", "Aa Aa", "a a"};
  static const char* l[] = {"a", "b", "a*", "*b", "A*", "ab", "A", "\xc3\xa9", "a b", "*", "\xd0\x94", "\xd0\xb4*", "a*c", "a &lt;"};
  static const char* t[] = {"n", "v", "n.*", "*", "+", "?", "n.+", "n.?", "*.sg", "?.?", "+.?", "*.?", "", "n.sg", "*.pl", "?.*", "+.+", "*.+"};
  Node m;
  if (d(3) == 2) m.ss = c[d(12)];
  if (d(4) == 3) m.sl = c[d(12)];
  if (d(2)) { if (d(2)) m.lemma = l[d(3) ? d(4) : d(14)]; else m.tl = c[d(12)]; }
  if (d(4) == 3) { if (d(2)) m.surf = l[d(14)]; else m.ts = c[d(12)]; }
  if (m.lemma == "*") m.lemma = ""; if (m.surf == "*") m.surf = "";
  if (d(2)) { m.has_tags = true; m.tags = t[d(3) ? d(6) : d(18)]; }
  m.select = select(d);
  return m;
}
template <class D> Node node(D& d, int depth) {
  unsigned k = depth > 1 ? 0 : d(6);
  if (k < 4) return match(d);
  Node n; n.k = k == 4 ? Node::OR : Node::REPEAT;
  if (k == 5) { n.from = d(3); n.upto = n.from + d(3); }
  int c = k == 4 ? 1 + d(3) : 1 + d(2);
  for (int i = 0; i < c; i++) n.kids.push_back(node(d, depth + 1));
  return n;
}
static S xml(const Node& n) {
  if (n.k == Node::MATCH) {
    S r = "<match";
    auto a = [&](const char* k, const S& v) { if (!v.empty()) r += S(" ") + k + "=\"" + v + "\""; };
    a("srcsurf", n.ss); a("srclem", n.sl); a("trglem", n.tl); a("trgsurf", n.ts); a("lemma", n.lemma); a("surface", n.surf); a("select", n.select);
    if (n.has_tags) r += " tags=\"" + n.tags + "\"";
    return r + "/>";
  }
  S r = n.k == Node::OR ? "<or>" : "<repeat from=\"" + std::to_string(n.from) + "\" upto=\"" + std::to_string(n.upto) + "\">";
  for (auto& k : n.kids) r += xml(k);
  return r + (n.k == Node::OR ? "</or>" : "</repeat>");
}
static S unxml(S s) { size_t i; while ((i = s.find("&lt;")) != S::npos) s.replace(i, 4, "<"); return s; }
static void plain(Node& n) { n.lemma = unxml(n.lemma); n.surf = unxml(n.surf); for (auto& k : n.kids) plain(k); }
static S slurp(const S& f) { std::ifstream i(f); return S(std::istreambuf_iterator<char>(i), {}); }
static vc::Verdict judge(const U32& in, int) {
  vc::Verdict v; Dec d{in};
  bool keep = d(2);
  std::vector<Rule> rules;
  int nr = 1 + d(4);
  S x = "<capitalization><rules>";
  for (int i = 0; i < nr; i++) {
    static const char* ws[] = {"", "1", "2", "0.5", "3", "-1", "1.5", "0"};
    Rule r; r.begin = d(4) == 3; r.wtext = ws[d(8)]; if (!r.wtext.empty()) r.w = atof(r.wtext.c_str());
    int c = 1 + d(3); for (int j = 0; j < c; j++) r.kids.push_back(node(d, 0));
    x += "<rule"; if (!r.wtext.empty()) x += " weight=\"" + r.wtext + "\""; x += ">"; if (r.begin) x += "<begin/>"; for (auto& k : r.kids) x += xml(k); x += "</rule>";
    for (auto& k : r.kids) plain(k);
    rules.push_back(r);
  }
  x += "</rules></capitalization>";
  S text, want; int nt = d(4) == 3 ? 2 + d(2) : 1;
  std::vector<std::pair<size_t, size_t>> nul;
  try {
    for (int t = 0; t < nt; t++) {
      std::vector<Word> ws; int n = d(7);
      static const char* bl[] = {"", "\n", "[<b>]", "\\[", "[a\\]b]", " x ", "  ", "\xc3\xa9", "\\^", "\\\\"};
      auto blank = [&] { return S(d(3) ? " " : bl[d(10)]); };
      for (int i = 0; i < n; i++) {
        Word w; w.blank = i || d(4) == 3 ? blank() : "";
        w.surf = LEM[d(3) ? d(7) : d(16)];
        if (d(8) == 7) w.both = false; else { w.form = d(2) ? w.surf : S(LEM[d(16)]); w.form += TAGS[d(3) ? d(3) : d(8)]; }
        if (d(8) == 7) w.surf += d(2) ? " A" : "+b";
        S caps = "aa/aa";
        if (d(2)) {
          static const char* p[] = {"c:AA/aa", "c:aa/AA", "c:Aa/Aa", "c:AA/AA", "c:Aa/aa", "t:b:1", "x", "a\\]b", "c:aa/aa"};
          int k = 1 + d(3); S kept; bool first = true;
          for (int j = 0; j < k; j++) {
            S q = p[d(9)]; if (j) w.wblank += "; "; w.wblank += q;
            if (q.substr(0, 2) == "c:") { if (first) caps = q.substr(2); first = false; } 
            if (keep || q.substr(0, 2) != "c:") kept += (kept.empty() ? "" : "; ") + q;
          }
          text += w.blank + "[[" + w.wblank + "]]";
          w.wblank = kept.empty() ? "" : "[[" + kept + "]]";
        } else text += w.blank;
        text += "^" + (w.both ? w.form + "/" : S()) + w.surf + "$";
        for (char c : caps) w.syms.push_back(c == '/' ? Sym{Sym::SEP} : Sym{Sym::CH, char32_t(c)});
        w.syms.push_back({Sym::SEP}); form_syms(w.syms, w.form, {}); w.syms.push_back({Sym::SEP}); form_syms(w.syms, w.surf, {});
        ws.push_back(w);
      }
      weigh(rules, ws);
      for (auto& w : ws) want += w.blank + w.wblank + cased(w) + (w.wblank.empty() ? "" : "[[/]]");
      S last = d(2) ? "" : blank(); text += last; want += last;
      if (t + 1 < nt || d(4) == 3) { text += S(1, 0); want += S(1, 0); nul.push_back({text.size(), want.size()}); }
    }
  } catch (Outside&) { return v; }
  v.nontrivial = true;
  static S base = S(TMPDIR_) + "/caps" + std::to_string(getpid());
  { std::ofstream o(base + ".crx"); o << x; }
  vc::Ran c = vc::run_main({base + ".crx", base + ".bin"}, "", real_main);
  S where = S(keep ? "; -k" : ";") + " rules " + vc::show(x) + " text " + vc::show(text);
  auto fail = [&](const S& w) { v.ok = false; v.why = w + where; };
  if (c.status != 0 && c.status != 3) { fail("the rules are not compiled " + c.what); return v; }
  std::vector<S> a{"-z"}; if (keep) a.push_back("-k"); a.push_back(base + ".bin");
  vc::Ran r = vc::run_main(a, text, real_main1);
  if (r.status != 0 && r.status != 3) { fail("restoring stops " + r.what); return v; }
  if (r.out != want) { fail("the output is " + vc::show(r.out) + " instead of " + vc::show(want)); return v; }
  for (auto& p : nul) if (p.first < r.visible.size() && r.visible[p.first] < p.second) { fail("the output up to the NUL is not flushed before more is read"); return v; }
  return v;
}
int main(int argc, char** argv) {
  vc::gen() = [](vc::Rng& r) { vc::U32 s; int n = 30 + r(200); for (int i = 0; i < n; i++) s += char32_t(r(720720)); return s; };
  return vc::search(argc, argv, 1, judge);
}
