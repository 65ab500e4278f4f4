// Whole streams through the transfer stages with generated rule files: which rule applies where,
// what happens to everything no rule matches, and that texts separated by NUL do not affect each other.
#include "rules_real.h"
#include <apertium/trx_reader.h>
struct Item { S lemma, tags; };
struct Rule { std::vector<int> pat; P action; };
static const char* CAT[] = {"c0", "c1", "c2", "c3"};
struct Tok { bool word; S text; };

// ---- does a word fit an item of a category?
struct Sym { bool tag; S s; };
static std::vector<Sym> symbols(const S& w, Stage st) {
  std::vector<Sym> r;
  size_t i = 0;
  if (w.compare(0, 2, u"[[") == 0) { while (!(w[i] == '^' && w[i - 1] == ']' && w[i - 2] == ']')) i += w[i] == '\\' ? 2 : 1; i++; }
  for (; i < w.size(); i++) {
    char16_t c = w[i];
    if (c == '\\') { i++; r.push_back({false, S(1, char16_t(u_tolower(w[i])))}); }
    else if (c == '/' && st == TRANSFER) break;
    else if (c == '{' && st != TRANSFER) break;
    else if (c == '<' && st == POSTCHUNK) { while (i < w.size() && w[i] != '{') i++; break; }
    else if (c == '<') { size_t g = w.find(u'>', i); r.push_back({true, w.substr(i, g - i + 1)}); i = g; }
    else r.push_back({false, S(1, char16_t(u_tolower(c)))});
  }
  return r;
}
struct Pat { bool tag, any; S s; };
static bool fits(const std::vector<Pat>& p, size_t i, const std::vector<Sym>& w, size_t j) {
  if (i == p.size()) return j == w.size();
  if (j == w.size() || p[i].tag != w[j].tag) return false;
  if (!p[i].any) return p[i].s == w[j].s && fits(p, i + 1, w, j + 1);
  return fits(p, i, w, j + 1) || fits(p, i + 1, w, j + 1);
}
static bool fits(const Item& it, const std::vector<Sym>& w) {
  std::vector<Pat> p;
  if (it.lemma.empty()) p.push_back({false, true, u""});
  for (auto c : it.lemma) p.push_back({false, c == '*', S(1, c)});
  for (size_t i = 0; i < it.tags.size();) {
    size_t g = std::min(it.tags.find(u'.', i), it.tags.size()); S t = it.tags.substr(i, g - i);
    p.push_back({true, t == u"*", u"<" + t + u">"}); i = g + 1;
  }
  return fits(p, 0, w, 0);
}

// ---- the meaning of a chunk for postchunk
struct Chunk { S head; std::vector<S> tags; S body; };
static Chunk parse_chunk(const S& s) {
  Chunk c; size_t i = 0;
  for (; i < s.size() && s[i] != '{'; i++) {
    if (s[i] == '\\') { i++; continue; }
    if (s[i] == '<') { size_t g = s.find(u'>', i); c.tags.push_back(s.substr(i, g - i + 1)); i = g; }
  }
  c.head = s.substr(0, i); if (i < s.size()) c.body = s.substr(i + 1, s.size() - i - 2);
  return c;
}
static S pseudolemma(const S& head) { size_t i = 0; while (i < head.size() && head[i] != '<') i += head[i] == '\\' ? 2 : 1; return head.substr(0, i); }
struct Caser { bool all = false, first = false; char16_t operator()(char16_t c) { if (all) return u_toupper(c); if (first && u_isalnum(c)) { first = false; return u_toupper(c); } return c; } };
static S fill(const S& unit, const std::vector<S>& tags, Caser& k) {         // numbered tags are those of the chunk
  S r;
  for (size_t i = 0; i < unit.size(); i++) {
    if (unit[i] == '\\') { r += unit.substr(i, 2); i++; }
    else if (unit[i] == '<') {
      size_t g = unit.find(u'>', i); S t = unit.substr(i, g - i + 1); i = g;
      if (t[1] >= '0' && t[1] <= '9') { size_t n = RState::num(t.substr(1)); if (n >= 1 && n <= tags.size()) r += tags[n - 1]; } else r += t;
    } else r += k(unit[i]);
  }
  return r;
}
struct Piece { bool unit; S wb, text; };
static std::vector<Piece> pieces(const S& body) {
  std::vector<Piece> r; S blank;
  for (size_t i = 0; i < body.size(); i++) {
    if (body[i] == '\\') { blank += body.substr(i, 2); i++; }
    else if (body[i] == '^') {
      size_t g = i + 1; while (body[g] != '$') g += body[g] == '\\' ? 2 : 1;
      S wb; size_t k = blank.rfind(u"[["); if (k != S::npos && blank.size() >= k + 4 && blank.compare(blank.size() - 2, 2, u"]]") == 0) { wb = blank.substr(k); blank.resize(k); }
      r.push_back({false, u"", blank}); blank.clear();
      r.push_back({true, wb, body.substr(i + 1, g - i - 1)}); i = g;
    } else blank += body[i];
  }
  r.push_back({false, u"", blank});
  return r;
}
static Caser caser(const S& head, bool dict) { Caser k; S c = caseof(pseudolemma(head)); if (!dict) { k.all = c == u"AA"; k.first = c == u"Aa"; } return k; }
static S unchunk(const S& s, bool dict) {
  Chunk c = parse_chunk(s); Caser k = caser(c.head, dict); S r;
  for (auto& p : pieces(c.body)) r += p.unit ? p.wb + u"^" + fill(p.text, c.tags, k) + u"$" : p.text;
  return r;
}

// ---- the reference
struct Ref {
  Stage stage; bool bil, chunks; RState st;
  std::vector<std::vector<Item>> cats; std::vector<Rule> rules; std::map<S, S> defaults;
  int applied = 0;
  Word word_of(const S& t) {
    Word w;
    if (stage == TRANSFER && bil) {
      size_t i = 0;
      if (t.compare(0, 2, u"[[") == 0) { while (!(t[i] == '^' && t[i - 1] == ']' && t[i - 2] == ']')) i += t[i] == '\\' ? 2 : 1; w.wb = t.substr(0, i); i++; }
      std::vector<S> f(1); bool tag = false;
      for (; i < t.size(); i++) {
        if (t[i] == '\\') { f.back() += t.substr(i, 2); i++; continue; }
        if (t[i] == '<') tag = true;
        if (t[i] == '>') tag = false;
        if (t[i] == '/' && !tag) f.push_back(S()); else f.back() += t[i];
      }
      w.src = f[0]; if (f.size() > 1) w.tgt = f[1]; if (f.size() > 2) w.refr = f.back();
    } else if (stage == TRANSFER) w.src = w.tgt = t;
    else { Chunk c = parse_chunk(t); w.chunk = c.head; w.body = t.substr(c.head.size()); }
    return w;
  }
  S untouched(const S& t) {
    if (stage == POSTCHUNK) return unchunk(t, st.dict_case);
    if (stage == INTERCHUNK) return u"^" + t + u"$";
    Word w = word_of(t);
    if (!chunks) return w.wb + u"^" + w.tgt + u"$";
    return (w.tgt[0] == '*' ? S(u"^unknown<unknown>{") : S(u"^default<default>{")) + w.wb + u"^" + w.tgt + u"$}$";
  }
  void segment(const std::vector<Tok>& tk) {
    std::set<int> banned;
    for (size_t pos = 0; pos < tk.size();) {
      if (!tk[pos].word) { st.out += tk[pos].text; pos++; continue; }
      int best = -1; size_t len = 0; std::set<size_t> rejected, fit;
      for (size_t r = 0; r < rules.size(); r++) {
        auto& p = rules[r].pat; size_t k = 0;
        for (; k < p.size() && pos + 2 * k < tk.size(); k++) {
          bool m = false; auto sy = symbols(tk[pos + 2 * k].text, stage);
          for (auto& it : cats[p[k]]) m = m || fits(it, sy);
          if (!m) break;
        }
        if (k != p.size()) continue;
        if (banned.count(r)) { rejected.insert(k); continue; }
        fit.insert(k);
        if (k > len) { len = k; best = r; }
      }
      // the data file keeps one rule per state of the matcher: a rule rejected may hide another for the same words
      for (auto k : rejected) if (fit.count(k)) throw Outside{"two rules for the same words, one rejected"};
      if (best < 0) { st.out += untouched(tk[pos].text); banned.clear(); pos++; continue; }
      applied++;
      st.words.clear(); st.frame.clear(); st.blanks.clear();
      if (stage == POSTCHUNK) {
        Chunk c = parse_chunk(tk[pos].text); Caser k = caser(c.head, false);
        if (st.dict_case && (k.all || k.first)) throw Outside{"-w with a capitalised chunk"};
        Word h; h.chunk = c.head; st.words.push_back(h);
        auto ps = pieces(c.body);
        if (!ps.front().text.empty() || !ps.back().text.empty()) throw Outside{"blank at the edge of a chunk"};
        for (size_t i = 1; i + 1 < ps.size(); i++) {
          if (!ps[i].unit) { st.blanks.push_back(ps[i].text); continue; }
          Word w; w.wb = ps[i].wb; w.chunk = fill(ps[i].text, c.tags, k); st.words.push_back(w);
        }
        st.inner = st.words.size() - 1;
      } else for (size_t k = 0; k < len; k++) {
        st.words.push_back(word_of(tk[pos + 2 * k].text));
        if (k) st.blanks.push_back(tk[pos + 2 * k - 1].text);
      }
      for (size_t i = 0; i < st.words.size(); i++) st.frame.push_back(i);
      st.matched = len;
      int r = st.rule(*rules[best].action);
      if (r < 0) { pos += 2 * len - 1; banned.clear(); }
      else if (r == 0) banned.insert(best);
      else { if (size_t(r) != len) throw Outside{"more words than matched"}; pos += 2 * r - 1; banned.clear(); }
    }
  }
};
// ---- streams
static S word_text(Gen& g, bool bil) {
  static const char* lem[] = {"a", "ab", "A", "aB", "b", "x y", "a\\/b", "\xc3\x89t", "bb", "a\\\\", "a#b", "\\^\\$a"};
  static const char* tag[] = {"<n>", "<n><m>", "<n><f><sg>", "<adj><m>", "<np>", "<n><m><sg>", "<zz>", "<n><zz>"};
  auto form = [&] { return u16(lem[g.d(12)]) + u16(tag[g.d(8)]); };
  if (g.stage == TRANSFER) {
    if (!bil) return form();
    S wb = g.d(3) ? S() : g.wblank(); if (!wb.empty()) wb += u"^";
    if (g.d(12) == 11) return wb + u"*un/*un";
    S r = wb + form() + u"/" + form(); if (g.d(3) == 2) r += u"/" + form();
    return r;
  }
  static const char* hd[] = {"np", "Np", "NP", "vp", "a", "a\\{b", "SN", "b"};
  static const char* ht[] = {"<n>", "<n><m>", "<adj><m><sg>", "<zz>", "<n><np>", ""};
  static const char* body[] = {"^a<n>$", "^ab<n><2>$ ^b<adj><1><2>$", "[[t:b]]^ab<n><3>$[x\\]]^b<m>$", "^a\\$b<n>$^x<1>$  ^y<2>$", "[[a;b]]^a\\/b c<n><1>$ [[z]]^b#c<2><sg>$", "^\\^a<n>$ \\[ ^b<1>$", "", "^\xc3\xa9t\xc3\xa9<n>$", "^-a b<n><12>$", " ^a<1>$", "^a<2>$ ", "[<p>]^a<1>$.", "a\\]b^a<n>$,"};
  int k = g.d(16); if (k >= 13) k -= 12;
  S h = u16(hd[g.d(8)]) + u16(ht[g.d(6)]);
  if (g.stage == INTERCHUNK && k == 6) k = 0;
  return h + u"{" + u16(body[k]) + u"}";
}
static vc::Verdict judge(const U32& in, int opt) {
  vc::Verdict v;
  Dec d(in);
  Ref R; R.stage = opt < 2 ? TRANSFER : opt == 2 ? INTERCHUNK : POSTCHUNK; R.bil = opt == 0; R.chunks = d(2);
  RState& st = R.st; st.stage = R.stage; st.strict = true; st.dict_case = d(6) == 5;
  Gen g{d, R.stage, 2, 1, {}, false};
  // categories
  std::string x = "<?xml version=\"1.0\"?><transfer" + std::string(R.chunks ? " default=\"chunk\"" : "") + "><section-def-cats>";
  auto q = [](const S& s) { std::string r; for (char c : vc::utf8(vc::from_utf16(s))) { if (c == '<') r += "&lt;"; else if (c == '\'') r += "&apos;"; else if (c == '&') r += "&amp;"; else r += c; } return r; };
  static const char* il[] = {"", "", "", "ab", "a*", "a"};
  static const char* itg[] = {"n.*", "*", "n", "*", "n.m.*", "adj.m"};
  static const char* inm[] = {"np", "", "a", "sn", "vp", "n*"};
  int nc = 2 + d(3);
  for (int c = 0; c < nc; c++) {
    std::vector<Item> items; x += std::string("<def-cat n='") + CAT[c] + "'>";
    for (int k = 1 + d(2); k > 0; k--) {
      Item it;
      if (R.stage == POSTCHUNK) { it.lemma = u16(inm[d(6)]); x += "<cat-item name='" + q(it.lemma) + "'/>"; }
      else { it.lemma = u16(il[d(6)]); it.tags = u16(itg[d(6)]); x += "<cat-item " + (it.lemma.empty() ? std::string() : "lemma='" + q(it.lemma) + "' ") + "tags='" + q(it.tags) + "'/>"; }
      items.push_back(it);
    }
    R.cats.push_back(items); x += "</def-cat>";
  }
  x += "</section-def-cats><section-def-attrs>";
  for (auto& p : parts()) { x += "<def-attr n='" + q(p.first) + "'>"; for (auto& o : p.second) x += "<attr-item tags='" + q(o) + "'/>"; x += "</def-attr>"; }
  x += "</section-def-attrs><section-def-vars>";
  static const char* names[] = {"v", "w", "x"};
  for (auto n : names) { S val = d(3) ? g.lit() : S(); R.defaults[u16(n)] = val; x += std::string("<def-var n='") + n + "' v='" + q(val) + "'/>"; }
  st.vars = R.defaults;
  st.lists[u"l1"] = {u"ab", u"B", u"<m>"}; st.lists[u"l2"] = {u"Ab"}; st.lists[u"l0"] = {u"zz"};
  x += "</section-def-vars><section-def-lists>";
  for (auto& l : st.lists) { x += "<def-list n='" + q(l.first) + "'>"; for (auto& w : l.second) x += "<list-item v='" + q(w) + "'/>"; x += "</def-list>"; }
  x += "</section-def-lists><section-def-macros>";
  std::function<std::string(const N&)> xm = [&](const N& n) {
    std::string s = "<" + n.tag; for (auto& a : n.at) s += " " + a.first + "='" + q(a.second) + "'";
    if (n.kid.empty()) return s + "/>";
    s += ">"; for (auto& k : n.kid) s += xm(*k);
    return s + "</" + n.tag + ">";
  };
  for (int m = 0, k = d(2); m < k; m++) {
    int ar = R.stage == POSTCHUNK ? 1 : d(2); g.nw = ar;
    P mac = node("def-macro", {{"n", u"m" + Gen::num(m)}, {"npar", Gen::num(ar)}}); g.body(*mac, 1, 1);
    g.macros.push_back(ar); st.macros[u"m" + Gen::num(m)] = {ar, mac}; x += xm(*mac);
  }
  x += "</section-def-macros><section-rules>";
  int nr = 1 + d(4);
  std::set<std::vector<int>> seen;
  for (int r = 0; r < nr; r++) {
    Rule rl; int n = R.stage == POSTCHUNK ? 1 : 1 + d(3);
    for (int i = 0; i < n; i++) rl.pat.push_back(d(nc));
    if (!seen.insert(rl.pat).second) continue;
    g.nw = n; rl.action = node("action");
    int rej = d(4);
    if (rej) {                             // most rules show who they are and what they matched
      P o = node("out"); P u = node(R.stage == INTERCHUNK ? "chunk" : "lu", {}, {node("lit", {{"v", u"r" + Gen::num(r)}})});
      for (int i = 0; i < n && R.stage != POSTCHUNK; i++) u->kid.push_back(node("clip", {{"pos", Gen::num(i + 1)}, {"side", u"tl"}, {"part", u"tags"}}));
      u->kid.push_back(node("var", {{"n", g.var()}}));
      o->kid.push_back(u); if (d(2)) o->kid.push_back(node("b")); if (d(3) == 2) g.body(*rl.action, 1, 1);
      rl.action->kid.push_back(o);
      rl.action->kid.push_back(node("append", {{"n", g.var()}}, {node("lit", {{"v", Gen::num(r)}})}));
    } else g.body(*rl.action, 1 + d(2), 1);
    if (d(3) == 2) {
      P j = node("reject-current-rule", {{"shifting", d(3) ? S(u"no") : n > 1 && d(2) ? S(u"2") : S(u"yes")}});
      P c = node("choose", {}, {node("when", {}, {node("test", {}, {g.cond(0)}), j})});
      if (d(2)) rl.action->kid.insert(rl.action->kid.begin(), c); else rl.action->kid.push_back(d(3) ? c : j);
    }
    R.rules.push_back(rl);
    x += "<rule><pattern>"; for (int c : rl.pat) x += std::string("<pattern-item n='") + CAT[c] + "'/>"; x += "</pattern>" + xm(*rl.action) + "</rule>";
  }
  x += "</section-rules></transfer>";
  // stream
  bool nul = d(3) == 2; int segs = nul ? 1 + d(3) : 1;
  S text; std::vector<std::vector<Tok>> tk(segs);
  for (int s = 0; s < segs; s++) {
    int n = d(6); if (d(8) == 7) n += 6;
    for (int i = 0; i < n; i++) {
      tk[s].push_back({false, i && d(3) ? S(u" ") : d(2) ? S() : g.blank()}); tk[s].push_back({true, word_text(g, R.bil)});
      auto& w = tk[s].back().text; text += tk[s][2 * i].text + (w.compare(0, 2, u"[[") ? u"^" : u"") + w + u"$";
    }
    tk[s].push_back({false, g.blank()}); text += tk[s].back().text; if (nul) text += u'\0';
  }
  try {
    for (int s = 0; s < segs; s++) { st.vars = s ? R.defaults : st.vars; if (s) st.wbs.clear(); st.unit_wb.clear(); R.segment(tk[s]); if (nul) st.out += u'\0'; }
    if (nul) st.out += u'\0';               // what follows the last NUL is one more text, an empty one
  } catch (Outside&) { return v; }
  v.nontrivial = R.applied > 0;
  // the real thing
  auto mem = [](const char* n) { return memfd_create(n, 0); };
  int f1 = mem("rules"), f2 = mem("data");
  std::string p1 = "/proc/self/fd/" + std::to_string(f1), p2 = "/proc/self/fd/" + std::to_string(f2);
  if (::write(f1, x.data(), x.size()) != ssize_t(x.size())) abort();
  vc::Ran r;
  std::string in8 = vc::utf8(vc::from_utf16(text));
  { TRXReader t; t.read(p1); t.write(p2); }
  auto run = [&](auto& t, auto go) {
    t.setNullFlush(nul); t.setDictionaryCase(st.dict_case);
    r = vc::run_stream(in8, [&](FILE* fi, UFILE* o) { InputFile i; i.wrap(fi); go(t, i, o); });
  };
  try {
    if (R.stage == TRANSFER) { Transfer t; t.read(p1, p2, ""); t.setUseBilingual(false); if (R.bil) t.setPreBilingual(true); run(t, [](Transfer& t, InputFile& i, UFILE* o) { t.transfer(i, o); }); }
    else if (R.stage == INTERCHUNK) { Interchunk t; t.read(p1.c_str(), p2.c_str()); run(t, [](Interchunk& t, InputFile& i, UFILE* o) { t.interchunk(i, o); }); }
    else { Postchunk t; t.read(p1.c_str(), p2.c_str()); run(t, [](Postchunk& t, InputFile& i, UFILE* o) { t.postchunk(i, o); }); }
  } catch (VcExit&) { r.status = 1; r.what = "exit while reading the rules"; }
  close(f1); close(f2);
  auto got = vc::utf16(vc::from_utf8(r.out));
  static const char* nm[] = {"transfer -b", "transfer -n", "interchunk", "postchunk"};
  if (r.status || S(got.begin(), got.end()) != st.out) {
    v.ok = false;
    v.why = std::string(nm[opt]) + (nul ? " -z" : "") + (st.dict_case ? " -w" : "") + " with " + x.substr(x.find("<transfer")) + " on " + sh(text) + " should output " + sh(st.out) + (r.status ? " but stops: " + r.what : " but outputs " + sh(S(got.begin(), got.end())));
    for (auto& c : v.why) if (c == '\n') c = ' ';
  }
  return v;
}
int main(int argc, char** argv) {
  { std::map<UString, ApertiumRE> m; setup_parts(m); }
  vc::gen() = [](vc::Rng& r) { U32 s; int n = r(4) ? 120 + r(200) : 30 + r(600); for (int i = 0; i < n; i++) s += char32_t('0' + r(60)); return s; };
  return vc::search(argc, argv, 4, judge);
}
