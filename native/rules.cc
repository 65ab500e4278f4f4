// Rule evaluation of the transfer stages against rules_ref.h.
#include "rules_real.h"
#ifndef FOCUS
#define FOCUS 0
#endif
// ---- the real words of each stage
static void set_words(Transfer& t, RState& st) {
  t.word = new TransferWord*[st.words.size()];
  for (size_t i = 0; i < st.words.size(); i++) { auto& w = st.words[i]; t.word[i] = new TransferWord(us(w.src), us(w.tgt), us(w.refr), us(w.wb), w.queue); }
  t.lword = st.words.size(); t.last_lword = st.matched;
}
template <class T> void chunks(T& t, RState& st) {
  t.word = new InterchunkWord*[st.words.size()];
  for (size_t i = 0; i < st.words.size(); i++) { auto& w = st.words[i]; t.word[i] = new InterchunkWord(us(w.wb + w.chunk + w.body)); }
}
static void set_words(Interchunk& t, RState& st) { chunks(t, st); t.lword = t.last_lword = st.words.size(); }
static void set_words(Postchunk& t, RState& st) { chunks(t, st); t.lword = st.words.size() - 1; t.tmpword.assign(st.inner, nullptr); }
template <class T> void drop_words(T& t, RState& st) { for (size_t i = 0; i < st.words.size(); i++) delete t.word[i]; delete[] t.word; t.word = nullptr; }
static std::vector<S> texts(Transfer& t, size_t n) { std::vector<S> r; for (size_t i = 0; i < n; i++) { r.push_back(su(t.word[i]->s_str)); r.push_back(su(t.word[i]->t_str)); r.push_back(su(t.word[i]->r_str)); } return r; }
template <class T> std::vector<S> texts(T& t, size_t n) { std::vector<S> r; for (size_t i = 0; i < n; i++) { r.push_back(su(t.word[i]->chunk)); r.push_back(su(t.word[i]->queue)); } return r; }
static std::vector<S> texts(RState& s) { std::vector<S> r; for (auto& w : s.words) { if (s.stage == TRANSFER) { r.push_back(w.src); r.push_back(w.tgt); r.push_back(w.refr); } else { r.push_back(w.chunk); r.push_back(w.body); } } return r; }

static void words(Gen& g, RState& st, int n) {
  st.words.clear(); st.frame.clear();
  for (int i = 0; i < n + (st.stage == POSTCHUNK ? 1 : 0); i++) {
    Word w;
    if (st.stage == TRANSFER) {
      w.src = g.lexform(); w.tgt = g.lexform(); w.refr = g.lexform(); w.wb = g.wblank();
      if (g.d(3) == 2) { S q = g.d(2) ? u"<sg>" : u"<m><pl>"; w.src += q; w.tgt += q; w.refr += q; w.queue = q.size(); }
    } else if (st.stage == INTERCHUNK) {
      w.chunk = g.lexform(); if (w.chunk.empty()) w.chunk = u"x<n>";
      w.body = g.d(2) ? u"{^a<n>$}" : u"{[[t:b]]^Ab<n><2>$ ^b<m>$}";
    } else {
      w.chunk = g.lexform(); if (w.chunk.empty()) w.chunk = u"a";
      if (i) w.wb = g.wblank();
    }
    st.words.push_back(w); st.frame.push_back(i);
  }
  st.matched = st.inner = n;
}
template <class T> vc::Verdict judge(const U32& in, Stage stage) {
  vc::Verdict v;
  Dec d(in);
  RState st; st.stage = stage; st.dict_case = d(5) == 4;
  int nw = d(8) == 7 ? 3 : stage == POSTCHUNK && d(9) == 8 ? 0 : d(2) + 1;
  Gen g{d, stage, FOCUS, nw, {}, false};
  static const char* names[] = {"v", "w", "x"};
  for (auto n : names) if (d(3)) st.vars[u16(n)] = g.lit();
  st.lists[u"l1"] = {u"ab", u"B", u"<m>"}; st.lists[u"l2"] = {g.lit(), g.lit(), u"Ab"};
  T t; t.setDictionaryCase(st.dict_case);
  t.doc = xmlNewDoc((const xmlChar*)"1.0"); t.doc->URL = xmlStrdup((const xmlChar*)"rules");
  xmlNode* root = xmlNewNode(nullptr, (const xmlChar*)"transfer"); xmlDocSetRootElement(t.doc, root);
  setup_parts(t.attr_items);
  std::string text;
  for (int m = 0, k = d(3); m < k; m++) {
    int ar = d(3); if (stage == POSTCHUNK && !ar) ar = 1;
    g.nw = ar; P mac = node("def-macro", {{"n", u"m" + Gen::num(m)}, {"npar", Gen::num(ar)}});
    if (d(2)) std::swap(mac->at[0], mac->at[1]);
    g.body(*mac, 1 + d(2), 1); g.nw = nw;
    g.macros.push_back(ar);
    st.macros[u"m" + Gen::num(m)] = {ar, mac};
    t.macros[us(u"m" + Gen::num(m))] = m;
    xmlNode* x = xml(*mac, d); xmlAddChild(root, x); t.macro_map.push_back(x);
    text += dump(*mac) + " ";
  }
  P act = node("action"); g.body(*act, 1 + d(4), 2);
  xmlNode* xa = xml(*act, d); xmlAddChild(root, xa);
  text += dump(*act);
  for (auto& x : st.vars) t.variables[us(x.first)] = us(x.second);
  for (auto& l : st.lists) for (auto& w : l.second) { t.lists[us(l.first)].insert(us(w)); t.listslow[us(l.first)].insert(us(low(w))); }
  std::string in_desc;
  for (int round = 0; round < 2; round++) {
    words(g, st, round ? std::max(nw, int(1 + d(2))) : nw);
    st.blanks.clear(); st.out.clear();
    for (int i = 1; i < (stage == POSTCHUNK ? st.inner : st.matched); i++) st.blanks.push_back(g.blank());
    set_words(t, st);
    t.blank_queue = {}; for (auto& b : st.blanks) t.blank_queue.push(us(b));
    std::string wd; for (auto& w : texts(st)) wd += " " + sh(w);
    for (auto& w : st.words) wd += " wb " + sh(w.wb) + " queue " + std::to_string(w.queue);
    for (auto& x : st.vars) wd += " " + sh(x.first) + "=" + sh(x.second);
    for (auto& b : st.blanks) wd += " blank " + sh(b);
    size_t nwords = st.words.size();
    int want; bool outside = false;
    try { want = st.rule(*act); } catch (Outside&) { outside = true; }
    if (outside) { drop_words(t, st); v.ok = true; return v; }
    int got = -2; const char* threw = nullptr;
    auto r = vc::run_stream("", [&](FILE*, UFILE* o) { t.output = o; try { got = t.processRule(xa); } catch (const char* m) { threw = m; } });
    auto where = "rule " + text + (round ? " (second time)" : "") + (st.dict_case ? " dictionary case" : "") + " words" + wd + ": ";
    v.nontrivial = true;
    if (threw || r.status) { v.ok = false; v.why = where + "stops with " + (threw ? threw : r.what.c_str()); return v; }
    S out; { auto q = vc::utf16(vc::from_utf8(r.out)); out = S(q.begin(), q.end()); }
    auto tx = texts(t, nwords), rx = texts(st);
    auto bad = [&](std::string w) { v.ok = false; v.why = where + w; };
    if (out != st.out) bad("should output " + sh(st.out) + " but outputs " + sh(out));
    else if (got != want) bad("should take " + std::to_string(want) + " words but takes " + std::to_string(got));
    else if (tx != rx) { for (size_t i = 0; i < tx.size(); i++) if (tx[i] != rx[i]) { bad("leaves " + sh(tx[i]) + " in a word that should be " + sh(rx[i])); break; } }
    else if (!t.blank_queue.empty()) bad("blanks are left over");
    else for (auto& x : st.vars) if (su(t.variables[us(x.first)]) != x.second) { bad("leaves variable " + sh(x.first) + " " + sh(su(t.variables[us(x.first)])) + " which should be " + sh(x.second)); break; }
    drop_words(t, st);
    if (!v.ok) return v;
  }
  return v;
}
int main(int argc, char** argv) {
  vc::gen() = [](vc::Rng& r) { U32 s; int n = 20 + r(r(4) ? 120 : 400); for (int i = 0; i < n; i++) s += char32_t('0' + r(60)); return s; };
  return vc::search(argc, argv, 3, [](const U32& in, int opt) {
    return opt == 0 ? judge<Transfer>(in, TRANSFER) : opt == 1 ? judge<Interchunk>(in, INTERCHUNK) : judge<Postchunk>(in, POSTCHUNK);
  });
}
