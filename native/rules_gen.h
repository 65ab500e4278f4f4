// Random rules, words, variables and lists, decoded from the input of the search.
#pragma once
#include "rules_ref.h"
namespace ref {
struct Dec {
  const vc::U32& s; size_t i = 0;
  explicit Dec(const vc::U32& in) : s(in) {}
  unsigned operator()(unsigned n) { if (i >= s.size()) return 0; return unsigned(s[i++]) % n; }
};
inline S u16(const std::string& a) { auto t = vc::utf16(vc::from_utf8(a)); return S(t.begin(), t.end()); }
inline P node(const char* tag, std::vector<std::pair<std::string, S>> at = {}, std::vector<P> kid = {}) { auto n = std::make_shared<N>(); n->tag = tag; n->at = at; n->kid = kid; return n; }
struct Gen {
  Dec& d; Stage stage; int focus; int nw;            // words one may name
  std::vector<int> macros;                            // arity of the macros defined so far
  bool in_unit = false;
  static S num(int i) { auto s = std::to_string(i); return S(s.begin(), s.end()); }
  S lemma() {
    static const char* p[] = {"a", "ab", "Ab", "AB", "", "b", "ba", "\xc3\x89t\xc3\xa9", "a b", "ab#", "ab# c", "aB# b c", "a_b", "a\\/b", "AbAb", "# b", "\\<a", "a\"b", "\xf0\x9f\x98\x80z", "1a"};
    return u16(p[d(20)]);
  }
  S tags() {
    static const char* p[] = {"<n>", "<n><m>", "<n><m><sg>", "", "<n><acr><mf><pl>", "<N><F><SG>", "<adj><f><pl>", "<m>", "<n><ma><mx>", "<np><m><m>"};
    return u16(p[d(10)]);
  }
  S lexform() { S l = lemma(); return l + tags(); }
  S wblank() { static const char* p[] = {"", "[[t:b:1]]", "[[t]]", "[[x; y]]", "[[a\\]b]]", "[[]]", "[[b\\\\]]"}; return u16(p[d(7)]); }
  S blank() { static const char* p[] = {" ", "[<b>]", "", "  ", " [\\]] ", "\n"}; return u16(p[d(6)]); }
  S var() { static const char* p[] = {"v", "w", "x"}; return u16(p[d(3)]); }
  S list() { static const char* p[] = {"l1", "l2", "l0"}; return u16(p[d(3)]); }
  S lit() { static const char* p[] = {"ab", "Ab", "a", "", "B", "<m>", "AB", "b", "# c", "[x]", "\xc3\xa9", "<n>", "aa", "Aa", "AA", "a b"}; return u16(p[d(16)]); }
  S part() {
    static const char* p[] = {"lem", "tags", "whole", "lemh", "lemq", "gen", "nbr", "a1", "lem", "gen"};
    static const char* c[] = {"lem", "tags", "whole", "chcontent", "content", "gen", "nbr", "a1", "lem", "lemh"};
    unsigned k = d(10);
    return u16(stage == INTERCHUNK ? c[k] : p[k]);
  }
  S side() { static const char* p[] = {"tl", "sl", "ref", "tl"}; return u16(p[d(4)]); }
  S pos(bool beyond) {
    int n = nw + (beyond && d(12) == 11 ? 1 : 0);
    if (stage == POSTCHUNK) return num(d(nw + 1));
    return n ? num(1 + d(n)) : u"1";
  }
  P clip(bool left) {
    P c = node("clip");
    std::vector<std::pair<std::string, S>> a;
    a.push_back({"pos", pos(stage == TRANSFER)});
    if (stage == TRANSFER || d(2)) a.push_back({"side", stage == TRANSFER ? side() : S(u"tl")});
    a.push_back({"part", part()});
    if (stage != INTERCHUNK) for (auto& x : a) if (x.first == "part" && (x.second == u"content" || x.second == u"chcontent")) x.second = u"lem";
    if (left && stage == INTERCHUNK) for (auto& x : a) if (x.first == "part" && (x.second == u"content" || x.second == u"chcontent")) x.second = u"tags";
    int q = d(4); if (q == 1) a.push_back({"queue", u"no"}); if (q == 2) a.push_back({"queue", u"yes"});
    if (!left && stage == TRANSFER && d(6) == 5) a.push_back({"link-to", num(1 + d(3))});
    int r = d(3); std::rotate(a.begin(), a.begin() + r % a.size(), a.end());
    c->at = a;
    return c;
  }
  P value(int depth, bool units = false) {
    bool can_clip = stage == POSTCHUNK || nw > 0;
    switch (d(depth > 0 ? 14 : 8)) {
    case 0: return node("lit", {{"v", lit()}});
    case 1: case 2: case 3: if (can_clip) return clip(false); return node("lit", {{"v", lit()}});
    case 4: return node("var", {{"n", var()}});
    case 5: { static const char* p[] = {"n", "n.m", "m", "sg", "n.acr.mf"}; return node("lit-tag", {{"v", u16(p[d(5)])}}); }
    case 6: if (can_clip) { P c = node("case-of", {{"pos", pos(stage == TRANSFER)}}); if (stage == TRANSFER) c->at.push_back({"side", side()}); c->at.push_back({"part", part()}); if (d(2)) std::swap(c->at[0], c->at.back()); return c; } return node("lit", {{"v", lit()}});
    case 7: return node("b", d(2) ? std::vector<std::pair<std::string, S>>{{"pos", u"1"}} : std::vector<std::pair<std::string, S>>{});
    case 8: case 9: { P c = node("concat"); int n = 1 + d(3); for (int i = 0; i < n; i++) c->kid.push_back(value(depth - 1, units)); return c; }
    case 10: case 11: if (nw > 0) { int k = d(3); return node("get-case-from", {{"pos", num(1 + d(nw))}}, {k == 0 ? clip(false) : k == 1 ? node("lit", {{"v", lit()}}) : node("var", {{"n", var()}})}); } return node("lit", {{"v", lit()}});
    case 12: if (stage == POSTCHUNK && d(2)) return node("lu-count"); return node("lit", {{"v", lit()}});
    default:
      if (units && stage != INTERCHUNK && !in_unit) return d(2) ? unit(false) : unit(true);
      return clip_or_lit();
    }
  }
  P clip_or_lit() { return stage == POSTCHUNK || nw > 0 ? clip(false) : node("lit", {{"v", lit()}}); }
  P unit(bool many) {
    in_unit = true;
    P u = node(many ? "mlu" : "lu");
    int n = 1 + d(3);
    for (int i = 0; i < n; i++) {
      if (many) { P l = node("lu"); int m = 1 + d(2); for (int j = 0; j < m; j++) l->kid.push_back(value(1)); u->kid.push_back(l); }
      else u->kid.push_back(value(1));
    }
    in_unit = false;
    return u;
  }
  P chunk() {
    P c = node("chunk");
    if (stage == INTERCHUNK) { int n = 1 + d(3); for (int i = 0; i < n; i++) c->kid.push_back(value(1)); return c; }
    int k = d(4);
    if (k != 1) c->at.push_back({"name", d(2) ? u"nP" : u"ab"});
    if (k == 1 || k == 2) c->at.push_back({"namefrom", var()});
    int q = d(4); if (q == 1 || q == 2) c->at.push_back({"case", var()});
    P t = node("tags"); int n = 1 + d(2);
    for (int i = 0; i < n; i++) t->kid.push_back(node("tag", {}, {value(0)}));
    c->kid.push_back(t);
    n = 1 + d(3); for (int i = 0; i < n; i++) c->kid.push_back(outkid(false));
    return c;
  }
  P outkid(bool top) {
    if (stage == INTERCHUNK) { int k = d(4); return k == 3 ? node("b", {{"pos", u"1"}}) : k == 2 && d(3) == 0 ? node("var", {{"n", var()}}) : chunk(); }
    switch (d(top && stage == TRANSFER ? 6 : 5)) {
    case 0: case 1: return unit(false);
    case 2: return unit(true);
    case 3: return node("b", d(2) ? std::vector<std::pair<std::string, S>>{{"pos", u"1"}} : std::vector<std::pair<std::string, S>>{});
    case 4: return node("var", {{"n", var()}});
    default: return chunk();
    }
  }
  P out() { P o = node("out"); int n = 1 + d(3); for (int i = 0; i < n; i++) o->kid.push_back(outkid(true)); return o; }
  P cond(int depth) {
    int k = d(depth > 0 ? 11 : 7);
    std::vector<std::pair<std::string, S>> at;
    auto cl = [&] { int c = d(4); if (c == 1 || c == 2) at.push_back({"caseless", u"yes"}); if (c == 3) at.push_back({"caseless", u"no"}); };
    static const char* two[] = {"equal", "begins-with", "ends-with", "contains-substring"};
    static const char* lst[] = {"in", "begins-with-list", "ends-with-list"};
    if (k < 4) { cl(); P a = value(1), b = value(1); return node(two[k], at, {a, b}); }
    if (k < 7) { cl(); P a = value(1); return node(lst[k - 4], at, {a, node("list", {{"n", list()}})}); }
    if (k == 7 || k == 10) return node("not", {}, {cond(depth - 1)});
    P c = node(k == 8 ? "and" : "or"); int n = 2 + d(2); for (int i = 0; i < n; i++) c->kid.push_back(cond(depth - 1));
    return c;
  }
  P choose(int depth) {
    P c = node("choose");
    int n = 1 + d(3);
    for (int i = 0; i < n; i++) {
      P w = node("when", {}, {node("test", {}, {cond(focus == 0 ? 2 : 1)})});
      body(*w, d(3), depth - 1); c->kid.push_back(w);
    }
    if (d(2)) { P o = node("otherwise"); body(*o, 1 + d(2), depth - 1); c->kid.push_back(o); }
    return c;
  }
  void body(N& n, int k, int depth) { for (int i = 0; i < k; i++) n.kid.push_back(instr(depth)); }
  P let() {
    if (d(2) && (nw > 0)) { P l = clip(true); return node("let", {}, {l, value(1, false)}); }
    P l = node("var", {{"n", var()}});
    return node("let", {}, {l, value(2, focus == 2)});
  }
  P instr(int depth) {
    static const int w[3][8] = {{5, 2, 1, 1, 1, 1, 1, 0}, {2, 5, 2, 1, 3, 2, 0, 0}, {1, 3, 2, 6, 1, 2, 0, 0}};   // choose let append out modify macro reject
    int tot = 0; for (int i = 0; i < 7; i++) tot += w[focus][i];
    int k = d(tot), t = 0; while (k >= w[focus][t]) k -= w[focus][t++];
    switch (t) {
    case 0: if (depth > 0) return choose(depth); return out();
    case 1: return let();
    case 2: { P a = node("append", {{"n", var()}}); int n = 1 + d(2); for (int i = 0; i < n; i++) a->kid.push_back(value(1, focus == 2)); return a; }
    case 3: return out();
    case 4: {
      P l = d(2) && nw > 0 ? clip(true) : node("var", {{"n", var()}});
      if (l->tag == "clip") for (auto& a : l->at) if (a.first == "pos" && stage == TRANSFER) a.second = num(1 + d(nw));
      int m = d(3); P r = m == 0 || nw == 0 ? node("lit", {{"v", lit()}}) : m == 1 ? node("var", {{"n", var()}}) : clip(false);
      return node("modify-case", {}, {l, r});
    }
    case 5:
      if (!macros.empty()) {
        int m = d(macros.size()), ar = macros[m];
        if (ar == 0 || nw > 0) {
          P c = node("call-macro", {{"n", u"m" + num(m)}});
          for (int i = 0; i < ar; i++) c->kid.push_back(node("with-param", {{"pos", num(1 + d(nw))}}));
          return c;
        }
      }
      return let();
    default: { static const char* p[] = {"yes", "no", "1", "2", "0"}; return node("reject-current-rule", {{"shifting", u16(p[d(5)])}}); }
    }
  }
};
inline std::string dump(const N& n) {
  std::string s = "<" + n.tag;
  for (auto& a : n.at) s += " " + a.first + "='" + vc::utf8(vc::from_utf16(a.second)) + "'";
  if (n.kid.empty()) return s + "/>";
  s += ">"; for (auto& k : n.kid) s += dump(*k);
  return s + "</" + n.tag + ">";
}
}
