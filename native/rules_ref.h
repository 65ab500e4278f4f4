// The meaning of the rule language of the transfer stages, over trees of its own:
// what the checks of rule evaluation compare the real stages with.
#pragma once
#include "driver.h"
#include <lttoolbox/string_utils.h>
#include <map>
#include <set>
#include <deque>
#include <memory>
namespace ref {
using S = std::u16string;
struct Outside { const char* why; };                 // the program is outside the precondition
struct N {
  std::string tag; std::vector<std::pair<std::string, S>> at; std::vector<std::shared_ptr<N>> kid;
  S get(const char* k) const { for (auto& a : at) if (a.first == k) return a.second; return S(); }
  bool has(const char* k) const { for (auto& a : at) if (a.first == k) return true; return false; }
};
using P = std::shared_ptr<N>;
inline S low(const S& s) { UString u(s.begin(), s.end()); auto r = StringUtils::tolower(u); return S(r.begin(), r.end()); }
inline S up(const S& s) { UString u(s.begin(), s.end()); auto r = StringUtils::toupper(u); return S(r.begin(), r.end()); }
inline S caseof(const S& s) { UString u(s.begin(), s.end()); auto r = StringUtils::getcase(u); return S(r.begin(), r.end()); }
inline S copy_case(const S& a, const S& b) { UString u(a.begin(), a.end()), w(b.begin(), b.end()); auto r = StringUtils::copycase(u, w); return S(r.begin(), r.end()); }

// ---- parts of a lexical form
inline std::map<S, std::vector<S>>& options() { static std::map<S, std::vector<S>> m; return m; }
inline bool find_part(const S& part, const S& s, size_t& b, size_t& n) {
  if (part == u"whole") { b = 0; n = s.size(); return n; }
  if (part == u"lem" || part == u"lemh") {
    b = 0; n = 0;
    while (n < s.size() && s[n] != '<' && !(part == u"lemh" && s[n] == '#')) n++;
    return n;
  }
  if (part == u"lemq") {
    for (b = 0; b + 2 < s.size(); b++)
      if (s[b] == '#' && (s[b + 1] == '-' || s[b + 1] == ' ' || s[b + 1] == '_') && s[b + 2] != '<') {
        n = 2; while (b + n < s.size() && s[b + n] != '<') n++;
        return true;
      }
    return false;
  }
  if (part == u"tags") {
    for (b = 0; b < s.size(); b++) {
      size_t e = b;
      while (e < s.size() && s[e] == '<') { size_t g = s.find(u'>', e); if (g == S::npos || g == e + 1) break; e = g + 1; }
      if (e > b) { n = e - b; return true; }
    }
    return false;
  }
  if (part == u"chname") {
    for (b = 0; b < s.size(); b++) if (s[b] == '{') { size_t g = s.find(u'/', b); if (g == S::npos || g == b + 1) continue; n = g + 1 - b; return true; }
    return false;
  }
  if (part == u"chcontent" || part == u"content") {
    b = s.find(u'{'); if (b == S::npos || b + 1 >= s.size()) return false;
    n = s.size() - b; return true;
  }
  auto it = options().find(part);
  if (it == options().end()) return false;
  for (b = 0; b < s.size(); b++) {
    n = 0;
    for (auto& o : it->second) if (low(s.substr(b, o.size())) == low(o)) n = std::max(n, o.size());
    if (n) return true;
  }
  return false;
}
inline S clip_of(const S& part, const S& s) { size_t b, n; return find_part(part, s, b, n) ? s.substr(b, n) : S(); }
inline void put(const S& part, S& s, const S& v) { size_t b, n; if (find_part(part, s, b, n)) s = s.substr(0, b) + v + s.substr(b + n); }
inline bool is_lemma(const S& p) { return p == u"lem" || p == u"lemh" || p == u"whole"; }

enum Stage { TRANSFER, INTERCHUNK, POSTCHUNK };
struct Word { S src, tgt, refr, wb; size_t queue = 0; S chunk, body; };
struct RState {
  Stage stage = TRANSFER; bool dict_case = false;
  std::vector<Word> words;                    // interchunk, transfer: the words; postchunk: word 0 is the head of the chunk
  std::vector<int> frame;                     // the words the current rule or macro names
  int matched = 0, inner = 0;                  // words the rule matched; units inside the chunk
  std::map<S, S> vars, wbs;
  std::map<S, std::set<S>> lists;
  std::map<S, std::pair<int, P>> macros;
  std::deque<S> blanks;
  S out;
  // where the word-bound blanks of the clips being evaluated go
  enum { NOWHERE, UNIT, VAR } to = NOWHERE; S to_var; std::vector<S> unit_wb; bool in_out = false, var_on = false;
  int depth = 0; bool strict = false;          // strict: positions beyond the words of the pattern are outside

  int count() const { return stage == TRANSFER ? matched : stage == POSTCHUNK ? int(frame.size()) - 1 : 0; }
  Word* at(int pos) {                          // pos counts from 1 (from 0 in postchunk)
    int i = stage == POSTCHUNK ? pos : pos - 1;
    if (i < 0 || i >= int(frame.size())) { if (strict) throw Outside{"no such word"}; return nullptr; }
    return &words[frame[i]];
  }
  static S join(const S& a, const S& b) {       // [[x]] and [[y]] together are [[x; y]]
    if (a.empty()) return b;
    if (b.empty()) return a;
    return a.substr(0, a.size() - 2) + u"; " + b.substr(2);
  }
  S join_all() const { S r; for (auto& w : unit_wb) r = join(r, w); return r; }
  S& side(Word& w, const S& sd) { return sd == u"sl" ? w.src : sd == u"ref" ? w.refr : w.tgt; }
  S part_of(Word& w, const S& sd, const S& part, bool queue) {
    if (stage == TRANSFER) {
      const S& s = side(w, sd);
      if (queue) return clip_of(part, s);
      if (s.size() < w.queue) throw Outside{"the queue is gone"};
      return clip_of(part, s.substr(0, s.size() - w.queue));
    }
    // a clip of the whole head takes the body with it; parts of the body are taken only whole
    S r = clip_of(part, w.chunk);
    if (r.empty()) { r = clip_of(part, w.body); return r.size() == w.body.size() ? r : S(); }
    if (r.size() == w.chunk.size()) return clip_of(part, w.chunk + w.body);
    return r;
  }
  void set_part(Word& w, const S& sd, const S& part, bool queue, const S& v) {
    if (stage != TRANSFER) { put(part, w.chunk, v); return; }
    S& s = side(w, sd);
    if (queue) { put(part, s, v); return; }
    if (s.size() < w.queue) throw Outside{"the queue is gone"};
    S q = s.substr(s.size() - w.queue), m = s.substr(0, s.size() - w.queue);
    put(part, m, v); s = m + q;
  }
  static int num(const S& s) { return std::stoi(std::string(s.begin(), s.end())); }
  void collect(const S& wb) {
    if (to == UNIT) unit_wb.push_back(wb);
    else if (to == VAR) wbs[to_var] = join(wbs[to_var], wb);
  }
  S lexical_unit(const N& e, bool many) {
    to = UNIT; unit_wb.clear();
    S text; bool first = true;
    if (!many) for (auto& k : e.kid) text += eval(*k);
    else for (auto& lu : e.kid) {
      S t; for (auto& k : lu->kid) t += eval(*k);
      if (!first && !t.empty() && t[0] != '#') text += u'+';
      if (!t.empty()) first = false;
      text += t;
    }
    to = var_on ? VAR : NOWHERE;
    S wb = join_all();
    if (stage == TRANSFER && matched == 1 && !frame.empty()) wb = words[frame[0]].wb;
    if (stage == POSTCHUNK && frame.size() == 2) wb = words[frame[1]].wb;
    unit_wb.clear(); if (!wb.empty()) unit_wb.push_back(wb);
    if (text.empty()) return text;
    if (!many && stage == TRANSFER && text.size() > 1 && text[0] == '[' && text[1] == '[') return text + u"$";
    return wb + u"^" + text + u"$";
  }
  S eval(const N& e) {
    const std::string& t = e.tag;
    if (t == "lit") return e.get("v");
    if (t == "lit-tag") { S r = e.get("v"); if (r.empty()) return r; S o = u"<"; for (auto c : r) { if (c == '.') o += u"><"; else o += c; } return o + u">"; }
    if (t == "var") {
      S n = e.get("n");
      if (count() > 1 && to == UNIT) unit_wb.push_back(wbs[n]);
      return vars[n];
    }
    if (t == "concat") { S r; for (auto& k : e.kid) r += eval(*k); return r; }
    if (t == "b") { if (blanks.empty()) return u" "; S r = blanks.front(); if (in_out) blanks.pop_front(); return r; }
    if (t == "clip") {
      Word* w = at(num(e.get("pos"))); if (!w) return S();
      S part = e.get("part"), sd = e.get("side"); bool q = e.get("queue") != u"no";
      if (stage == TRANSFER && !e.get("link-to").empty()) return part_of(*w, sd, part, q).empty() ? S() : u"<" + e.get("link-to") + u">";
      if (is_lemma(part) && count() > 1 && !(stage == TRANSFER && sd == u"ref")) collect(w->wb);
      S r = part_of(*w, sd, part, q);
      if (stage == INTERCHUNK && part == u"content") { if (r.size() < 2) throw Outside{"no body"}; r = r.substr(1, r.size() - 2); }
      return r;
    }
    if (t == "case-of") { Word* w = at(num(e.get("pos"))); return w ? caseof(part_of(*w, e.get("side"), e.get("part"), true)) : S(); }
    if (t == "get-case-from") {
      Word* w = at(num(e.get("pos"))); if (!w) return S();
      S c = part_of(*w, u"sl", u"lem", true), v = eval(*e.kid[0]);
      if (dict_case) return v;
      size_t b = v.find(u'<'), g = v.rfind(u'>');
      if (b == S::npos || g == S::npos) return copy_case(c, v);
      if (g < b) throw Outside{"not a lexical form"};
      S k = caseof(c), tail = v.substr(g + 1);
      return copy_case(k, v.substr(0, b)) + v.substr(b, g + 1 - b) + (tail.empty() ? tail : k == u"AA" ? up(tail) : low(tail));
    }
    if (t == "lu-count") { auto s = std::to_string(inner); return S(s.begin(), s.end()); }
    if (t == "lu") return lexical_unit(e, false);
    if (t == "mlu") return lexical_unit(e, true);
    if (t == "chunk" && stage == INTERCHUNK) { S r = u"^"; for (auto& k : e.kid) r += eval(*k); return r + u"$"; }
    if (t == "chunk") {
      S name = e.get("name"); if (name.empty()) name = vars[e.get("namefrom")];
      S cs = e.has("case") ? e.get("case") : S(u"aa");
      S r = u"^";
      r += !cs.empty() && !dict_case ? copy_case(vars[cs], name) : name;
      for (auto& k : e.kid) {
        if (k->tag == "tags") { for (auto& g : k->kid) for (auto& v : g->kid) r += eval(*v); r += u"{"; }
        else r += eval(*k);
      }
      return r + u"}$";
    }
    throw Outside{"no such value"};
  }
  static bool starts(const S& a, const S& b) { return a.size() >= b.size() && a.compare(0, b.size(), b) == 0; }
  static bool ends(const S& a, const S& b) { return a.size() >= b.size() && a.compare(a.size() - b.size(), b.size(), b) == 0; }
  bool test(const N& e) {
    const std::string& t = e.tag;
    if (t == "and") { for (auto& k : e.kid) if (!test(*k)) return false; return true; }
    if (t == "or") { for (auto& k : e.kid) if (test(*k)) return true; return false; }
    if (t == "not") return !test(*e.kid[0]);
    bool cl = e.get("caseless") == u"yes";
    auto val = [&](int i) { S v = eval(*e.kid[i]); return cl ? low(v) : v; };
    S a = val(0);
    if (t == "equal" || t == "begins-with" || t == "ends-with" || t == "contains-substring") {
      S b = val(1);
      return t == "equal" ? a == b : t == "begins-with" ? starts(a, b) : t == "ends-with" ? ends(a, b) : a.find(b) != S::npos;
    }
    for (auto& v : lists[e.kid[1]->get("n")]) {
      S b = cl ? low(v) : v;
      if (t == "in" ? a == b : t == "begins-with-list" ? starts(a, b) : ends(a, b)) return true;
    }
    return false;
  }
  // the number of words to take, or -1
  int block(const N& e, size_t from) {
    for (size_t i = from; i < e.kid.size(); i++) { int r = run(*e.kid[i]); if (r != -1) return r; }
    return -1;
  }
  int run(const N& e) {
    const std::string& t = e.tag;
    if (t == "choose") {
      for (auto& o : e.kid) {
        if (o->tag == "otherwise") return block(*o, 0);
        if (test(*o->kid[0]->kid[0])) return block(*o, 1);
      }
      return -1;
    }
    if (t == "reject-current-rule") { S s = e.get("shifting"); return s == u"yes" ? 1 : s == u"no" ? 0 : num(s); }
    if (t == "out") { in_out = true; for (auto& k : e.kid) out += eval(*k); in_out = false; return -1; }
    if (t == "let") {
      const N& l = *e.kid[0];
      if (l.tag == "var") {
        S n = l.get("n"); to = VAR; var_on = true; to_var = n; wbs[n].clear();
        S v = eval(*e.kid[1]); to = NOWHERE; var_on = false; vars[n] = v;
      } else {
        Word* w = at(num(l.get("pos"))); if (!w) { if (stage != TRANSFER) throw Outside{"no such word"}; return -1; }
        S v = eval(*e.kid[1]);
        set_part(*w, l.get("side"), l.get("part"), stage != TRANSFER || l.get("queue") != u"no", v);
      }
      return -1;
    }
    if (t == "append") { for (auto& k : e.kid) { S n = e.get("n"); to = VAR; var_on = true; to_var = n; S v = eval(*k); to = NOWHERE; var_on = false; vars[n] += v; } return -1; }
    if (t == "modify-case") {
      if (dict_case) return -1;
      const N& l = *e.kid[0];
      if (l.tag == "var") { S v = eval(*e.kid[1]); S n = l.get("n"); vars[n] = copy_case(v, vars[n]); return -1; }
      Word* w = at(num(l.get("pos"))); if (!w) throw Outside{"no such word"};
      bool q = l.get("queue") != u"no";
      S v = eval(*e.kid[1]);
      set_part(*w, l.get("side"), l.get("part"), q, copy_case(v, part_of(*w, l.get("side"), l.get("part"), q)));
      return -1;
    }
    if (t == "call-macro") {
      auto& m = macros[e.get("n")];
      std::vector<int> f; if (stage == POSTCHUNK) f.push_back(frame[0]);
      for (auto& p : e.kid) {
        int pos = num(p->get("pos")), i = stage == POSTCHUNK ? pos : pos - 1;
        if (i < 0 || i >= int(frame.size())) throw Outside{"no such word"};
        f.push_back(frame[i]);
      }
      if (++depth > 4) throw Outside{"recursion"};
      frame.swap(f); for (auto& k : m.second->kid) run(*k); frame.swap(f);
      depth--;
      return -1;
    }
    return -1;
  }
  int rule(const N& action) {
    int r = block(action, 0);
    if (r != 0) for (auto& b : blanks) if (b != u" ") out += b;    // a rejected rule gives everything back
    blanks.clear();
    return r;
  }
};
}
