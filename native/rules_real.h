// What the harnesses of the transfer stages share: rules as XML, and the parts of words.
#pragma once
#include "rules_gen.h"
#include "lt_case.h"
#include <lttoolbox/input_file.h>
#include <lttoolbox/buffer.h>
#include <lttoolbox/compression.h>
#include <lttoolbox/transducer.h>
#include <lttoolbox/xml_walk_util.h>
#define private public
#define protected public
#include <apertium/transfer.h>
#include <apertium/interchunk.h>
#include <apertium/postchunk.h>
#include <apertium/transfer_data.h>
#include <apertium/transfer_regex.h>
#undef private
#undef protected
using namespace ref;
using vc::U32;
static UString us(const S& s) { return UString(s.begin(), s.end()); }
static S su(const UString& s) { return S(s.begin(), s.end()); }
static std::string sh(const S& s) { return vc::show(vc::from_utf16(s)); }
static xmlNode* xml(const N& n, Dec& d) {
  xmlNode* x = xmlNewNode(nullptr, (const xmlChar*)n.tag.c_str());
  for (auto& a : n.at) xmlNewProp(x, (const xmlChar*)a.first.c_str(), (const xmlChar*)vc::utf8(vc::from_utf16(a.second)).c_str());
  for (auto& k : n.kid) {
    int j = d(8);
    if (j == 1) xmlAddChild(x, xmlNewText((const xmlChar*)"\n  "));
    if (j == 2) xmlAddChild(x, xmlNewComment((const xmlChar*)"c"));
    xmlAddChild(x, xml(*k, d));
  }
  if (d(8) == 1) xmlAddChild(x, xmlNewText((const xmlChar*)"\n"));
  return x;
}
static const std::vector<std::pair<S, std::vector<S>>>& parts() {
  static std::vector<std::pair<S, std::vector<S>>> p = {{u"gen", {u"m", u"f", u"mf", u"ma"}}, {u"nbr", {u"sg", u"pl"}}, {u"a1", {u"n", u"n.acr", u"n.ma.mx", u"adj"}}};
  return p;
}
static void setup_parts(std::map<UString, ApertiumRE>& to) {
  static TransferData td;
  for (auto& it : td.getAttrItems()) to[it.first].compile(it.second);
  for (auto& p : parts()) {
    std::vector<UString> v; for (auto& o : p.second) v.push_back(us(o));
    to[us(p.first)].compile(optimize_regex(v));
    auto& mine = options()[p.first]; mine.clear();
    for (auto& o : p.second) { S t = u"<"; for (auto c : o) { if (c == '.') t += u"><"; else t += c; } mine.push_back(t + u">"); }
  }
}
