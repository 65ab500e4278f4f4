// lttoolbox 3.x returns uninitialised text for the lower or upper case of an
// empty string.  The checks assume the documented meaning, so the harness
// brings these two functions itself (they take the place of the library's).
#pragma once
#include <lttoolbox/string_utils.h>
#include <unicode/ustring.h>
#define VC_CASE(fn, icu) \
  UString StringUtils::fn(UStringView s) { \
    if (s.empty()) return UString(); \
    UErrorCode e = U_ZERO_ERROR; UString r(s.size() * 3 + 4, u'\0'); \
    int n = icu((UChar*)r.data(), r.size(), (const UChar*)s.data(), s.size(), nullptr, &e); \
    r.resize(n); return r; }
VC_CASE(tolower, u_strToLower)
VC_CASE(toupper, u_strToUpper)
