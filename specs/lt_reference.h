#pragma once
// Reference text of library functions that are not in /repo (lttoolbox): the
// verifier inlines it in place of the call.  native/libcheck.cc runs it beside
// the library itself.
#include <lttoolbox/input_file.h>
#include <lttoolbox/ustring.h>
#include <unicode/ustdio.h>
#include <cstdlib>

inline UString vc_InputFile__readBlock(InputFile& self, UChar32 start, UChar32 end) {
  UString ret;
  ret += start;
  UChar32 c = 0;
  while (c != end && !self.eof()) {
    c = self.get();
    if (c == '\0') break;
    ret += c;
    if (c == '\\') {
      c = self.get();
      ret += c;
      c = 0;
    }
  }
  return ret;
}

// after [[
inline UString vc_InputFile__finishWBlank(InputFile& self) {
  UString ret;
  ret += '[';
  ret += '[';
  while (!self.eof()) {
    UChar32 c = self.get();
    if (c == '\0') break;
    ret += c;
    if (c == '\\') {
      ret += self.get();
    } else if (c == ']') {
      if (self.peek() == ']') {
        ret += self.get();
        break;
      }
    }
  }
  return ret;
}

inline UString vc_InputFile__readBlank(InputFile& self, bool readwblank) {
  UString ret;
  while (!self.eof()) {
    UChar32 c = self.get();
    if (c == '^' || c == '\0' || c == U_EOF) {
      self.unget(c);
      break;
    }
    if (c == '[') {
      UChar32 d = self.get();
      if (d == '[') {
        if (readwblank) {
          ret += vc_InputFile__finishWBlank(self);
        } else {
          self.unget('[');
          self.unget('[');
          break;
        }
      } else {
        self.unget(d);
        ret += vc_InputFile__readBlock(self, '[', ']');
      }
    } else {
      ret += c;
      if (c == '\\') {
        if (self.eof() || self.peek() == '\0') exit(1);
        ret += self.get();
      }
    }
  }
  return ret;
}
