// Included before any source of /repo when it is compiled into a replay harness:
// exit() becomes an exception so that one process can run many inputs, and
// main() gets another name.  Nothing else of the source changes.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <climits>
#include <cctype>
#include <cwchar>
#include <iostream>
#include <fstream>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include <list>
#include <deque>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <regex>
#include <algorithm>
#include <functional>
#include <iterator>
#include <stdexcept>
#include <optional>
#include <variant>
#include <numeric>
#include <iomanip>
#include <locale>
#include <thread>
#include <limits>
#include <unistd.h>
#include <getopt.h>
#include <libgen.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <libxml/xmlreader.h>
#include <unicode/uchar.h>
#include <unicode/ustdio.h>
#include <unicode/ustring.h>
struct VcExit { int code; };
[[noreturn]] inline void vc_exit(int c) { throw VcExit{c}; }
namespace std { using ::vc_exit; }
[[noreturn]] inline void vc_really_exit(int c) { ::_exit(c); }
