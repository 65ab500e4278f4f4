"""C++ type strings -> engine types -> SMT sorts."""
import re, z3

class Unsupported(Exception):
    """The construct is outside the verifier's reach (never a violation)."""

INT = {
    'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
    'short': (16, True), 'unsigned short': (16, False), 'int': (32, True),
    'unsigned int': (32, False), 'unsigned': (32, False), 'long': (64, True),
    'unsigned long': (64, False), 'long long': (64, True),
    'unsigned long long': (64, False), 'char16_t': (16, False),
    'char32_t': (32, False), 'wchar_t': (32, True), 'size_t': (64, False),
    'std::size_t': (64, False), 'int32_t': (32, True), 'uint32_t': (32, False),
    'uint8_t': (8, False), 'int8_t': (8, True), 'uint64_t': (64, False), 'int64_t': (64, True),
    'uint16_t': (16, False), 'int16_t': (16, True),
    'UChar': (16, False), 'UChar32': (32, True), 'UBool': (8, True),
    'std::basic_string<char16_t>::size_type': (64, False),
    'ptrdiff_t': (64, True), 'difference_type': (64, True), 'size_type': (64, False),
    'std::ptrdiff_t': (64, True),
}
SEQ1 = {'basic_string', 'vector', 'deque', 'list', 'basic_string_view', 'initializer_list',
        '__cxx11::basic_string', 'stack', 'queue', '__cxx11::list', 'span'}

def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

_cache = {}
ALIASES = {
    'xmlChar': 'unsigned char',
    'UString': 'std::basic_string<char16_t>', 'UStringView': 'std::basic_string_view<char16_t>',
    'std::string': 'std::basic_string<char>', 'string': 'std::basic_string<char>',
    'std::string_view': 'std::basic_string_view<char>', 'std::u32string': 'std::basic_string<char32_t>',
    'u32string': 'std::basic_string<char32_t>', 'u32': 'std::basic_string<char32_t>',
    'std::u16string': 'std::basic_string<char16_t>',
}

def parse(s):
    s = s.strip()
    if s in _cache: return _cache[s]
    r = _parse(s)
    _cache[s] = r
    return r

def _parse(s):
    s = s.strip()
    if s.endswith('&&'): return ('ref', parse(s[:-2]))
    if s.endswith('&'): return ('ref', parse(s[:-1]))
    while True:
        m = re.match(r'^(const|volatile|struct|class|enum|typename|mutable)\s+(.*)$', s)
        if m: s = m.group(2).strip(); continue
        m = re.match(r'^(.*\S)\s*\b(const|volatile|__restrict|restrict)$', s)
        if m: s = m.group(1).strip(); continue
        if s.endswith('*const'): s = s[:-5].strip(); continue
        break
    if s.endswith('*'): return ('ptr', parse(s[:-1]))
    if s.endswith('&'): return ('ref', parse(s[:-1]))
    if s.startswith('Apertium::') and '::' not in re.sub('<.*', '', s[10:]): s = s[10:]
    if s in ALIASES: return parse(ALIASES[s])
    if s in ('bool', '_Bool'): return ('bool',)
    if s == 'void': return ('void',)
    if s in INT: return ('int',) + INT[s]
    if s in ('double', 'float', 'long double'): return ('double',)
    m = re.match(r'^(.*)\[(\d*)\]$', s)
    if m: return ('seq', parse(m.group(1)))
    m = re.match(r'^(?:std::)?(?:__cxx11::)?([A-Za-z_0-9:]+)<(.*)>$', s)
    if m:
        name, args = m.group(1), split_args(m.group(2))
        if name.startswith('std::'): name = name[5:]
        if name in SEQ1: return ('seq', parse(args[0]))
        if name in ('map', 'unordered_map'): return ('map', parse(args[0]), parse(args[1]))
        if name in ('set', 'unordered_set'): return ('set', parse(args[0]))
        if name == 'pair': return ('pair', parse(args[0]), parse(args[1]))
        if name in ('unique_ptr', 'shared_ptr'): return ('ptr', parse(args[0]))
        if name in ('optional', 'Optional'): return ('opt', parse(args[0]))
        return ('cls', s)
    if 'iterator' in s or s == 'auto': return ('opaque', s)
    m = re.match(r'^std::(.*)$', s)
    if m and m.group(1) in INT: return ('int',) + INT[m.group(1)]
    return ('cls', s)

def node_type(n):
    t = n.get('type', {})
    return parse(t.get('desugaredQualType', t.get('qualType', 'void')))

def deref(t):
    return t[1] if t[0] == 'ref' else t

def int_range(t):
    if t[0] == 'bool': return 0, 1
    bits, signed = t[1], t[2]
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
