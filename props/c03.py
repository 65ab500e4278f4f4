from common import *
def pf(e, n, b):
    program_proof(e, 'CleanSpec', (['-n'] if n else []) + (['-b'] if b else []), {'lines': n, 'keep': b})
units = [Unit('cleanstream', ['/repo/apertium/apertium_cleanstream.cc', 'specs/cleanstream_spec.h', 'specs/lt_reference.h'], pf,
              [dict(n=n, b=b) for n in (False, True) for b in (False, True)])]
F = ['apertium/apertium_cleanstream.cc']
TOK = ['^a<n>$', '^a/b<n>$', ' ', 'x', '\n', '[', ']', '[<b>]', '[[t:b:1]]', '\\', '\\^', '\\$', '\\[', '\\]', '^', '$', '^$', 'a', '\u00e9', '\U0001f600', '\0', '^a\\$b$', '[a\\]b]']
searches = [Search('cleanstream', 'c03.cc', '^$[]\\a', TOK, files=F, mains=F),
            Search('cleanstream-program', 'c03_main.cc', '', TOK, files=F, share=0.3, binaries=[dict(src=F, macro='REAL')])]
