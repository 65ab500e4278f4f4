from common import *
F = ['apertium/wblank-detach.cc']
units = [Unit('wblank-detach', ['/repo/apertium/wblank-detach.cc', 'specs/detach_spec.h'], lambda e, z: program_proof(e, 'DetachSpec', ['-z'] if z else [], flush=True), [dict(z=False), dict(z=True)])]
TOK = ['^a<n>$', '^a/b<n>$', ' ', 'x', '\n', '[', ']', '[<b>]', '[[t:b:1]]', '[[t:b:1; u:x]]^a$', '[[a\\]b]]^c$', '\\', '\\^', '\\$', '\\[', '\\]', '^', '$', '[[/]]', '\u00e9', '\U0001f600', '\0', '^a\\$b$', '[a\\]b]']
searches = [Search('wblank-detach', 'c05.cc', '^$[]\\a', TOK, files=F, mains=F),
            Search('wblank-detach-program', 'c05_main.cc', '', TOK, files=F, share=0.3, binaries=[dict(src=F, macro='REAL')])]
