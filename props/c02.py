from common import *
def pf(e, opts):
    filter_proof(e, 'processStream', 'PreSpec', opts, lambda e, i, o, b: [i, o, b['flush'], b['surface'], b['compound']],
                 {'surface': 'surface', 'compound': 'compound'}, flush='flush')
F = ['apertium/pretransfer.cc']
units = [Unit('pretransfer', ['/repo/apertium/pretransfer.cc', 'specs/pretransfer_spec.h'], pf, all_opts(['flush', 'surface', 'compound']))]
TOK = ['^a<n>$', '^a/b<n>$', '^a<n>+b<v># c$', '^take# out<vb>$', '[[t:b:1]]', '[[x]y]]^a<n>+b<m>$', '[ ]', '[a\\]b]', '\\^', '\\$', '\\+', '\\#', '\\<', '\\', '~', '+', '#', '<', '>', '<n>', '^', '$', '[', ']', '[[', ']]', '/', ' ', 'a', '\0', '\U0001f600', '\u00e9', '^x/y/z<a>$', '^a<n>~b<n>$', '^a# b<n>+c<d>$', '{', '}', '*', '@']
searches = [
    Search('pretransfer', 'c02.cc', '^$[]<+#\\', TOK, files=F),
    Search('pretransfer-program', 'c02_main.cc', '', TOK, files=F, share=0.4, binaries=[dict(src=['apertium/pretransfer.cc', 'apertium/apertium_pretransfer.cc'], macro='REAL')]),
]
