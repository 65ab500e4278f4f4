from common import *
def pf(e, opts):
    filter_proof(e, 'processStream', 'PostSpec', opts, lambda e, i, o, b: [i, o, b['flush']], {}, flush='flush')
units = [Unit('posttransfer', ['/repo/apertium/apertium_posttransfer.cc', 'specs/posttransfer_spec.h'], pf, all_opts(['flush']))]
searches = [
    Search('posttransfer', 'c01.cc', ' a\n\0', [' ', '  ', 'a', '\n', '\0', '[ ]', '^a<n>$', '\\ ', '\u00a0', '\t', '\U0001f600'], files=['apertium/apertium_posttransfer.cc']),
    Search('posttransfer-program', 'c01_main.cc', '', [' ', '  ', 'a', '\n', '[ ]', '^a<n>$', '\u00e9', '\0'], files=['apertium/apertium_posttransfer.cc'], share=0.4, binaries=[dict(src='apertium/apertium_posttransfer.cc', macro='REAL')]),
]
