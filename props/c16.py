from common import *
import engine as E
EX = 'apertium/apertium_extract_caps.cc'
STR = z3.SeqSort(z3.IntSort())
WITH, MERGE, GETCASE = z3.Function('with_case', STR, STR, STR, STR), z3.Function('merge_wblanks', STR, STR, STR), z3.Function('getcase', STR, STR)
n = z3.Length
def lemma_end(lu):
    """where the tags of the last part begin"""
    last = z3.Function('rfind', STR, STR, z3.IntSort())(lu, str_lit('>+'))
    last = z3.If(last < 0, 0, last)
    e = z3.IndexOf(lu, str_lit('<'), last)
    return z3.If(e < 0, n(lu), e)
def lemma_case(lu): return GETCASE(z3.SubSeq(lu, 0, lemma_end(lu)))
def with_case(wb, s, r): return MERGE(wb, z3.Concat(str_lit('[[c:'), GETCASE(s), str_lit('/'), lemma_case(r), str_lit(']]')))
def library(e):
    @model(e, 'getcase')
    def _(e, nd, args):
        e.trusted.add('StringUtils::getcase (lttoolbox)')
        return GETCASE(e.as_seq(e, e.rv(args[0])))
    @model(e, 'merge_wblanks')
    def _(e, nd, args):
        e.trusted.add('StringUtils::merge_wblanks (lttoolbox)')
        return MERGE(e.as_seq(e, e.rv(args[0])), e.as_seq(e, e.rv(args[1])))
def options(e, given):
    """lttoolbox's command line: these options, no files"""
    e.trusted.add('CLI (lttoolbox)')
    for m in ('add_file_arg', 'add_bool_arg', 'parse_args', 'add_str_arg'): e.methodmodels[('CLI', m)] = lambda e, nd, obj, args: None
    @model(e, 'openOutTextFile')
    def _(e, nd, args): return PtrV(e.st.ghost['out'])
    @model(e, 'lemma_case')
    def _(e, nd, args): return lemma_case(e.as_seq(e, e.rv(args[0])))
    e.methodmodels[('CLI', 'get_files')] = lambda e, nd, obj, args: seq_lit([str_lit('')] * 4, STR)
    op = e.models['$op']
    def index(e, nd, name, args):
        if name == 'operator[]' and any(x.get('kind') == 'MemberExpr' and x.get('name') == 'get_bools' for x in nodes(args[0])): return z3.BoolVal(given[next(E.decode_literal(x['value']) for x in nodes(args[1]) if x.get('kind') == 'StringLiteral')])
        return op(e, nd, name, args)
    e.models['$op'] = index
def blank_cands(e, st, mods, L):
    """what of the text read so far the output, the blank and the block in it hold"""
    C = []
    O = next((l[3] for l in L if l[0] == '$out.out'), None)
    S = next((l[3] for l in L if l[0] == 'S.ExtractSpec.out'), None)
    if O is None or S is None: return C
    rets = [l for l in L if l[1] == STR and not l[0].startswith('S.') and not l[0].startswith('$out') and l[4]]
    for i, a in enumerate(rets):
        C.append((('open1', i), lambda s, a=a[3]: z3.Concat(S(s), str_lit('[')) == z3.Concat(O(s), a(s))))
        for j, b in enumerate(rets):
            if i == j: continue
            C.append((('cat2', i, j), lambda s, a=a[3], b=b[3]: S(s) == z3.Concat(O(s), a(s), b(s))))
            C.append((('open2', i, j), lambda s, a=a[3], b=b[3]: z3.Concat(S(s), str_lit('[')) == z3.Concat(O(s), a(s), b(s))))
    for sp in e.specs:      # a form was read up to its end
        if sp.kind == 'stream' and sp.uses(st): C.append((('end',), lambda s, sp=sp: z3.Or([sp.pos(s) >= sp.N] + [sp.at(sp.pos(s)) == ord(c) for c in '/$\0'])))
    return C
def extract(e, s):
    e.user_cands.append(blank_cands)
    e.contracts['with_case'] = lambda e, nd, obj, args: with_case(*[e.as_seq(e, e.rv(a)) for a in args])
    library(e)
    options(e, {'surface': s, 'null-flush': True})
    program_proof(e, 'ExtractSpec', ['-s'] if s else [], {'keep': s}, flush=True)
LOWER, TITLE, UPPER = (z3.Function(k, STR, STR) for k in ('tolower', 'totitle', 'toupper'))
def cases(e):
    for nm, sp, F in (('tolower', 'lower_case', LOWER), ('totitle', 'title_case', TITLE), ('toupper', 'upper_case', UPPER)):
        def go(e, n, args, F=F): return F(e.as_seq(e, e.rv(args[0])))
        model(e, nm)(go)
        e.contracts[sp] = lambda e, nd, obj, args, F=F: F(e.as_seq(e, e.rv(args[0])))
        e.trusted.add('StringUtils::%s (lttoolbox)' % nm)
def output_all(e):
    """the words that are held are written, each with the case that weighs most, and are held no longer"""
    cases(e)
    e.frame_facts = True
    f = e.func('output_all', 'CapsRestorer')
    words = z3.Const('words', e.sort(next(t for k, t, _ in e.allfields('CapsRestorer') if k == 'words')))
    sp = SeqSpec(e, 'RestoreSpec', words, bits=None)
    def on_index(e, lv, seq, i):
        """the word at the place the code is at is still the one it was given"""
        if seq.sort() != words.sort() or e.nospec: return
        e.add(z3.Implies(z3.And(i >= 0, i < n(words), n(seq) == n(words), rest_from(seq, i) == rest_from(words, i)),
                         z3.And(seq[i] == words[i], rest_from(seq, i + 1) == rest_from(words, i + 1))))
        sp.unfold(e, i)
    sp.on_index = on_index
    out0 = z3.Const('out0', STR)
    def setup(e, ctx):
        _, out = stream_setup(e)
        ctx['out'] = out
        e.write(out, e.read(out).with_('out', out0))
        ctx['this'] = e.st.this = e.new_cell(this_object(e, 'CapsRestorer', f, {'words': words}), ('cls', 'CapsRestorer'), 'this')
        sp.start(e.construct(('cls', 'RestoreSpec'), [], None))
        return [PtrV(out)]
    def cands(e, st, mods, L):
        C = []
        W = sp.fn[('out',)]
        for z in [z for z in L if z[1] == z3.IntSort() and z[4] and not z[0].startswith('S.')]:
            for q in [q for q in L if q[0] == '$out.out']:
                C.append((('written', z[0]), lambda s, z=z[3], q=q[3]: q(s) == z3.Concat(out0, W(z(s)))))
            for q in [q for q in L if q[1] == words.sort() and q[4]]:
                C.append((('rest', z[0], q[0]), lambda s, z=z[3], q=q[3]: z3.And(n(q(s)) == n(words), rest_from(q(s), z(s)) == rest_from(words, z(s)))))
        return C
    e.user_cands.append(cands)
    def post(e, kind, v, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind != 'return': return
        e.check(e.read(ctx['out']).f['out'] == z3.Concat(out0, sp.leaf(e.st, ('out',), sp.N)), 'post:every-word-is-written-in-the-case-that-weighs-most')
        e.check(n(e.read(ctx['this']).f['words']) == 0, 'post:no-word-is-kept')
    e.verify(f, setup, post)
def lemma_case_unit(e):
    library(e)
    f = e.func('lemma_case')
    lu = z3.Const('lu', STR)
    def setup(e, ctx): return [lu]
    def post(e, kind, v, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind == 'return': e.check(e.as_seq(e, v) == lemma_case(lu), 'post:the-case-of-the-lemma')
    e.verify(f, setup, post)
def read_seg(e):
    """a form is read up to its end, and added to what the string held"""
    f = e.func('read_seg', 'CapsRestorer')
    sp = Spec(e, 'SegSpec', 'in')
    seg0 = z3.Const('seg0', STR)
    def setup(e, ctx):
        inl, out = stream_setup(e)
        sp.start(e.construct(('cls', 'SegSpec'), [], None))
        ctx['this'] = e.st.this = e.new_cell(this_object(e, 'CapsRestorer', f), ('cls', 'CapsRestorer'), 'this')
        ctx['seg'] = e.new_cell(seg0, ('seq', ('int', 16, False)), 'seg')
        return [inl, ctx['seg']]
    def cands(e, st, mods, L):
        C = []
        T = next((l[3] for l in L if l[0] == 'S.SegSpec.text'), None)
        Q = [l for l in L if l[1] == STR and not l[0].startswith('S.')]
        for a in Q if T is not None else []:
            C.append((('seg', a[0]), lambda s, a=a[3]: a(s) == z3.Concat(seg0, T(s))))
            for b in Q:
                if a is not b: C.append((('segs', a[0], b[0]), lambda s, a=a[3], b=b[3]: z3.Concat(a(s), b(s)) == z3.Concat(seg0, T(s))))
        return C
    e.user_cands.append(cands)
    def post(e, kind, v, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind != 'return': return
        pos = sp.pos(e.st)
        e.check(z3.Implies(pos < sp.N, e.read(ctx['seg']) == z3.Concat(seg0, sp.leaf(e.st, ('text',)))), 'post:the-form-is-what-was-read')
        m = sp.leaf(e.st, ('mode',))
        e.check(z3.Or(pos == sp.N, z3.And(m == I(0), z3.Or(sp.at(pos) == ord('/'), sp.at(pos) == ord('$')))), 'post:it-ends-before-the-first-delimiter')
    e.verify(f, setup, post)
RC = '/repo/apertium/caps_restorer.cc'
units = [Unit('extract-caps', ['/repo/' + EX, 'specs/caps_spec.h', 'specs/lt_reference.h'], extract, [dict(s=False), dict(s=True)]),
         Unit('lemma-case', ['/repo/' + EX, 'specs/caps_spec.h', 'specs/lt_reference.h'], lemma_case_unit, [{}]),
         Unit('output_all', ['specs/restore_spec.h', RC], output_all, [{}]),
         Unit('read_seg', ['specs/restore_spec.h', RC, 'specs/lt_reference.h'], read_seg, [{}])]
TOK = ['^a/b<n>$', '^A/b<n>/c<v>$', ' ', '[', ']', '[<b>]', '[[t:b:1]]', '[[', ']]', '\\', '\\^', '\\/', '\\$', '^', '$', '/', 'AB', '<n>', '>+', '+', 'a', '\u00e9', '\u00c9', '\U0001f600', '\0', '[[c:a/b; x]]', '[a\\]b]', 'X<n>+Y<v><sg>']
CC = ['apertium/apertium_compile_caps.cc', 'apertium/apertium_restore_caps.cc']
searches = [Search('extract-caps', 'c16.cc', '^/$[]\\A<', TOK, files=[EX], mains=[EX], share=0.5),
            Search('restore-caps', 'caps.cc', '', [], files=[], mains=CC, sources=['apertium/caps_compiler.cc', 'apertium/caps_restorer.cc'])]
