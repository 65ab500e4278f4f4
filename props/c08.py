from common import *
from treemodel import STR
n = z3.Length
# What a stage feeds its matcher for a word.
def looks_back(sp, mode, chars, depth):
    """candidates: what stands before position i when the specification is in a mode there"""
    def extra(e, st, mods, L):
        C = []
        F = sp.fn[(mode,)]
        ty = [ty for path, _, ty in sp.info if path == (mode,)][0]
        Z = [l for l in L if l[1] == z3.IntSort() and l[4] and l[2] and l[2][0] == 'int' and not l[0].startswith('S.')]
        for z in Z:
            for k, v in e.enums[ty[1]]:
                for n in range(1, depth + 1):
                    C.append((('mz', z[0], k, n), lambda s, z=z[3], v=v, n=n: z3.Implies(F(z(s)) == v, z(s) >= n)))
                for ch in chars:
                    C.append((('m@', z[0], k, ch), lambda s, z=z[3], v=v, ch=ch: z3.Implies(F(z(s)) == v, sp.seq[z(s)] == ord(ch))))
                    at = lambda s, z, d: sp.seq[z(s) - d]
                    for d in (1, 2): C.append((('mw', z[0], k, ch, d), lambda s, z=z[3], v=v, ch=ch, d=d: z3.Implies(F(z(s)) == v, sp.seq[z(s) - d] == ord(ch))))
                    C.append((('mww', z[0], k, ch), lambda s, z=z[3], v=v, ch=ch: z3.Implies(F(z(s)) == v, z3.Not(z3.And(sp.seq[z(s) - 1] == ord(ch), sp.seq[z(s) - 2] == ord(ch))))))
        return C
    return extra

def steps(e, cls, spec, tags=None):
    f = e.func('applyWord', cls)
    w = z3.Const('word', STR)
    sp = SeqSpec(e, spec, w, lookback=False, split=True)
    if spec == 'TransferSteps': sp.extra.append(looks_back(sp, 'mode', '[]', 4))
    sym = z3.Function('symbol_of', STR, z3.IntSort())
    @model(e, 'symbol_of')
    def _(e, n, args): return sym(e.rv(args[0]))
    def alpha(e, n, obj, args):
        e.trusted.add('Alphabet::operator() (lttoolbox): the symbol of a tag, 0 if there is none')
        return sym(e.rv(args[0]))
    e.methodmodels[('Alphabet', 'operator()')] = alpha
    @meth(e, 'MatchState', 'step')
    def _(e, n, obj, args):
        lv = e.st.ghost['steps']
        a = [e.rv(x) for x in args]
        e.write(lv, cat(e.read(lv), seq_lit([a[0], a[1] if len(a) > 1 else I(-1)])))
    def setup(e, ctx):
        this = ctx['this'] = e.new_cell(this_object(e, cls, f), ('cls', cls), 'this')
        r = e.read(this)
        g = e.st.ghost['steps'] = e.new_cell(seq_lit([]), ('seq', ('int', 32, True)), 'steps')
        s = e.construct(('cls', spec), [], None)
        s = s.with_('any_char', r.f['any_char']).with_('steps', seq_lit([ord('^'), -1]))
        if 'any_tag' in r.f: s = s.with_('any_tag', r.f['any_tag'])
        if tags is not None: s = s.with_('tags', z3.BoolVal(tags))
        sp.start(s)
        return [w]
    def post(e, kind, v, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind != 'return': return
        e.check(e.read(e.st.ghost['steps']) == cat(sp.leaf(e.st, ('steps',), sp.N), seq_lit([ord('$'), -1])), 'post:matcher-is-fed-the-letters-and-tags-of-the-word')
    e.verify(f, setup, post)

H = 'specs/words_spec.h'
units = [
    Unit('Transfer::applyWord', ['/repo/apertium/transfer.cc', H], lambda e: steps(e, 'Transfer', 'TransferSteps')),
    Unit('Interchunk::applyWord', ['/repo/apertium/interchunk.cc', H], lambda e: steps(e, 'Interchunk', 'ChunkSteps', True)),
    Unit('Postchunk::applyWord', ['/repo/apertium/postchunk.cc', H], lambda e: steps(e, 'Postchunk', 'ChunkSteps', False)),
]
PC = '/repo/apertium/postchunk.cc'
CH = 'specs/chunk_spec.h'
def scan(e, how, spec, leaf, want, tags=None):
    """what is taken from the head of a chunk"""
    f = e.func(how, 'Postchunk')
    w = z3.Const('chunk', STR)
    sp = SeqSpec(e, spec, w, lookback=False, split=True)
    def setup(e, ctx):
        ctx['this'] = e.st.this = e.new_cell(this_object(e, 'Postchunk', f), ('cls', 'Postchunk'), 'this')
        s = e.construct(('cls', spec), [], None)
        if tags is not None: s = s.with_('tags', z3.BoolVal(tags))
        sp.start(s)
        return [w]
    def cands(e, st, mods, L):
        C = []
        for l in L:
            if l[1] == z3.IntSort() and l[4] and not l[0].startswith('S.'):
                if spec == 'TagsSpec': C += [(('at!', l[0]), lambda s, z=l[3]: w[z(s)] != ord('>')), (('at<', l[0]), lambda s, z=l[3]: w[z(s)] == ord('<')), (('in', l[0]), lambda s, z=l[3]: z3.And(z(s) >= 0, z(s) < n(w)))]
                if spec == 'HeadSpec': C.append((('pre', l[0]), lambda s, z=l[3]: z3.SubSeq(w, 0, z(s)) == sp.fn[('name',)](z(s))))
        return C
    e.user_cands.append(cands)
    def post(e, kind, v, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind != 'return': return
        e.check(e.as_seq(e, v) == sp.leaf(e.st, (leaf,), sp.N), 'post:%s' % want)
    e.verify(f, setup, post)
def begin(e):
    """where the body begins, for a chunk that has one"""
    f = e.func('beginChunk', 'Postchunk')
    w = z3.Const('chunk', STR)
    sp = SeqSpec(e, 'BodySpec', w, lookback=False, split=True)
    M = dict(e.enums[[ty for path, _, ty in sp.info if path == ('mode',)][0][1]])
    rest, init = [(p, ty) for p, _, ty in sp.info if p != ('mode',)], {}
    def untouched(z): return [sp.fn[p](z) == e.pack(init['rec'].f[p[0]], ty) for p, ty in rest]
    def setup(e, ctx):
        ctx['this'] = e.st.this = e.new_cell(this_object(e, 'Postchunk', f), ('cls', 'Postchunk'), 'this')
        init['rec'] = e.construct(('cls', 'BodySpec'), [], None)
        sp.start(init['rec'])
        e.add(z3.And(n(w) >= 1, w[n(w) - 1] == ord('}'), sp.fn[('mode',)](n(w) - 1) == M['TEXT']))     # a chunk ends with its body
        return [w]
    def cands(e, st, mods, L):
        C = []
        for l in L:
            if l[1] == z3.IntSort() and l[4] and not l[0].startswith('S.'):
                C.append((('in', l[0]), lambda s, z=l[3]: z3.And(z(s) >= 0, z(s) < n(w))))
                C.append((('init', l[0]), lambda s, z=l[3]: z3.And(untouched(z(s)))))
        return C
    e.user_cands.append(cands)
    def post(e, kind, v, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind != 'return': return
        b = e.as_int(v)
        e.check(z3.And([b >= 1, b <= n(w) - 1, sp.fn[('mode',)](b) == M['TEXT']] + untouched(b)), 'post:where-the-body-begins')
    e.verify(f, setup, post)
units += [Unit('Postchunk::beginChunk', [PC, CH], begin)]
units += [Unit('Postchunk::pseudolemma', [PC, CH], lambda e: scan(e, 'pseudolemma', 'HeadSpec', 'name', 'the-name', False)),
          Unit('Postchunk::wordzero', [PC, CH], lambda e: scan(e, 'wordzero', 'HeadSpec', 'name', 'name-and-tags', True)),
          Unit('Postchunk::getVecTags', [PC, CH], lambda e: scan(e, 'getVecTags', 'TagsSpec', 'tags', 'the-tags-of-the-head'))]
searches = [Search('stream', 'stream.cc', '', [], sources=['apertium/%s.cc' % f for f in LIBF])]
