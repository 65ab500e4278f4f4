from common import *
import re
# ---------------------------------------------------------------- reading
def morpheme(e):
    """Morpheme::read: the morpheme's lemma (with its queue) and tags, up to what follows it"""
    f = e.func('read', 'Morpheme')
    sp = Spec(e, 'MorphSpec', 'in')
    ask = lambda n, v=(), pos=None: e.ask_spec(sp, n, v, pos=pos)
    def setup(e, ctx):
        inl, out = stream_setup(e)
        this = ctx['this'] = e.new_cell(e.default(('cls', 'Morpheme')), ('cls', 'Morpheme'), 'this')
        sp.start(e.construct(('cls', 'MorphSpec'), [], None))
        return [inl]
    def cands(e, st, mods, L):
        # the tag being read, with its brackets
        C = []
        tag = lambda s: sp.leaf(s, ('tag',))
        for z in L:
            if z[2] == ('int', 32, True):
                for cs in ('$/', '$/+'):
                    C.append((('stop' + cs, z[0]), lambda s, g=z[3], cs=cs: z3.Or([g(s) == 0] + [g(s) == ord(x) for x in cs])))
                for q in L:
                    if q[1] == z3.SeqSort(z3.IntSort()) and not q[0].startswith('S.'):
                        C.append((('lemma+', q[0], z[0]), lambda s, g=q[3], c=z[3]: sp.leaf(s, ('lemma',)) == z3.Concat(g(s), z3.Unit(c(s)))))
        for q in L:
            if q[1] == z3.SeqSort(z3.SeqSort(z3.IntSort())) and not q[0].startswith('S.'):
                C.append((('tags+', q[0]), lambda s, g=q[3]: sp.leaf(s, ('tags',)) == z3.Concat(g(s), z3.Unit(tag(s)))))
        for q in L:
            if q[4] and q[1] == z3.SeqSort(z3.IntSort()) and not q[0].startswith('S.'):
                C.append((('tag', q[0]), lambda s, g=q[3]: g(s) == cat(str_lit('<'), tag(s))))
                C.append((('tag>', q[0]), lambda s, g=q[3]: g(s) == cat(str_lit('<'), tag(s), str_lit('>'))))
        return C
    e.user_cands.append(cands)
    def post(e, kind, v, ctx):
        pos, n = sp.pos(e.st), sp.N
        nxt = sp.at(pos)
        if kind == 'return':
            m = e.read(ctx['this'])
            if not e.choose(pos < n): return                  # the caller rejects a text that ends here
            sp.unfold(e, pos)
            e.check(ask('stops', [nxt]), 'post:stops-at-the-end-of-the-morpheme')
            e.check(m.f['TheLemma'] == sp.leaf(e.st, ('lemma',)), 'post:lemma-and-queue')
            e.check(m.f['TheTags'] == sp.leaf(e.st, ('tags',)), 'post:tags')
        else:
            e.check(z3.BoolVal(kind == 'throw'), 'post:no-exit')
            e.check(z3.Or(ask('bad'), z3.And(pos == n, ask('inside')), z3.And(pos < n, ask('refuses', [nxt]))), 'post:only-malformed-morphemes-are-rejected')
    e.verify(f, setup, post)

class Reader:
    """the contracts of Morpheme::read and Analysis::read, at each position of the input:
    M what is read there, ME where it ends, MOK whether it is well-formed;
    A, AE, AOK: the same of the analysis (morphemes joined by +); U, UOK: the analyses of a unit (joined by /, up to $)"""
    def __init__(s, e):
        s.e = e
        Z, B = z3.IntSort(), z3.BoolSort()
        F = lambda n, t: z3.Function(n, Z, t)
        s.m, s.a = e.sort(('cls', 'Morpheme')), e.sort(('cls', 'Analysis'))
        s.M, s.ME, s.MOK = F('M', s.m), F('ME', Z), F('MOK', B)
        s.A, s.AE, s.AOK = F('A', z3.SeqSort(s.m)), F('AE', Z), F('AOK', B)
        s.U, s.UE, s.UOK = F('U', z3.SeqSort(s.a)), F('UE', Z), F('UOK', B)
        s.N, s.at = z3.Int('N_in'), z3.Function('IN_in', Z, Z)
    def pos(s): return s.e.read(s.e.st.ghost['in:in']).f['$pos']
    def analysis_at(s, p):
        plus = z3.And(s.ME(p) < s.N, s.at(s.ME(p)) == ord('+'))
        q = s.ME(p) + 1
        s.e.add(s.A(p) == z3.If(plus, z3.Concat(z3.Unit(s.M(p)), s.A(q)), z3.Unit(s.M(p))))
        s.e.add(s.AE(p) == z3.If(plus, s.AE(q), s.ME(p)))
        s.e.add(s.AOK(p) == z3.And(s.MOK(p), s.ME(p) < s.N, s.at(s.ME(p)) != 0, z3.Implies(plus, s.AOK(q))))
    def unit_at(s, p):
        more = s.at(s.AE(p)) == ord('/')
        q = s.AE(p) + 1
        a = s.a.mk(s.A(p))
        s.e.add(s.U(p) == z3.If(more, z3.Concat(z3.Unit(a), s.U(q)), z3.Unit(a)))
        s.e.add(s.UE(p) == z3.If(more, s.UE(q), s.AE(p)))
        s.e.add(s.UOK(p) == z3.And(s.AOK(p), z3.If(more, s.UOK(q), s.at(s.AE(p)) == ord('$'))))
    def moved(s, p, end):
        e = s.e
        inl = e.st.ghost['in:in']
        e.add(z3.And(end > p, end <= s.N))
        r = e.read(inl)
        e.write(inl, r.with_('$pos', end).with_('$eof', z3.Or(r.f['$eof'], end == s.N) if True else FALSE))

def jump(e, sp, p, end):
    """after its first character the specification stays as it is while the analyses are read"""

def analysis(e):
    """Analysis::read, over the contract of Morpheme::read"""
    f = e.func('read', 'Analysis')
    def setup(e, ctx):
        R = ctx['R'] = e.reader = Reader(e)
        inl, out = stream_setup(e)
        p = ctx['p'] = z3.Int('p0')
        e.add(z3.And(p >= 0, p <= R.N))
        e.write(inl, e.read(inl).with_('$pos', p))
        ctx['this'] = e.new_cell(e.default(('cls', 'Analysis')), ('cls', 'Analysis'), 'this')
        def read(e, n, obj, args):
            e.trusted.discard('')
            p = simp(R.pos())
            m = e.read(obj)
            e.check(z3.And(z3.Length(m.f['TheLemma']) == 0, z3.Length(m.f['TheTags']) == 0), 'pre:Morpheme::read-into-an-empty-morpheme')
            R.analysis_at(p)
            if not e.choose(R.MOK(p)): raise ThrowEx('Morpheme::read')
            e.write(obj, e.unpack(R.M(p), ('cls', 'Morpheme')))
            R.moved(p, R.ME(p))
        e.contracts['Morpheme::read'] = read
        return [inl]
    def cands(e, st, mods, L):
        R, C = e.reader, []
        inl = st.ghost.get('in:in')
        if not inl: return C
        pos = lambda s: e.leaf_at(s.cells[inl.cell], ('$pos',))
        p0 = z3.Int('p0')
        Z = [z for z in L if z[2] == ('int', 32, True)]
        for ex, cond in [('', None)] + [(z[0], z[3]) for z in Z]:
            on = (lambda s, x: x) if cond is None else (lambda s, x, c=cond: z3.Implies(c(s) == ord('+'), x))
            off = (lambda s, x: x) if cond is None else (lambda s, x, c=cond: z3.Implies(c(s) != ord('+'), x))
            for q in L:
                if q[1] != z3.SeqSort(R.m): continue
                C.append((('An', q[0], ex), lambda s, g=q[3], on=on: on(s, z3.Concat(g(s), R.A(pos(s))) == R.A(p0))))
                C.append((('An.', q[0], ex), lambda s, g=q[3], off=off: off(s, g(s) == R.A(p0))))
            C.append((('AE', ex), lambda s, on=on: on(s, R.AE(pos(s)) == R.AE(p0))))
            C.append((('AOK', ex), lambda s, on=on: on(s, R.AOK(pos(s)) == R.AOK(p0))))
            for d in (0, 1): C.append((('AE.', ex, d), lambda s, off=off, d=d: off(s, R.AE(p0) == pos(s) - d)))
            if cond is not None:
                C.append((('AOK.', ex), lambda s, off=off, c=cond: off(s, R.AOK(p0) == z3.And(c(s) != 0, c(s) != 65535))))
                C.append((('last', ex), lambda s, c=cond: z3.And(pos(s) > 0, c(s) == R.at(pos(s) - 1))))
                C.append((('end', ex), lambda s, c=cond: c(s) == 65535))
                C.append((('end.', ex), lambda s, c=cond: c(s) != 65535))
        C.append((('eof',), lambda s: pos(s) == R.N))
        return C
    e.user_cands.append(cands)
    def post(e, kind, v, ctx):
        R, p = ctx['R'], ctx['p']
        if kind == 'return':
            e.check(R.AOK(p), 'post:only-well-formed-analyses-are-accepted')
            e.check(e.read(ctx['this']).f['TheMorphemes'] == R.A(p), 'post:the-morphemes-in-order')
            e.check(R.pos() == R.AE(p), 'post:stops-at-the-end-of-the-analysis')
        else:
            e.check(z3.BoolVal(kind == 'throw'), 'post:no-exit')
            e.check(z3.Not(R.AOK(p)), 'post:only-malformed-analyses-are-rejected')
    e.verify(f, setup, post)

STR_T = ('seq', ('int', 32, True))
OPEN = ('OPEN', 'SB', 'SB_ESC', 'WB', 'WB_ESC', 'WB_CLOSE', 'TEXT_ESC')
def read_blank(e, sp, ask):
    def contract(e, n, obj, args):
        inl = e.st.ghost['in:in']
        q, eof = e.fresh(('int', 32, True), 'q'), e.fresh(('bool',), 'eof')
        e.add(z3.And(q >= 0, q <= sp.N, z3.Implies(eof, q == sp.N)))
        e.write(inl, e.read(inl).with_('$pos', q).with_('$eof', eof))
        r = sp.rec(q)
        enums = dict(e.enums[[ty for path, _, ty in sp.info if path == ('mode',)][0][1]])
        if e.choose(e.fresh(('bool',), 'text')):
            r = r.with_('mode', I(enums['TEXT'])).with_('start', q).with_('surface', seq_lit([]))
            sp.assume_equal(q, r)
            e.st.specval[(sp.name, q.sexpr())] = r
            e.add(z3.And(z3.Or(q == sp.N, sp.at(q) == ord('^'), sp.at(q) == 0), z3.Implies(q == sp.N, eof)))
            return r.f['blank']
        if e.choose(e.fresh(('bool',), 'dangling')):
            e.add(r.f['mode'] == enums['TEXT_ESC'])
            raise ExitEx(I(1))
        e.add(z3.And(q == sp.N, eof, z3.Or([r.f['mode'] == enums[k] for k in OPEN])))
        return e.fresh(STR_T, 'blank')
    e.contracts['InputFile::readBlank'] = contract

def unit(e):
    """Stream::get: the text before a unit, the unit, and whether a NUL follows; over the contract of Analysis::read"""
    f = e.func('get', 'Stream')
    sp = Spec(e, 'UnitText', 'in')
    ask = lambda n, v=(), pos=None: e.ask_spec(sp, n, v, pos=pos)
    def setup(e, ctx):
        R = ctx['R'] = e.reader = Reader(e)
        inl, out = stream_setup(e)
        this = ctx['this'] = e.new_cell(this_object(e, 'Stream', f, {'TheCharacterStream': e.read(inl)}), ('cls', 'Stream'), 'this')
        e.st.ghost['in:in'] = this.sub(('f', 'TheCharacterStream'))
        sp.start(e.construct(('cls', 'UnitText'), [], None))
        def read(e, n, obj, args):
            p = simp(R.pos())
            e.check(z3.Length(e.read(obj).f['TheMorphemes']) == 0, 'pre:Analysis::read-into-an-empty-analysis')
            e.check(z3.Or(ask('first'), ask('analyses')), 'post:analyses-are-read-where-they-are')
            R.unit_at(p)
            if not e.choose(R.AOK(p)): raise ThrowEx('Analysis::read')
            e.write(obj, e.unpack(R.a.mk(R.A(p)), ('cls', 'Analysis')))
            e.add(z3.And(R.at(R.AE(p)) != 0, R.AE(p) < R.N, R.AE(p) > p))
            if e.choose(ask('first')):
                sp.unfold(e, p)
                q = simp(p + 1)
                e.check(ask('analyses', pos=q), 'post:the-analyses-of-a-known-word-are-read')
            else: q = p
            # from here on the specification does not change (ANALYSES)
            R.moved(p, R.AE(p))
            r = sp.cur(e.st, q)
            sp.assume_equal(simp(R.AE(p)), r)
            e.st.specval[(sp.name, simp(R.AE(p)).sexpr())] = r
        e.contracts['Analysis::read'] = read
        read_blank(e, sp, ask)
        return []
    def cands(e, st, mods, L):
        R, C = e.reader, []
        pos = lambda s: sp.pos(s)
        start = lambda s: sp.leaf(s, ('start',))
        Z = [z for z in L if z[2] == ('int', 32, True) and z[4]]
        for ex, cond in [('', None)] + [(z[0], z[3]) for z in Z]:
            on = (lambda s, x: x) if cond is None else (lambda s, x, c=cond: z3.Implies(c(s) == ord('/'), x))
            off = (lambda s, x: x) if cond is None else (lambda s, x, c=cond: z3.Implies(c(s) != ord('/'), x))
            for q in L:
                if q[1] != z3.SeqSort(R.a): continue
                C.append((('Un', q[0], ex), lambda s, g=q[3], on=on: on(s, z3.Concat(g(s), R.U(pos(s))) == R.U(start(s)))))
                C.append((('Un.', q[0], ex), lambda s, g=q[3], off=off: off(s, g(s) == R.U(start(s)))))
            C.append((('UE', ex), lambda s, on=on: on(s, R.UE(pos(s)) == R.UE(start(s)))))
            C.append((('UOK', ex), lambda s, on=on: on(s, R.UOK(pos(s)) == R.UOK(start(s)))))
            C.append((('UE.', ex), lambda s, off=off: off(s, R.UE(start(s)) == pos(s) - 1)))
            if cond is not None: C.append((('UOK.', ex), lambda s, off=off, c=cond: off(s, R.UOK(start(s)) == (c(s) == ord('$')))))
        surf = lambda s: sp.leaf(s, ('surface',))
        for z in L:
            if z[2] == ('int', 32, True):
                for q in L:
                    if q[1] == z3.SeqSort(z3.IntSort()) and not q[0].startswith('S.'):
                        C.append((('surface+', q[0], z[0]), lambda s, g=q[3], c=z[3]: surf(s) == z3.Concat(g(s), z3.Unit(c(s)))))
        return C
    e.user_cands.append(cands)
    def post(e, kind, v, ctx):
        R, pos, n = ctx['R'], simp(sp.pos(e.st)), sp.N
        if kind == 'return':
            flushed = e.choose(e.read(ctx['this']).f['private_flush_'])
            q = simp(pos - 1) if flushed else pos
            if flushed: e.check(sp.at(q) == 0, 'post:flush-means-a-NUL-was-read')
            else: e.check(z3.Or(pos == n, sp.at(pos) != 0), 'post:a-NUL-after-the-unit-is-read')
            if not e.choose(ask('blank_ended', pos=q)): return        # the text ends inside brackets
            if e.choose(ask('unended', pos=q)): return
            r = e.unpack(v, ('cls', 'StreamedType')) if z3.is_expr(v) else v
            e.check(r.f['TheString'] == sp.leaf(e.st, ('blank',), q), 'post:the-text-before-the-unit')
            u = r.f['TheLexicalUnit']
            if not e.choose(u.f['has']):
                e.check(ask('text', pos=q), 'post:a-unit-is-not-skipped')
                e.check(z3.Or(q == n, z3.BoolVal(flushed)), 'post:text-is-read-up-to-a-unit-or-NUL')
                return
            w = u.f['val']
            e.check(w.f['TheSurfaceForm'] == sp.leaf(e.st, ('surface',), q), 'post:the-surface-form')
            if e.choose(ask('unknown', pos=q)):
                e.check(z3.Length(w.f['TheAnalyses']) == 0, 'post:an-unknown-word-has-no-analyses')
            else:
                e.check(ask('analyses', pos=q), 'post:a-whole-unit-is-read')
                s = sp.leaf(e.st, ('start',), q)
                e.check(R.UOK(s), 'post:only-well-formed-units-are-accepted')
                e.check(w.f['TheAnalyses'] == R.U(s), 'post:the-analyses-in-order')
                e.check(q == R.UE(s) + 1, 'post:reading-stops-after-the-unit')
        elif kind == 'exit':
            e.check(ask('dangling'), 'post:only-a-dangling-backslash-ends-the-program')
        else:
            e.check(z3.Or(ask('bad'), z3.And(pos == n, ask('rejected')),
                          z3.And(z3.Or(ask('first'), ask('analyses')), z3.Not(R.UOK(sp.leaf(e.st, ('start',)))))), 'post:only-malformed-units-are-rejected')
    e.verify(f, setup, post)

# ---------------------------------------------------------------- writing
STR = z3.SeqSort(z3.IntSort())
class Texts:
    """the texts of morphemes and analyses, as functions of their values"""
    def __init__(s, e):
        s.e = e
        s.morpheme = z3.Function('morpheme_text', e.sort(('cls', 'Morpheme')), STR)
        s.analysis = z3.Function('analysis_text', e.sort(('cls', 'Analysis')), STR)
        for nm, f, c in (('morpheme_text', s.morpheme, 'Morpheme'), ('analysis_text', s.analysis, 'Analysis')):
            model(e, nm)(lambda e, n, args, f=f, c=c: f(e.pack(e.rv(args[0]), ('cls', c))))
            for op in ('operator basic_string', 'operator UString', 'operator std::basic_string<char16_t>'):
                e.contracts['%s::%s' % (c, op)] = lambda e, n, obj, args, f=f, c=c: f(e.pack(e.read(obj), ('cls', c)))

def conversion(e, cls):
    c = [g for fs in e.byname.values() for g in fs if g.get('name', '').startswith('operator') and 'basic_string' in g.get('name', '') + g.get('type', {}).get('qualType', '') and e.cls_of(g) == cls and e.has_body(g) and g.get('kind') == 'CXXConversionDecl']
    return c[0]

def morpheme_text(e):
    """Morpheme::operator UString: the lemma with its queue, then the tags"""
    f = conversion(e, 'Morpheme')
    tags = z3.Const('tags', e.sort(('seq', ('seq', ('int', 16, False)))))
    sp = SeqSpec(e, 'MorphemeText', tags, bits=None)
    def setup(e, ctx):
        m = e.fresh(('cls', 'Morpheme'), 'm').with_('TheTags', tags)
        ctx['m'] = m
        ctx['this'] = e.new_cell(m, ('cls', 'Morpheme'), 'this')
        sp.start(e.construct(('cls', 'MorphemeText'), [], None).with_('out', m.f['TheLemma']))
        return []
    def post(e, kind, v, ctx):
        m = ctx['m']
        ok = z3.And(z3.Length(tags) > 0, z3.Length(m.f['TheLemma']) > 0)
        if kind == 'return': e.check(v == sp.leaf(e.st, ('out',), sp.N), 'post:lemma-then-tags')
        else: e.check(z3.And(z3.BoolVal(kind == 'throw'), z3.Not(ok)), 'post:every-well-formed-morpheme-has-a-text')
    e.verify(f, setup, post)

def analysis_text(e):
    """Analysis::operator UString, over the contract of Morpheme::operator UString"""
    f = conversion(e, 'Analysis')
    T = Texts(e)
    ms = z3.Const('morphemes', z3.SeqSort(e.sort(('cls', 'Morpheme'))))
    sp = SeqSpec(e, 'AnalysisText', ms, bits=None)
    def setup(e, ctx):
        ctx['this'] = e.new_cell(Rec('Analysis', {'TheMorphemes': ms}), ('cls', 'Analysis'), 'this')
        sp.start(e.construct(('cls', 'AnalysisText'), [], None))
        return []
    def post(e, kind, v, ctx):
        if kind == 'return': e.check(v == sp.leaf(e.st, ('out',), sp.N), 'post:morphemes-joined-by-plus')
        else: e.check(z3.And(z3.BoolVal(kind == 'throw'), z3.Length(ms) == 0), 'post:every-well-formed-analysis-has-a-text')
    e.verify(f, setup, post)

def out_unit(e, mark, sup, first, has):
    """Stream::outputLexicalUnit, over the texts of the analyses"""
    f = e.func('outputLexicalUnit', 'Stream')
    T = Texts(e)
    tla = e.sort(('cls', 'Analysis'))
    an = z3.Const('analyses', z3.SeqSort(tla))
    sp = SeqSpec(e, 'OtherAnalyses', an, bits=None)
    def setup(e, ctx):
        inl, out = stream_setup(e)
        ctx['out'] = out
        u = Rec('LexicalUnit', {'TheSurfaceForm': z3.Const('surface', STR), 'TheAnalyses': an})
        if has: e.add(z3.Length(an) > 0)                      # the chosen analysis is one of the unit's
        ctx['u'], ctx['has'], ctx['a'] = u, z3.BoolVal(has), e.fresh(('cls', 'Analysis'), 'a')
        r = e.construct(('cls', 'OtherAnalyses'), [], None).with_('chosen', ctx['a'])
        L = str_lit
        ctx['before'] = cat(L('^'), z3.If(z3.And(z3.BoolVal(mark), z3.Length(an) != 1), L('='), seq_lit([])), cat(u.f['TheSurfaceForm'], L('/')) if sup else seq_lit([]),
                            T.analysis(e.pack(ctx['a'], ('cls', 'Analysis'))))
        sp.start(r.with_('out', ctx['before']))
        fl = e.new_cell(Rec('TaggerFlags', {n: z3.BoolVal({'Mark': mark, 'ShowSuperficial': sup, 'First': first}.get(n, False)) for n, t, _ in e.allfields('TaggerFlags')}), ('cls', 'TaggerFlags'), 'flags')
        return [e.new_cell(u, ('cls', 'LexicalUnit'), 'unit'), Rec('opt', {'has': ctx['has'], 'val': ctx['a']}), out, fl]
    def post(e, kind, v, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind != 'return': return
        u, L = ctx['u'], str_lit
        s = u.f['TheSurfaceForm']
        pre = cat(s, L('/')) if sup else seq_lit([])
        w = cat(sp.leaf(e.st, ('out',), sp.N) if first else ctx['before'], L('$')) if has else cat(L('^'), pre, L('*'), s, L('$'))
        e.check(e.read(ctx['out']).f['out'] == w, 'post:the-unit-with-the-chosen-analysis')
    e.verify(f, setup, post)

def choose(e):
    """UnigramTagger::tag(unit): the first of the analyses with the highest score"""
    f = [g for g in e.byname['tag'] if e.cls_of(g) == 'UnigramTagger' and e.has_body(g) and 'LexicalUnit' in g['type']['qualType']][0]
    srt = e.sort(('cls', 'Analysis'))
    an = z3.Const('analyses', z3.SeqSort(srt))
    sc = z3.Function('score', srt, z3.RealSort())
    model(e, 'score_of')(lambda e, n, args: sc(e.pack(e.rv(args[0]), ('cls', 'Analysis'))))
    e.contracts['UnigramTagger::score'] = lambda e, n, obj, args: sc(e.pack(e.rv(args[0]), ('cls', 'Analysis')))
    sp = SeqSpec(e, 'BestAnalysis', an, bits=None)
    def written(e, n, obj, args):
        u, a = e.rv(args[0]), e.rv(args[1])
        c = e.st.ghost['ctx']
        e.check(e.eqv(u, e.read(c['u'])), 'post:the-unit-itself-is-written')
        e.check(a.f['has'] == (z3.Length(an) > 0), 'post:an-analysis-is-chosen-if-there-is-one')
        e.check(z3.Implies(a.f['has'], e.pack(a.f['val'], ('cls', 'Analysis')) == e.pack(sp.leafrec('best'), ('cls', 'Analysis'))), 'post:the-first-of-the-best-is-chosen')
        e.write(c['n'], e.read(c['n']) + 1)
        e.check(z3.BoolVal(e.lv(args[2]).cell == c['out'].cell), 'post:written-to-the-output')
    for k in ('UnigramTagger::outputLexicalUnit', 'StreamTagger::outputLexicalUnit'): e.contracts[k] = written
    def setup(e, ctx):
        inl, out = stream_setup(e)
        this = ctx['this'] = e.new_cell(this_object(e, 'UnigramTagger', f, {'score_DEBUG': I(0)}), ('cls', 'UnigramTagger'), 'this')
        r = e.read(this)
        fl = Rec('TaggerFlags', {n: z3.BoolVal(False) for n, t, _ in e.allfields('TaggerFlags')})
        e.write(this, r.with_('TheFlags', fl))
        u = e.new_cell(Rec('LexicalUnit', {'TheSurfaceForm': z3.Const('surface', STR), 'TheAnalyses': an}), ('cls', 'LexicalUnit'), 'unit')
        c = dict(u=u, out=out, n=e.new_cell(I(0), ('int', 32, True), '$written'))
        e.st.ghost['ctx'] = c
        e.st.ghost['n'], e.st.ghost['unit'] = c['n'], u
        ctx.update(c)
        sp.start(e.construct(('cls', 'BestAnalysis'), [], None))
        sp.leafrec = lambda name: sp.cur(e.st, sp.N).f[name]
        return [u, out]
    def cands(e, st, mods, L):
        C = []
        Z = [l for l in L if l[1] == z3.IntSort() and l[4] and not l[0].startswith('S.')]
        for d in [l for l in L if l[1] == z3.RealSort()]:
            for z in Z:
                C.append((('max', d[0], z[0]), lambda s, d=d[3], z=z[3]: z3.Implies(z(s) > 0, d(s) == sc(e.pack(sp.cur(s, z(s)).f['best'], ('cls', 'Analysis'))))))
        for z in Z: C.append((('any', z[0]), lambda s, z=z[3]: sp.fn[('any',)](z(s)) == (z(s) > 0)))
        return C
    sp.extra.append(cands)
    def post(e, kind, v, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind == 'return': e.check(e.read(ctx['n']) == 1, 'post:the-unit-is-written-once')
    e.verify(f, setup, post)

def whole(e):
    """UnigramTagger::tag(Stream): everything Stream::get gives, in order, flushed at each NUL"""
    f = [g for g in e.byname['tag'] if e.cls_of(g) == 'UnigramTagger' and e.has_body(g) and 'Stream &' in g['type']['qualType']][0]
    Z, B = z3.IntSort(), z3.BoolSort()
    A = e.sort(('seq', ('cls', 'Analysis')))
    F = dict(text=z3.Function('got_text', Z, STR), surface=z3.Function('got_surface', Z, STR), analyses=z3.Function('got_analyses', Z, A),
             known=z3.Function('got_known', Z, B), flush=z3.Function('got_flush', Z, B))
    tx = z3.Function('unit_text', STR, A, STR)
    for k in ('text', 'known', 'flush'): model(e, 'got_' + k)(lambda e, n, args, k=k: F[k](e.as_int(e.rv(args[0]))))
    def unit_of(e, n, args):
        g = e.as_int(e.rv(args[0]))
        return tx(F['surface'](g), F['analyses'](g))
    model(e, 'got_unit')(unit_of)
    sp = Spec(e, 'Written', 'in')
    def get(e, n, obj, args):
        inl = e.st.ghost['in:in']
        i = simp(e.read(inl).f['$pos'])
        out = e.read(e.st.ghost['out'])
        e.check(z3.Implies(sp.leaf(e.st, ('flush',)), out.f['flushed'] == out.f['out']), 'get:output-flushed-before-waiting-after-a-NUL')
        e.add(i < sp.N)                                      # the input ends
        sp.unfold(e, i)
        g = sp.at(i)
        e.write(inl, e.read(inl).with_('$pos', simp(i + 1)))
        e.write(obj, e.read(obj).with_('private_flush_', F['flush'](g)))
        u = Rec('LexicalUnit', {'TheSurfaceForm': F['surface'](g), 'TheAnalyses': F['analyses'](g)})
        return Rec('StreamedType', {'TheString': F['text'](g), 'TheLexicalUnit': Rec('opt', {'has': F['known'](g), 'val': u})})
    e.contracts['Stream::get'] = get
    def unit(e, n, obj, args):
        emit = e.emit
        u = e.rv(args[0])
        emit(e, PtrV(e.lv(args[1])), tx(u.f['TheSurfaceForm'], u.f['TheAnalyses']))
    g = [x for x in e.byname['tag'] if e.cls_of(x) == 'UnigramTagger' and e.has_body(x) and 'LexicalUnit' in x['type']['qualType']][0]
    e.contracts['UnigramTagger::tag'] = unit
    def setup(e, ctx):
        inl, out = stream_setup(e)
        ctx['out'] = out
        this = e.new_cell(this_object(e, 'UnigramTagger', f, {'score_DEBUG': I(0)}), ('cls', 'UnigramTagger'), 'this')
        ctx['this'] = this
        fl = Rec('TaggerFlags', {n: z3.BoolVal(False) for n, t, _ in e.allfields('TaggerFlags')})
        e.write(this, e.read(this).with_('TheFlags', fl))
        s = e.new_cell(Rec('Stream', {'private_flush_': FALSE}), ('cls', 'Stream'), 'stream')
        sp.start(e.construct(('cls', 'Written'), [], None))
        return [s, out]
    def cands(e, st, mods, L):
        o = st.ghost['out']
        return [(('flushed',), lambda s: z3.Implies(sp.leaf(s, ('flush',)), s.cells[o.cell].f['flushed'] == s.cells[o.cell].f['out']))]
    e.user_cands.append(cands)
    def post(e, kind, v, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind != 'return': return
        e.check(sp.leaf(e.st, ('end',)), 'post:tagging-ends-where-the-text-ends')
        e.check(e.read(ctx['out']).f['out'] == sp.leaf(e.st, ('out',)), 'post:text-and-units-in-order')
    e.verify(f, setup, post)

# ---------------------------------------------------------------- the stored model
class Stored:
    """a stream of encoded values. W[T](v) is how lttoolbox encodes a v of type T (an assumed contract: where a stream holds
    W[T](v), decoding a T gives v and ends behind it); the classes of /repo encode their fields, one after the other"""
    KIND = {('int', 64, False): 'u64', ('int', 32, False): 'u32', ('seq', ('int', 16, False)): 'UString', ('seq', ('seq', ('int', 16, False))): 'UStrings', ('seq', ('cls', 'Morpheme')): 'Morphemes'}
    LAYOUT = {'a': ['TheTags', 'TheMorphemes'], 'i': ['TheTags'], 'Analysis': ['TheMorphemes'], 'Lemma': ['TheLemma'], 'Morpheme': ['TheLemma', 'TheTags']}
    def __init__(s, e):
        s.e, s.given = e, {}
        s.stream = z3.Const('stream', STR)
        s.kinds, s.types, s.W, s.V, s.E = {}, {}, {}, {}, {}
        for t, k in s.KIND.items(): s.define(t, k)
        e.contracts['serialise'] = lambda e, n, obj, args: s.write(args)
        for k, nm in (('UString', 'deserialiseUString'), ('UStrings', 'deserialiseUStrings')):
            e.contracts[nm] = lambda e, n, obj, args, k=k: s.read(args[0], k)
        e.contracts['deserialise'] = lambda e, n, obj, args: s.read(args[0], s.kind(e.norm(node_type(n))))
    def kind(s, t):
        """how values of the type are called; the parts of a model are maps, of which only the type matters here"""
        if t not in s.kinds:
            if t[0] != 'map': raise Unsupported('the encoding of %s' % (t,))
            s.define(t, 'map%d' % len(s.kinds))
        return s.kinds[t]
    def define(s, t, k):
        s.kinds[t], s.types[k] = k, t
        s.W[k] = z3.Function('W_' + k, s.e.sort(t), STR)
        s.V[k] = z3.Function('V_' + k, z3.IntSort(), s.e.sort(t))
        s.E[k] = z3.Function('E_' + k, z3.IntSort(), z3.IntSort())
    def write(s, args):
        e = s.e
        k = s.kind(e.norm(deref(node_type(args[0]))))
        out = e.lv(args[1])
        e.trusted.add('Serialiser<%s> (lttoolbox)' % k)
        e.write(out, e.read(out).with_('out', z3.Concat(e.read(out).f['out'], s.W[k](e.pack(e.rv(args[0]), s.types[k])))))
    def at(s, k, v, p): return z3.And(p >= 0, z3.SubSeq(s.stream, p, z3.Length(s.W[k](v))) == s.W[k](v))
    def read(s, arg, k):
        e = s.e
        c = e.lv(arg)
        p = e.read(c).f['pos']
        if k not in ('UString', 'UStrings'): e.trusted.add('Deserialiser<%s> (lttoolbox)' % k)
        for v in s.given.get(k, []): e.add(z3.Implies(s.at(k, v, p), z3.And(s.V[k](p) == v, s.E[k](p) == p + z3.Length(s.W[k](v)))))
        if s.more: s.more(k, p)
        t = s.types[k]
        if t[0] == 'int': e.range_fact(s.V[k](p), t)
        e.write(c, e.read(c).with_('pos', s.E[k](p)))
        return e.unpack(s.V[k](p), t)
    more = None

MODELS = {1: ['Model1'], 2: ['Model2'], 3: ['Model3_l_t', 'Model3_cl_ct', 'Model3_ct_cl']}
def model_io(e, how, kind):
    """UnigramTagger::serialise, deserialise: the tables of the kind of model, and no other"""
    f = [d for d in e.byname[how] if e.cls_of(d) == 'UnigramTagger' and e.has_body(d)][0]
    S = Stored(e)
    ty = dict((n, e.norm(t)) for n, t, _ in e.allfields('UnigramTagger'))
    out0, p0 = z3.Const('out0', STR), z3.Int('p0')
    pre, rest = z3.Const('before', STR), z3.Const('behind', STR)
    def setup(e, ctx):
        tables = {n: e.fresh(ty[n], n) for n in ty if n.startswith('Model')}
        code = dict(e.enums['UnigramTaggerModel'])['UnigramTaggerModel%d' % kind]
        this = ctx['this'] = e.new_cell(Rec('UnigramTagger', dict(tables, model=I(code))), ('cls', 'UnigramTagger'), 'this')
        ctx['v'] = {n: e.pack(e.fresh(ty[n], 'stored') if how == 'deserialise' else tables[n], ty[n]) for n in MODELS[kind]}
        ctx['before'] = {n: e.pack(tables[n], ty[n]) for n in tables}
        enc = [S.W[S.kind(ty[n])](ctx['v'][n]) for n in MODELS[kind]]
        ctx['enc'] = enc[0] if len(enc) == 1 else z3.Concat(enc)
        S.given = {}
        for n in MODELS[kind]: S.given.setdefault(S.kind(ty[n]), []).append(ctx['v'][n])
        e.add(z3.And(S.stream == z3.Concat(pre, ctx['enc'], rest), p0 == z3.Length(pre)))
        ctx['s'] = e.new_cell(Rec('istream', {'pos': p0, 'out': out0}), ('cls', 'std::istream'), 'stream')
        return [ctx['s']]
    def post(e, kind_, _, ctx):
        e.check(z3.BoolVal(kind_ == 'return'), 'post:returns')
        if kind_ != 'return': return
        t, s = e.read(ctx['this']), e.read(ctx['s'])
        for n in ctx['before']:
            e.check(e.pack(t.f[n], ty[n]) == (ctx['v'][n] if n in ctx['v'] else ctx['before'][n]), 'post:%s-is-what-was-stored' % n if n in ctx['v'] else 'post:%s-does-not-change' % n)
        if how == 'serialise': e.check(s.f['out'] == z3.Concat(out0, ctx['enc']), 'post:the-tables-of-the-model-in-the-order-of-the-format')
        else: e.check(s.f['pos'] == p0 + z3.Length(ctx['enc']), 'post:ends-behind-what-was-stored')
    e.verify(f, setup, post)

class Counts:
    """sums over a table of counts: SUM(keys, counts, i) is that of the first i"""
    def __init__(s, e):
        s.e, s.f = e, {}
        orig = e.map_elem
        def elem(lv, m, seqv, i):
            if m.vt is not None and e.norm(m.vt)[0] == 'int':
                T = s.sum(seqv, m.val)
                e.add(z3.And(T(I(0)) == 0, T(i + 1) == T(i) + z3.ToReal(z3.Select(m.val, key_at(seqv, i)))))
            return orig(lv, m, seqv, i)
        e.map_elem = elem
    def sum(s, keys, val):
        k = (str(keys.sort()), str(val.sort()))
        if k not in s.f: s.f[k] = z3.Function('SUM%d' % len(s.f), keys.sort(), val.sort(), z3.IntSort(), z3.RealSort())
        return lambda i: s.f[k](keys, val, i)
    def total(s, m):
        keys, _ = s.e.enum_keys(None, m)
        T = s.sum(keys, m.val)
        s.e.add(T(I(0)) == 0)
        return T, z3.Length(keys)
def has(m, k): return z3.Select(m.dom, k)
def got(m, k): return z3.Select(m.val, k)

def parts(e):
    """the tags (i), lemma and tags with later morphemes (a) of analyses and morphemes"""
    part = {}
    for cls in ('a', 'i', 'Lemma'):
        for src in ('Analysis', 'Morpheme'):
            part[cls, src] = z3.Function('%s_of_%s' % (cls, src), e.sort(('cls', src)), e.sort(('cls', cls)))
        def ctor(e, t, args, n, cls=cls):
            if len(args) != 1: return NotImplemented
            at = e.norm(deref(node_type(args[0])))
            if at == t: return e.rv(args[0])
            e.trusted.add('%s(const %s&): a function of its argument that is defined for what was read' % (cls, at[1]))
            return e.unpack(part[cls, at[1]](e.pack(e.rv(args[0]), at)), t)
        e.models['$ctor:' + cls] = ctor
    return part

def scores(e, kind):
    """UnigramTagger::score: the formula of the model"""
    f = [d for d in e.byname['score'] if e.cls_of(d) == 'UnigramTagger' and e.has_body(d)][0]
    C = Counts(e)
    ty = dict((n, e.norm(t)) for n, t, _ in e.allfields('UnigramTagger'))
    part = parts(e)
    tables = {}
    X = z3.Const('x', e.sort(('cls', 'Analysis')))
    x = e.unpack(X, ('cls', 'Analysis'))
    def setup(e, ctx):
        for n in MODELS[kind]: tables[n] = e.fresh(ty[n], n)
        code = dict(e.enums['UnigramTaggerModel'])['UnigramTaggerModel%d' % kind]
        fl = Rec('TaggerFlags', {n: z3.BoolVal(False) for n, t, _ in e.allfields('TaggerFlags')})
        ctx['this'] = e.new_cell(Rec('UnigramTagger', dict(tables, model=I(code), TheFlags=fl)), ('cls', 'UnigramTagger'), 'this')
        if kind == 2:
            A, R = part['a', 'Analysis'](X), part['Lemma', 'Analysis'](X)
            m = e.unpack(got(tables['Model2'], A), tables['Model2'].vt)
            S['T'], ctx['n'] = C.total(m)
            S['there'] = has(tables['Model2'], A)
            S['values'] = [('count', 1 + z3.If(has(m, R), z3.ToReal(got(m, R)), 0)), ('types', z3.If(has(m, R), z3.RealVal(0), z3.RealVal(1)) + z3.ToReal(ctx['n']))]
        return [e.new_cell(x, ('cls', 'Analysis'), 'analysis')]
    def cands(e, st, mods, L):
        K = []
        T = S['T']
        for d in L:
            if d[1] == z3.RealSort() and d[4]:
                for z in L:
                    if z[1] == z3.IntSort() and z[4]: K.append((('sum', d[0], z[0]), lambda s, d=d[3], z=z[3]: d(s) == 1 + T(z(s))))
                for nm, v in S['values']: K.append(((nm, d[0]), lambda s, d=d[3], v=v: d(s) == v))
        K.append((('there',), lambda s: S['there']))
        return K
    S = {}
    if kind > 1: e.user_cands.append(cands)
    def post(e, k, v, ctx):
        e.check(z3.BoolVal(k == 'return'), 'post:returns')
        if k != 'return': return
        t = e.read(ctx['this'])
        for n in tables: e.check(e.pack(t.f[n], ty[n]) == e.pack(tables[n], ty[n]), 'post:%s-does-not-change' % n)
        if kind == 1:
            m = tables['Model1']
            e.check(v == 1 + z3.If(has(m, X), z3.ToReal(got(m, X)), 0), 'post:one-more-than-the-count')
        else:
            there = S['there']
            ra = z3.If(there, S['values'][0][1], 1)
            ta = 1 + z3.If(there, S['T'](ctx['n']), 0)
            types = z3.If(there, S['values'][1][1], 1)
            e.check(v == ra * ta / (ta + types), 'post:the-formula-of-model-2')
    e.verify(f, setup, post)

def member(e, name, cls, which):
    c = [d for d in e.byname.get(name, []) if d.get('kind') == 'CXXMethodDecl' and re.search(which, d['type']['qualType'])]
    if not c: raise Unsupported('no %s of %s' % (name, cls))
    return c[0]

def stores(e, cls):
    """Serialiser<cls>: the fields, in the order of the format"""
    f = member(e, 'serialise', cls, r'^void \((const )?(Apertium::)?%s &' % cls)
    S = Stored(e)
    out0 = z3.Const('out0', STR)
    def setup(e, ctx):
        v = ctx['v'] = e.fresh(('cls', cls), 'v')
        ctx['out'] = e.new_cell(Rec('ostream', {'out': out0}), ('cls', 'std::ostream'), 'out')
        return [e.new_cell(v, ('cls', cls), 'value'), ctx['out']]
    def post(e, kind, _, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind != 'return': return
        fs = S.LAYOUT[cls]
        ty = dict((n, e.norm(t)) for n, t, _ in e.allfields(cls))
        e.check(e.read(ctx['out']).f['out'] == z3.Concat([out0] + [S.W[S.kind(ty[n])](ctx['v'].f[n]) for n in fs]), 'post:the-fields-in-the-order-of-the-format')
    e.verify(f, setup, post)

def loads(e, cls):
    """Deserialiser<cls>: what was stored is what is loaded"""
    f = member(e, 'deserialise', cls, r'^(Apertium::)?%s \(' % cls)
    S = Stored(e)
    p0 = z3.Int('p0')
    def setup(e, ctx):
        v = ctx['v'] = e.fresh(('cls', cls), 'v')
        ty = dict((n, e.norm(t)) for n, t, _ in e.allfields(cls))
        whole = [S.W[S.kind(ty[n])](v.f[n]) for n in S.LAYOUT[cls]]
        S.given = {}
        for n in S.LAYOUT[cls]: S.given.setdefault(S.kind(ty[n]), []).append(v.f[n])
        whole = whole[0] if len(whole) == 1 else z3.Concat(whole)
        ctx['len'] = z3.Length(whole)
        pre, rest = z3.Const('before', STR), z3.Const('behind', STR)
        e.add(S.stream == z3.Concat(pre, whole, rest))
        e.add(p0 == z3.Length(pre))
        ctx['in'] = e.new_cell(Rec('istream', {'pos': p0}), ('cls', 'std::istream'), 'in')
        return [ctx['in']]
    def post(e, kind, r, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind != 'return': return
        r = e.read(r) if hasattr(r, 'cell') else r
        for n in S.LAYOUT[cls]: e.check(r.f[n] == ctx['v'].f[n], 'post:%s-is-what-was-stored' % n)
        e.check(e.read(ctx['in']).f['pos'] == p0 + ctx['len'], 'post:ends-behind-what-was-stored')
    e.verify(f, setup, post)

def loads_seq(e, how, item, seq):
    """the length, and then each item, are what was stored"""
    f = e.func(how)
    S = Stored(e)
    e.contracts.pop(how)
    x = z3.Const('stored', S.V[seq](0).sort())
    P, K = z3.Function('P', z3.IntSort(), z3.IntSort()), z3.Function('K', z3.IntSort(), z3.IntSort())
    p0 = z3.Int('p0')
    def more(k, p):
        # the stream holds the length of x at p0, and item k of x at P(k); K is the number of the item at a place
        e.add(S.V['u64'](p0) == z3.Length(x)); e.add(S.E['u64'](p0) == P(0)); e.add(K(P(0)) == 0)
        if k == item: e.add(z3.Implies(z3.And(K(p) >= 0, K(p) < z3.Length(x), P(K(p)) == p), z3.And(S.V[k](p) == x[K(p)], S.E[k](p) == P(K(p) + 1), K(P(K(p) + 1)) == K(p) + 1, x[K(p)] < 65536 if item == 'u32' else True,
            z3.SubSeq(x, 0, K(p) + 1) == z3.Concat(z3.SubSeq(x, 0, K(p)), z3.Unit(x[K(p)])))))         # (code units have 16 bits)
    def setup(e, ctx):
        S.more = more
        c = ctx['in'] = S.cell = e.new_cell(Rec('istream', {'pos': p0}), ('cls', 'std::istream'), 'in')
        return [c]
    def cands(e, st, mods, L):
        pos = lambda s: s.cells[S.cell.cell].f['pos']
        C = [(('at',), lambda s: z3.And(K(pos(s)) >= 0, K(pos(s)) <= z3.Length(x), P(K(pos(s))) == pos(s)))]
        for l in L:
            if l[1] == x.sort() and l[4]: C.append((('so far', l[0]), lambda s, g=l[3]: g(s) == z3.SubSeq(x, 0, K(pos(s)))))
            if l[1] == z3.IntSort() and l[4]: C.append((('left', l[0]), lambda s, g=l[3]: g(s) == z3.Length(x) - K(pos(s)))); C.append((('done', l[0]), lambda s, g=l[3]: g(s) == K(pos(s))))
        return C
    e.user_cands.append(cands)
    def post(e, kind, r, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind != 'return': return
        e.check(e.as_seq(e, r) == x, 'post:what-was-stored')
        e.check(e.read(ctx['in']).f['pos'] == P(z3.Length(x)), 'post:ends-behind-what-was-stored')
    e.verify(f, setup, post)

T = lambda n: '/repo/apertium/%s.cc' % n
S = 'specs/tagger_spec.h'
L = 'specs/lt_reference.h'
units = [Unit('Morpheme::read', [T('morpheme'), S, L], morpheme),
         Unit('Analysis::read', [T('analysis'), T('morpheme')], analysis),
         Unit('Stream::get', [T('stream'), T('analysis'), T('morpheme'), S, L], unit)]
W = 'specs/tagger_text.h'
units += [Unit('Morpheme::operator UString', [T('morpheme'), W], morpheme_text),
          Unit('Analysis::operator UString', [T('analysis'), T('morpheme'), W], analysis_text),
          Unit('Stream::outputLexicalUnit', [T('stream'), T('analysis'), T('morpheme'), T('tagger_flags'), W], out_unit,
               [dict(mark=m, sup=s, first=f, has=h) for h in (False, True) for m in (False, True) for s in (False, True) for f in (False, True)]),
          Unit('UnigramTagger::tag(unit)', [T('unigram_tagger'), T('stream_tagger'), T('tagger_flags'), W], choose),
          Unit('UnigramTagger::tag', [T('unigram_tagger'), T('stream_tagger'), T('stream'), T('tagger_flags'), W], whole)]
KINDS = [dict(kind=k) for k in MODELS]
UT = [T('unigram_tagger'), T('stream_tagger')]
units += [Unit('UnigramTagger::' + h, UT, (lambda e, kind, h=h: model_io(e, h, kind)), KINDS) for h in ('serialise', 'deserialise')]
units += [Unit('UnigramTagger::score', UT + [T('a'), T('i'), T('lemma'), T('tagger_flags')], scores, KINDS[:2])]
DS, SE = ['/repo/apertium/deserialiser.h', T('lemma')], ['/repo/apertium/serialiser.h', T('lemma')]
CLS = [dict(cls=c) for c in Stored.LAYOUT]
units += [Unit('Serialiser::serialise', SE, stores, CLS), Unit('Deserialiser::deserialise', DS, loads, CLS),
          Unit('deserialiseUString', DS, lambda e: loads_seq(e, 'deserialiseUString', 'u32', 'UString')),
          Unit('deserialiseUStrings', DS, lambda e: loads_seq(e, 'deserialiseUStrings', 'UString', 'UStrings'))]
LIBT = ['unigram_tagger', 'stream_tagger', 'stream', 'analysis', 'morpheme', 'a', 'i', 'lemma', 'tagger_flags', 'exception_type']
searches = [Search('unigram', 'tagger.cc', '', [], sources=['apertium/%s.cc' % f for f in LIBT], share=0.8),
            Search('library', 'libcheck.cc', '', [], share=0.2)]
