from common import *
from treemodel import *
# Values of expressions: evalCachedString of the three stages, for every kind of expression.
U16 = ('seq', ('int', 16, False))

class Words:
    """words[i] of a rule: opaque objects with parts; their methods are used by contract only"""
    def __init__(self, e, word, extra=()):
        self.e, self.cls = e, word
        e.opaque_ptrs = e.opaque_ptrs | {word}
        W = self.W = e.sort(('ptr', ('cls', word)))
        self.null = e.nullconst(('ptr', ('cls', word)))
        R = self.R = e.sort(('cls', 'ApertiumRE'))
        self.fn = {}
        for m in (('source', 'target', 'reference') if word == 'TransferWord' else ('chunkPart',)):
            f = self.fn[m] = z3.Function(m, W, R, z3.BoolSort(), STR)
            def c(e, n, obj, args, f=f, m=m):
                w = e.rv(obj) if not z3.is_expr(obj) else obj
                e.check(w != self.null, 'null-dereference')
                e.assumed.add('%s::%s(part, queue) has a value that depends on the word, the part and the queue flag only' % (word, m))
                return f(w, e.pack(e.rv(args[0]), ('cls', 'ApertiumRE')), e.rv(args[1]) if len(args) > 1 and word == 'TransferWord' and args[1]['kind'] != 'CXXDefaultArgExpr' else TRUE)
            e.contracts['%s::%s' % (word, m)] = c
        self.wb = z3.Function('wblank', W, STR)
        def wb(e, n, obj, args):
            w = e.rv(obj) if not z3.is_expr(obj) else obj
            e.check(w != self.null, 'null-dereference')
            return self.wb(w)
        e.contracts['%s::getWblank' % word] = wb
        self.comb = z3.Function('combineWblanks', STR, STR, STR)
        e.contracts['TransferBase::combineWblanks'] = lambda e, n, obj, args: self.comb(e.rv(args[0]), e.rv(args[1]))
        self.copycase = z3.Function('copycase', STR, STR, STR)
        e.contracts['TransferBase::copycase'] = lambda e, n, obj, args: self.copycase(e.rv(args[0]), e.rv(args[1]))
        self.case = z3.Function('getcase', STR, STR)
        @model(e, 'getcase')
        def _(e, n, args):
            e.trusted.add('StringUtils::getcase (lttoolbox)')
            return self.case(e.rv(args[0]))
    def at(self, word, i):
        return z3.Function('elt_%s' % word.sort(), word.sort(), z3.IntSort(), self.W)(word, i)

def cached(e, cls, word, kind, offset):
    t = Tree(e)
    w = Words(e, word)
    f = e.func('evalCachedString', cls)
    val = z3.Function('value', t.N, STR)
    def ev(e, n, obj, args):
        e.assumed.add('evalString of the text inside get-case-from: a value that depends on the expression only')
        return val(t.node(e.rv(args[0])))
    e.contracts['TransferBase::evalString'] = ev
    def ci(e, n, obj, args):
        this = e.read(obj)
        i, lim = e.rv(args[1]), e.rv(args[2])
        return z3.And(i >= 0, (i <= lim) if cls == 'Postchunk' else (i < lim), w.at(this.f['word'], i) != w.null)
    e.contracts[cls + '::checkIndex'] = ci
    kinds = dict(e.enums['TransferInstrType'])
    def setup(e, ctx):
        this = ctx['this'] = e.new_cell(this_object(e, cls, f), ('cls', cls), 'this')
        n = ctx['n'] = e.fresh(NODE, 'node')
        e.add(n != t.null)
        r = ctx['before'] = e.read(this)
        c = r.f['evalStringCache']
        e.add(z3.Select(c.dom, n))
        ctx['ti'] = e.unpack(simp(z3.Select(c.val, n)), c.vt)
        e.add(ctx['ti'].f['type'] == kinds[kind])
        if cls == 'Interchunk' and kind == 'ti_clip_tl':
            # the content of a chunk is written between braces
            a, ti = r.f['attr_items'], ctx['ti'].f
            p = w.fn['chunkPart'](w.at(r.f['word'], ti['pos']), e.pack(e.unpack(simp(z3.Select(a.val, str_lit('content'))), ('cls', 'ApertiumRE')), ('cls', 'ApertiumRE')), TRUE)
            e.add(z3.Length(p) >= 2)
            e.add(z3.Select(a.dom, str_lit('content')))
        return [n]
    def post(e, k, v, ctx):
        e.check(z3.BoolVal(k == 'return'), 'post:returns')
        if k != 'return': return
        b, a, ti = ctx['before'].f, e.read(ctx['this']).f, ctx['ti'].f
        content, pos, queue = ti['content'], ti['pos'], ti['condition']
        if kind == 'ti_get_case_from': pos = pos + offset
        one = lambda s: z3.Or([content == str_lit(x) for x in s])
        sel = lambda m, key: simp(z3.If(z3.Select(m.dom, key), z3.Select(m.val, key), z3.Empty(STR)))
        wd = w.at(b['word'], pos)
        lim = b['lword']
        exists = z3.And(pos >= 0, (pos <= lim) if cls == 'Postchunk' else (pos < lim), wd != w.null)
        side = kind.split('_')[-1]
        fn = w.fn[{'sl': 'source', 'tl': 'target', 'ref': 'reference'}.get(side, 'source') if word == 'TransferWord' else 'chunkPart']
        re_ = lambda key: e.pack(e.unpack(simp(z3.Select(b['attr_items'].val, key)), ('cls', 'ApertiumRE')), ('cls', 'ApertiumRE'))
        e.add(z3.Select(b['attr_items'].dom, content))        # the rule compiler admits only the parts there are
        part = lambda q: fn(wd, re_(content), q)
        E = z3.Empty(STR)
        if 'clip' in kind:
            want = part(queue if word == 'TransferWord' else TRUE)
            if cls == 'Interchunk': want = z3.If(content == str_lit('content'), z3.SubSeq(want, 1, z3.Length(want) - 2), want)
            want = z3.If(exists, want, E)
        elif 'linkto' in kind: want = z3.If(z3.And(exists, part(queue) != E), z3.Concat(str_lit('<'), ti['strval'], str_lit('>')), E)
        elif kind == 'ti_var': want = sel(b['variables'], content)
        elif kind in ('ti_lit', 'ti_lit_tag'): want = content
        elif kind == 'ti_b': want = z3.If(b['blank_queue'] == E_(b['blank_queue']), str_lit(' '), b['blank_queue'][0])
        elif 'case_of' in kind: want = z3.If(exists, w.case(part(TRUE)), E)
        elif kind == 'ti_get_case_from': want = z3.If(exists, w.copycase(part(TRUE), val(t.node(ti['pointer']))), E)
        else: return
        e.check(v == want, 'post:the-value-of-the-expression')
        # what else changes
        if 'blank_queue' in b:
            q = b['blank_queue']
            taken = z3.And(b['in_out'], z3.Length(q) > 0) if kind == 'ti_b' else FALSE
            e.check(a['blank_queue'] == z3.If(taken, z3.SubSeq(q, 1, z3.Length(q) - 1), q), 'post:a-blank-is-used-once')
        if cls != 'Interchunk':
            many = b['last_lword' if cls == 'Transfer' else 'lword'] > 1
            clip = z3.And(exists, many, one(['lem', 'lemh', 'whole'])) if kind in ('ti_clip_sl', 'ti_clip_tl') else FALSE
            o = b['out_wblank']
            new = z3.If(z3.And(clip, b['in_lu']), w.comb(o, w.wb(wd)), o)
            if kind == 'ti_var': new = z3.If(many, w.comb(o, sel(b['var_out_wblank'], content)), o)
            e.check(a['out_wblank'] == new, 'post:word-bound-blank-of-the-unit')
            vk = b['var_val']
            vb, va = b['var_out_wblank'], a['var_out_wblank']
            key = z3.Const('key!', STR)
            tovar = z3.And(clip, z3.Not(b['in_lu']), b['in_let_var'])
            e.check(z3.ForAll([key], sel(va, key) == z3.If(z3.And(tovar, key == vk), w.comb(sel(vb, key), w.wb(wd)), sel(vb, key))), 'post:word-bound-blanks-of-variables')
        for m in ('variables',):
            if m in b: 
                key = z3.Const('key!', STR)
                e.check(z3.ForAll([key], sel(a[m], key) == sel(b[m], key)), 'post:variables-stay')
    e.verify(f, setup, post)

def E_(s): return z3.Empty(s.sort())
KINDS = ['ti_clip_sl', 'ti_clip_tl', 'ti_clip_ref', 'ti_linkto_sl', 'ti_linkto_tl', 'ti_linkto_ref', 'ti_var', 'ti_lit', 'ti_lit_tag', 'ti_b', 'ti_get_case_from', 'ti_case_of_sl', 'ti_case_of_tl', 'ti_case_of_ref']
ST = {'Transfer': ('TransferWord', KINDS, 0), 'Interchunk': ('InterchunkWord', ['ti_clip_tl', 'ti_var', 'ti_lit', 'ti_lit_tag', 'ti_b', 'ti_get_case_from', 'ti_case_of_tl'], 0),
      'Postchunk': ('InterchunkWord', ['ti_clip_tl', 'ti_var', 'ti_lit', 'ti_lit_tag', 'ti_b', 'ti_get_case_from', 'ti_case_of_tl'], 1)}
# ---- what is stored for an expression when it is first evaluated
def stored(e, cls, fn):
    t = Tree(e)
    f = e.func(fn, cls)
    kinds = dict(e.enums['TransferInstrType'])
    e.user_cands.append(t.attr_candidates(['side', 'part', 'pos', 'queue', 'link-to'], {'queue': 'no'}))
    def setup(e, ctx):
        ctx['this'] = e.new_cell(this_object(e, cls, f), ('cls', cls), 'this')
        n = e.st.ghost['node'] = ctx['n'] = e.fresh(NODE, 'node')
        e.add(n != t.null)
        for k in t.keys: t.value(n, k)
        ctx['before'] = e.read(ctx['this'])
        return [n]
    def post(e, k, v, ctx):
        e.check(z3.BoolVal(k == 'return'), 'post:returns')
        if k != 'return': return
        n, c0, c = ctx['n'], ctx['before'].f['evalStringCache'], e.read(ctx['this']).f['evalStringCache']
        ti = e.unpack(simp(z3.Select(c.val, n)), c.vt).f
        e.check(z3.Select(c.dom, n), 'post:the-expression-is-known')
        o = z3.Const('other!', t.N)
        e.check(z3.ForAll([o], z3.Implies(o != n, z3.And(z3.Select(c.dom, o) == z3.Select(c0.dom, o), z3.Implies(z3.Select(c.dom, o), z3.Select(c.val, o) == z3.Select(c0.val, o))))), 'post:other-expressions-stay')
        if fn == 'processBlank':
            e.check(ti['type'] == kinds['ti_b'], 'post:kind-of-expression')
            return
        txt = lambda k: z3.If(t.value(n, k)[0] == t.nochar, z3.Empty(STR), t.value(n, k)[1])
        pos = z3.If(t.value(n, 'pos')[0] == t.nochar, I(0), t.atoi(t.value(n, 'pos')[1]) - (0 if cls == 'Postchunk' else 1))
        e.check(ti['content'] == txt('part'), 'post:the-part')
        e.check(ti['pos'] == pos, 'post:the-position')
        side = lambda p: z3.If(txt('side') == str_lit('sl'), I(kinds[p + '_sl']), z3.If(txt('side') == str_lit('ref'), I(kinds[p + '_ref']), I(kinds[p + '_tl'])))
        if cls != 'Transfer': want = I(kinds['ti_clip_tl' if fn == 'processClip' else 'ti_case_of_tl'])
        elif fn == 'processClip':
            want = z3.If(txt('link-to') == z3.Empty(STR), side('ti_clip'), side('ti_linkto'))
            e.check(ti['condition'] == z3.Not(txt('queue') == str_lit('no')), 'post:with-queue-unless-no')
            e.check(z3.Implies(txt('link-to') != z3.Empty(STR), ti['strval'] == txt('link-to')), 'post:the-link')
        else: want = side('ti_case_of')
        e.check(ti['type'] == want, 'post:kind-of-expression')
    e.verify(f, setup, post)

def index(e, cls):
    """checkIndex: true exactly for the words there are"""
    t = Tree(e)
    word = 'TransferWord' if cls == 'Transfer' else 'InterchunkWord'
    w = Words(e, word)
    f = e.func('checkIndex', cls)
    def setup(e, ctx):
        ctx['this'] = e.new_cell(this_object(e, cls, f), ('cls', cls), 'this')
        n = e.fresh(NODE, 'node')
        e.add(n != t.null)
        ctx['i'], ctx['lim'] = e.fresh(('int', 32, True), 'index'), e.fresh(('int', 32, True), 'limit')
        return [n, ctx['i'], ctx['lim']]
    def post(e, k, v, ctx):
        e.check(z3.BoolVal(k == 'return'), 'post:returns')
        if k != 'return': return
        i, lim, b = ctx['i'], ctx['lim'], e.read(ctx['this']).f
        e.check(v == z3.And(i >= 0, (i <= lim) if cls == 'Postchunk' else (i < lim), w.at(b['word'], i) != w.null), 'post:a-word-there-is')
    e.verify(f, setup, post)

def tu(c): return ['/repo/apertium/%s.cc' % c.lower(), '/repo/apertium/transfer_base.cc', '/repo/apertium/transfer_instr.cc']
units = [Unit(c + '::evalCachedString', tu(c), (lambda e, c=c, v=v, **k: cached(e, c, v[0], k['kind'], v[2])), cfgs=[dict(kind=x) for x in v[1]]) for c, v in ST.items()]
units += [Unit('%s::%s' % (c, fn), tu(c), lambda e, c=c, fn=fn: stored(e, c, fn)) for c in ST for fn in ('processClip', 'processCaseOf', 'processBlank')]
units += [Unit(c + '::checkIndex', tu(c), lambda e, c=c: index(e, c)) for c in ST]
searches = [rules_search(1)]
