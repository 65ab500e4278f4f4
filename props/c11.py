from common import *
from treemodel import *
from c10 import Words, tu, ST
# Output of rules: what <out>, <chunk>, <tags>, <lu> and <mlu> write, given what their parts evaluate to.
# The parts are evaluated through contracts: each call returns an arbitrary text, which is recorded (ghost state)
# together with the node it was asked for; the postconditions speak about the record.
def first_ok(m): return z3.And(m != z3.Empty(STR), m[0] != I(ord('#')))
def join(done, cur):
    """units of an mlu are joined with + ; an invariable queue (#...) is not"""
    return z3.If(z3.And(done != z3.Empty(STR), first_ok(cur)), z3.Concat(done, seq_lit([ord('+')]), cur), z3.Concat(done, cur))

class Rec_:
    """the record of what was evaluated"""
    def __init__(self, e, t, cls, word, flag):
        self.e, self.t, self.cls, self.flag = e, t, cls, flag
        self.w = Words(e, word)
        def part(nm, after=None, check=None):
            def c(e, n, obj, args):
                x = t.node(e.rv(args[0]))
                e.check(x != t.null, '%s:argument-exists' % nm)
                this = e.st.ghost['this']
                if flag: e.check(e.read(this).f[flag], '%s:evaluated-as-output' % nm)
                if check: check(x)
                r = e.fresh(('seq', ('int', 16, False)), 'text')
                g = e.st.ghost
                e.write(g['seen'], z3.Concat(e.read(g['seen']), z3.Unit(x)))
                e.write(g['cat'], z3.Concat(e.read(g['cat']), r, *([str_lit(after)] if after else [])))
                for f in ('out_wblank', 'blank_queue'):       # evaluation may use up a blank, or add to the word-bound blank
                    lv = this.sub(('f', f), dict((a, b) for a, b, _ in e.allfields(cls)).get(f)) if f in e.read(this).f else None
                    if lv is not None: e.write(lv, e.fresh(lv.ty, f))
                return r
            e.contracts['%s::%s' % (cls, nm)] = e.contracts['TransferBase::' + nm] = c
        self.part = part
    def start(self, ctx):
        e = self.e
        g = e.st.ghost
        g['this'] = ctx['this']
        for nm, s in (('cat', STR), ('done', STR), ('seen', z3.SeqSort(self.t.N))):
            g[nm] = e.new_cell(z3.Empty(s), ('seq', ('int', 16, False)) if s == STR else ('seq', NODE), 'ghost-' + nm)
        g['units'] = e.new_cell(I(0), ('int', 64, True), 'ghost-units')
        n = g['node'] = ctx['n'] = e.fresh(NODE, 'node')
        e.add(n != self.t.null)
        return n
    def get(self, nm): return self.e.read(self.e.st.ghost[nm])

def prefix_of_children(t):
    def gen(e, st, mods, L):
        Z = [l for l in L if l[1] == z3.IntSort() and l[4]]
        return [(('prefix', z[0]), lambda s, z=z[3]: rd(s, 'seen') == z3.SubSeq(t.kids(s.ghost['node']), I(0), z(s))) for z in Z]
    return gen
def rd(s, g): return s.cells[s.ghost[g].cell]

def base(e, cls, fn, flag):
    t = Tree(e)
    R = Rec_(e, t, cls, ST[cls][0], flag)
    f = e.func(fn, cls)
    e.user_cands.append(prefix_of_children(t))
    old_index = e.on_index
    def on_index(lv, s, i):          # every list of nodes in these functions is a list of children
        old_index(lv, s, i)
        if s.sort() == z3.SeqSort(t.N): e.add(z3.Implies(z3.And(i >= 0, i < z3.Length(s)), s[i] != t.null))
    e.on_index = on_index
    return t, R, f

def unit_wblank(e, R, cls, this):
    """the word-bound blank of the unit: of the only word, if there is one; otherwise what was collected"""
    b = this.f
    many = b['last_lword' if cls == 'Transfer' else 'lword']
    i = 0 if cls == 'Transfer' else 1
    w = R.w.at(b['word'], I(i))
    one = many == 1
    if cls == 'Transfer': one = z3.And(one, b['word'] != e.nullconst(('ptr', ('ptr', ('cls', 'TransferWord')))) if z3.is_expr(b['word']) else TRUE)
    return one, R.w.wb(w), w

def words_there(e, R, cls, ctx):
    one, _, w = unit_wblank(e, R, cls, e.read(ctx['this']))
    e.add(z3.Implies(one, w != R.w.null))

def lu(e, cls):
    t, R, f = base(e, cls, 'processLu', 'in_lu')
    R.part('evalString')
    def setup(e, ctx):
        ctx['this'] = e.new_cell(this_object(e, cls, f), ('cls', cls), 'this')
        words_there(e, R, cls, ctx)
        return [R.start(ctx)]
    def post(e, k, v, ctx):
        e.check(z3.BoolVal(k == 'return'), 'post:returns')
        if k != 'return': return
        cat, a = R.get('cat'), e.read(ctx['this'])
        e.check(R.get('seen') == t.kids(ctx['n']), 'post:every-part-once-in-order')
        one, wb, _ = unit_wblank(e, R, cls, a)
        e.check(z3.Implies(one, a.f['out_wblank'] == wb), 'post:word-bound-blank-of-the-only-word')
        E = z3.Empty(STR)
        whole = z3.Concat(a.f['out_wblank'], str_lit('^'), cat, str_lit('$'))
        if cls == 'Transfer':      # a complete unit, with its own word-bound blank, is not wrapped again
            whole = z3.If(z3.PrefixOf(str_lit('[['), cat), z3.Concat(cat, str_lit('$')), whole)
        e.check(v == z3.If(cat == E, E, whole), 'post:the-unit')
        e.check(z3.Not(a.f['in_lu']), 'post:the-unit-is-left')
    e.verify(f, setup, post)

def mlu(e, cls):
    t, R, f = base(e, cls, 'processMlu', 'in_lu')
    R.part('evalString')
    old = e.models['$ctor:children']
    def children(e, ty, args, n):
        x = t.node(e.rv(args[0]))
        g = e.st.ghost
        if x.sort() == t.N and not z3.eq(x, g['node']):
            u = R.get('units')
            e.check(x == t.kids(g['node'])[u], 'mlu:the-next-unit')
            e.check(z3.Or(u == 0, R.get('seen') == t.kids(t.kids(g['node'])[u - 1])), 'mlu:every-part-of-the-unit')
            e.write(g['done'], join(R.get('done'), R.get('cat')))
            e.write(g['cat'], z3.Empty(STR))
            e.write(g['seen'], z3.Empty(z3.SeqSort(t.N)))
            e.write(g['units'], u + 1)
        return old(e, ty, args, n)
    e.models['$ctor:children'] = children
    def cands(e, st, mods, L):
        Q = [l for l in L if l[1] == STR and l[4]]
        Z = [l for l in L if l[1] == z3.IntSort() and l[4]]
        node = lambda s: s.ghost['node']
        last = lambda s: t.kids(t.kids(node(s))[rd(s, 'units') - 1])
        out = [(('joined', q[0]), lambda s, q=q[3]: q(s) == join(rd(s, 'done'), rd(s, 'cat'))) for q in Q]
        out += [(('complete',), lambda s: z3.Or(rd(s, 'units') == 0, rd(s, 'seen') == last(s)))]
        out += [(('first', q[0], nm), lambda s, q=q[3], nm=nm: (q(s) == z3.Empty(STR)) == (nm == 'empty')) for q in Q for nm in ('empty', 'full')]
        out += [(('units', z[0], d), lambda s, z=z[3], d=d: z(s) + d == rd(s, 'units')) for z in Z for d in (0, 1)]
        out += [(('inner', z[0]), lambda s, z=z[3]: rd(s, 'seen') == z3.SubSeq(last(s), I(0), z(s))) for z in Z]
        out += [(('kids', q[0]), lambda s, q=q[3]: q(s) == last(s)) for q in L if q[1] == z3.SeqSort(t.N)]
        out += [(('in',), lambda s: z3.And(rd(s, 'units') >= 1, rd(s, 'units') <= z3.Length(t.kids(node(s)))))]
        return out
    e.user_cands.append(cands)
    def setup(e, ctx):
        ctx['this'] = e.new_cell(this_object(e, cls, f), ('cls', cls), 'this')
        words_there(e, R, cls, ctx)
        return [R.start(ctx)]
    def post(e, k, v, ctx):
        e.check(z3.BoolVal(k == 'return'), 'post:returns')
        if k != 'return': return
        a, u, kids = e.read(ctx['this']), R.get('units'), t.kids(ctx['n'])
        e.check(u == z3.Length(kids), 'post:every-unit-once-in-order')
        e.check(z3.Or(u == 0, R.get('seen') == t.kids(kids[u - 1])), 'post:every-part-of-the-last-unit')
        value = join(R.get('done'), R.get('cat'))
        one, wb, _ = unit_wblank(e, R, cls, a)
        e.check(z3.Implies(one, a.f['out_wblank'] == wb), 'post:word-bound-blank-of-the-only-word')
        E = z3.Empty(STR)
        e.check(v == z3.If(value == E, E, z3.Concat(a.f['out_wblank'], str_lit('^'), value, str_lit('$'))), 'post:the-joined-units')
        e.check(z3.Not(a.f['in_lu']), 'post:the-unit-is-left')
    e.verify(f, setup, post)

def out(e, cls, chunks=None):
    """<out>: the texts of the children, in order"""
    t, R, f = base(e, cls, 'processOut', 'in_out')
    kinds = {'chunk': 'processChunk'} if cls == 'Interchunk' or chunks else {'lu': 'processLu', 'mlu': 'processMlu'}
    others = lambda x: z3.Not(z3.Or([t.name(x) == str_lit(k) for k in kinds]))
    for k, fn in kinds.items(): R.part(fn, check=lambda x, k=k: e.check(t.name(x) == str_lit(k), 'out:%s-is-written-as-such' % k))
    R.part('evalString', check=lambda x: e.check(others(x), 'out:other-elements-are-evaluated'))
    def setup(e, ctx):
        _, o = stream_setup(e)
        g = {'output': PtrV(o)}
        if chunks is not None:
            g['defaultAttrs'] = I(dict(e.enums['OutputType'])['chunk' if chunks else 'lu'])
        ctx['out'] = o
        ctx['this'] = e.new_cell(this_object(e, cls, f, g), ('cls', cls), 'this')
        return [R.start(ctx)]
    def post(e, k, v, ctx):
        e.check(z3.BoolVal(k == 'return'), 'post:returns')
        if k != 'return': return
        e.check(R.get('seen') == t.kids(ctx['n']), 'post:every-child-once-in-order')
        e.check(e.read(ctx['out']).f['out'] == R.get('cat'), 'post:the-texts-of-the-children')
        e.check(z3.Not(e.read(ctx['this']).f['in_out']), 'post:the-output-is-left')
    e.verify(f, setup, post)

def chunk(e, cls):
    t, R, f = base(e, cls, 'processChunk', None)
    E = z3.Empty(STR)
    kinds = {'tags': ('processTags', '{'), 'lu': ('processLu', ''), 'mlu': ('processMlu', '')} if cls == 'Transfer' else {}
    for k, (fn, after) in kinds.items(): R.part(fn, after, check=lambda x, k=k: e.check(t.name(x) == str_lit(k), 'chunk:%s-is-written-as-such' % k))
    R.part('evalString', check=lambda x: e.check(z3.Not(z3.Or([t.name(x) == str_lit(k) for k in kinds])) if kinds else TRUE, 'chunk:other-elements-are-evaluated'))
    cc = z3.Function('copycase', STR, STR, STR)
    @model(e, 'copycase')
    def _(e, n, args):
        e.trusted.add('StringUtils::copycase (lttoolbox)')
        return cc(e.rv(args[0]), e.rv(args[1]))
    head = lambda s: z3.Concat(str_lit('^'), s.ghost['name'])
    e.user_cands.append(lambda e, st, mods, L: [(('head', q[0]), lambda s, q=q[3]: q(s) == z3.Concat(head(s), rd(s, 'cat'))) for q in L if q[1] == STR and q[4]])
    # "aa" is what stands for a chunk without the attribute case
    cands = t.attr_candidates(['name', 'namefrom', 'case'])
    e.user_cands.append(cands)
    def case_cand(e, st, mods, L):
        return [(('case', p[0], q[0]), lambda s, p=p[3], q=q[3]: q(s) == caseval(s, p(s))) for p in L if p[1] == t.A for q in L if q[1] == STR and q[4]]
    def caseval(s, p):
        v = z3.If(p == t.noattr, t.full(s.ghost['node'], str_lit('case')), t.upto(p, str_lit('case')))
        return z3.If(v == t.nochar, str_lit('aa'), t.atext(v))
    e.user_cands.append(case_cand)
    def setup(e, ctx):
        ctx['this'] = e.new_cell(this_object(e, cls, f), ('cls', cls), 'this')
        n = R.start(ctx)
        if cls == 'Transfer':
            b = e.read(ctx['this']).f
            var = lambda k: simp(z3.If(z3.Select(b['variables'].dom, k), z3.Select(b['variables'].val, k), E))
            txt = lambda k: z3.If(t.value(n, k)[0] == t.nochar, E, t.value(n, k)[1])
            case = z3.If(t.value(n, 'case')[0] == t.nochar, str_lit('aa'), t.value(n, 'case')[1])
            ctx['named'] = z3.Or(txt('name') != E, txt('namefrom') != E)
            nm = z3.If(txt('name') != E, txt('name'), var(txt('namefrom')))
            e.st.ghost['name'] = z3.If(z3.And(case != E, z3.Not(b['dictionary_case'])), cc(var(case), nm), nm)
        else: e.st.ghost['name'], ctx['named'] = E, TRUE
        return [n]
    def post(e, k, v, ctx):
        if k != 'return':
            e.check(z3.And(z3.BoolVal(k == 'exit'), z3.Not(ctx['named'])), 'post:returns')
            return
        e.check(R.get('seen') == t.kids(ctx['n']), 'post:every-child-once-in-order')
        e.check(v == z3.Concat(str_lit('^'), e.st.ghost['name'], R.get('cat'), str_lit('}$' if cls == 'Transfer' else '$')), 'post:the-chunk')
    e.verify(f, setup, post)

def tags(e, cls):
    t, R, f = base(e, cls, 'processTags', None)
    R.part('evalString')
    tagsof = z3.Function('tags_before', t.N, z3.IntSort(), z3.SeqSort(t.N))
    old = e.models['$ctor:children']
    old_index = e.on_index
    def on_index(lv, s, i):
        old_index(lv, s, i)
        k = simp(s)
        n = e.st.ghost.get('node')
        if n is not None and z3.eq(k, simp(t.kids(n))):
            x = k[i]
            e.add(z3.Implies(z3.And(i >= 0, i < z3.Length(k)), tagsof(n, i + 1) == z3.If(t.name(x) == str_lit('tag'), z3.Concat(tagsof(n, i), z3.Unit(x)), tagsof(n, i))))
    e.on_index = on_index
    def children(e, ty, args, n):
        x = t.node(e.rv(args[0]))
        g = e.st.ghost
        if x.sort() == t.N and not z3.eq(x, g['node']):
            e.check(z3.Or(R.get('tags') == z3.Empty(z3.SeqSort(t.N)), R.get('seen') == t.kids(last(e.st))), 'tags:every-part-of-the-tag')
            e.write(g['tags'], z3.Concat(R.get('tags'), z3.Unit(x)))
            e.write(g['seen'], z3.Empty(z3.SeqSort(t.N)))
        return old(e, ty, args, n)
    e.models['$ctor:children'] = children
    last = lambda s: rd(s, 'tags')[z3.Length(rd(s, 'tags')) - 1]
    none = lambda s: rd(s, 'tags') == z3.Empty(z3.SeqSort(t.N))
    def cands(e, st, mods, L):
        Z = [l for l in L if l[1] == z3.IntSort() and l[4]]
        out = [(('tags', z[0], d), lambda s, z=z[3], d=d: rd(s, 'tags') == tagsof(s.ghost['node'], z(s) + d)) for z in Z for d in (0, 1)]
        out += [(('complete',), lambda s: z3.Or(none(s), rd(s, 'seen') == t.kids(last(s))))]
        out += [(('inner', z[0]), lambda s, z=z[3]: z3.And(z3.Not(none(s)), rd(s, 'seen') == z3.SubSeq(t.kids(last(s)), I(0), z(s)))) for z in Z]
        out += [(('kids', q[0]), lambda s, q=q[3]: z3.And(z3.Not(none(s)), q(s) == t.kids(last(s)))) for q in L if q[1] == z3.SeqSort(t.N)]
        return out
    e.user_cands.append(cands)
    def setup(e, ctx):
        _, o = stream_setup(e)
        ctx['out'] = o
        ctx['this'] = e.new_cell(this_object(e, cls, f, {'output': PtrV(o)}), ('cls', cls), 'this')
        n = R.start(ctx)
        e.st.ghost['tags'] = e.new_cell(z3.Empty(z3.SeqSort(t.N)), ('seq', NODE), 'ghost-tags')
        e.add(tagsof(n, 0) == z3.Empty(z3.SeqSort(t.N)))
        return [n]
    def post(e, k, v, ctx):
        e.check(z3.BoolVal(k == 'return'), 'post:returns')
        if k != 'return': return
        e.check(R.get('tags') == tagsof(ctx['n'], z3.Length(t.kids(ctx['n']))), 'post:every-tag-once-in-order')
        e.check(z3.Or(none(e.st), R.get('seen') == t.kids(last(e.st))), 'post:every-part-of-the-last-tag')
        r = v if cls == 'Transfer' else e.read(ctx['out']).f['out']
        e.check(r == R.get('cat'), 'post:the-texts-of-the-tags')
    e.verify(f, setup, post)

units = [Unit(c + '::processLu', tu(c), lambda e, c=c: lu(e, c)) for c in ('Transfer', 'Postchunk')]
units += [Unit(c + '::processMlu', tu(c), lambda e, c=c: mlu(e, c)) for c in ('Transfer', 'Postchunk')]
units += [Unit('Transfer::processOut', tu('Transfer'), lambda e, **k: out(e, 'Transfer', **k), cfgs=[dict(chunks=b) for b in (False, True)])]
units += [Unit(c + '::processOut', tu(c), lambda e, c=c: out(e, c)) for c in ('Interchunk', 'Postchunk')]
units += [Unit(c + '::processChunk', tu(c), lambda e, c=c: chunk(e, c)) for c in ('Transfer', 'Interchunk')]
units += [Unit(c + '::processTags', tu(c), lambda e, c=c: tags(e, c)) for c in ('Transfer', 'Postchunk')]
searches = [rules_search(2)]
