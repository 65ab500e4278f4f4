from common import *
from treemodel import *
# Conditions of rules: each processX(node) returns the truth value of the node; the callees
# (processLogical, evalString, processInstruction) are used through their contracts only.
TU = ['/repo/apertium/transfer_base.cc']
def setup_all(e):
    t = Tree(e)
    t.sem = z3.Function('holds', t.N, z3.BoolSort())          # the truth value of a condition
    t.val = z3.Function('value', t.N, STR)                    # the value of an expression
    t.low = z3.Function('tolower', STR, STR)
    @model(e, 'tolower')
    def _(e, n, args):
        e.trusted.add('StringUtils::tolower (lttoolbox)')
        return t.low(e.rv(args[0]))
    @model(e, '$op:dummy')
    def _(e, n, args): return None
    def evalString(e, n, obj, args):
        e.assumed.add('evalString: evaluating an expression in a condition returns its value and changes nothing else')
        x = t.node(e.rv(args[0]))
        e.check(x != t.null, 'evalString:argument-exists')
        return t.val(x)
    e.contracts['TransferBase::evalString'] = evalString
    e.user_cands.append(node_candidates(t))
    return t

def two(t, n):
    k = t.kids(n)
    return k[0], k[1]

def truth(t, e, this, n, kind, caseless=None):
    """the meaning of a condition, given that of its children"""
    k = t.kids(n)
    L = z3.Length(k)
    a, b = k[0], k[1]
    L2 = z3.And(L >= 2)
    cl = t.attr(n, t.lit('caseless')) == t.lit('yes')
    if caseless is not None: cl = z3.BoolVal(caseless)
    fold = lambda s: z3.If(cl, t.low(s), s)
    if kind == 'and': return TRUE, forall(L, 0, lambda j: t.sem(k[j]))
    if kind == 'or': return TRUE, exists(L, 0, lambda j: t.sem(k[j]))
    if kind == 'not': return L >= 1, z3.Not(t.sem(a))
    if kind == 'test': return L >= 1, t.sem(a)
    x, y = fold(t.val(a)), fold(t.val(b))
    if kind == 'equal': return L2, x == y
    if kind == 'begins-with': return L2, z3.PrefixOf(y, x)
    if kind == 'ends-with': return L2, z3.SuffixOf(y, x)
    if kind == 'contains-substring': return L2, z3.Contains(x, y)
    lists = [this.f[f] for f in ('lists', 'listslow')]
    key = t.attr(b, t.lit('n'))
    S = e.sort(('set', lists[0].kt))
    inlist = lambda w: simp(z3.If(cl, *[z3.And(z3.Select(m.dom, key), z3.Select(S.dom(z3.Select(m.val, key)), w)) for m in (lists[1], lists[0])]))
    w = z3.Const('w!', STR)
    if kind == 'in': return L2, inlist(x)
    if kind == 'begins-with-list': return L2, z3.Exists([w], z3.And(inlist(w), z3.PrefixOf(w, x)))
    if kind == 'ends-with-list': return L2, z3.Exists([w], z3.And(inlist(w), z3.SuffixOf(w, x)))

FN = {'and': 'processAnd', 'or': 'processOr', 'not': 'processNot', 'test': 'processTest', 'equal': 'processEqual', 'begins-with': 'processBeginsWith',
      'ends-with': 'processEndsWith', 'contains-substring': 'processContainsSubstring', 'in': 'processIn', 'begins-with-list': 'processBeginsWithList', 'ends-with-list': 'processEndsWithList'}

def pf_condition(e, kind, caseless=None, defined=None):
    t = setup_all(e)
    f = e.func(FN[kind], 'TransferBase')
    def logical(e, n, obj, args):
        x = t.node(e.rv(args[0]))
        e.check(x != t.null, 'processLogical:argument-exists')
        return t.sem(x)
    e.contracts['TransferBase::processLogical'] = logical
    def twoChildren(e, n, obj, args):
        x = t.node(e.rv(args[0]))
        e.check(x != t.null, 'twoChildren:argument-exists')
        k = t.children(x)
        return Rec('pair', {f: z3.If(z3.Length(k) > i, k[i], t.null) for i, f in enumerate(('first', 'second'))})
    e.contracts['TransferBase::twoChildren'] = twoChildren
    for nm in ('beginsWith', 'endsWith'):
        def fix(e, n, obj, args, nm=nm):
            a, b = e.rv(args[0]), e.rv(args[1])
            e.st.ghost['witness'] = b
            return z3.PrefixOf(b, a) if nm == 'beginsWith' else z3.SuffixOf(b, a)
        e.contracts['TransferBase::' + nm] = fix
        e.contracts[nm] = lambda e, n, obj, args, fix=fix: fix(e, n, None, args)
    def setup(e, ctx):
        this = ctx['this'] = e.new_cell(this_object(e, 'TransferBase', f), ('cls', 'TransferBase'), 'this')
        ctx['before'] = e.read(this)
        n = e.fresh(NODE, 'node')
        e.add(n != t.null)
        pre, ctx['truth'] = truth(t, e, e.read(this), n, kind, caseless)
        e.add(pre)
        if 'list' in kind:
            m = e.read(this).f['listslow' if caseless else 'lists']
            key = t.attr(t.kids(n)[1], t.lit('n'))
            S = e.sort(('set', m.kt))
            present = z3.Select(m.dom, key)
            e.add(present == defined)             # both cases are configurations
            if defined: ctx['keys'], _ = e.enum_keys(None, MapV(m.kt, None, S.dom(z3.Select(m.val, key)), None))
            else: ctx['keys'] = z3.Empty(z3.SeqSort(STR))
            keys.append(ctx['keys'])
        if caseless is not None: e.add((t.attr(n, t.lit('caseless')) == t.lit('yes')) == caseless)     # both cases are configurations
        return [n]
    S = e.sort(('seq', ('int', 16, False)))
    e.user_cands.append(prefix_candidates({'holds': t.sem, 'fails': lambda x: z3.Not(t.sem(x))}, t.N))
    def words(e, st, mods, L):
        Q = [l for l in L if l[1] == STR]
        Z = [l for l in L if l[1] == z3.IntSort() and l[4]]
        K = [l for l in L if l[1] == z3.SeqSort(STR)]
        return [(('none', z[0], k[0], q[0], w), (lambda s, z=z[3], k=k[3], q=q[3], w=w: forall(z(s), 0, lambda j: z3.Not((z3.PrefixOf if w == 'p' else z3.SuffixOf)(key_at(k(s), j), q(s)))))) for z in Z for k in K for q in Q for w in 'ps']
    keys = []
    if 'list' in kind:
        e.user_cands.append(words)
        e.user_cands.append(lambda e, st, mods, L: [(('the-list', k[0]), (lambda s, k=k[3]: k(s) == keys[0])) for k in L if keys and k[1] == keys[0].sort()])
    def post(e, k, v, ctx):
        e.check(z3.BoolVal(k == 'return'), 'post:returns')
        if k != 'return': return
        w = e.st.ghost.get('witness')
        t = ctx['truth']
        if z3.is_quantifier(t) and t.is_exists() and z3.is_true(simp(v)) and w is not None and t.var_sort(0) == STR: t = z3.substitute_vars(t.body(), w)
        e.check(v == t, 'post:the-value-of-the-condition')
    e.verify(f, setup, post)

def pf_dispatch(e):
    """processLogical: each condition is evaluated by its own function, anything else is false"""
    t = setup_all(e)
    f = e.func('processLogical', 'TransferBase')
    called = {}
    for kind, fn in FN.items():
        if kind == 'test': continue
        def c(e, n, obj, args, kind=kind):
            x = t.node(e.rv(args[0]))
            e.check(x == e.st.ghost['node'], 'dispatch:the-same-node')
            e.check(t.name(x) == t.lit(kind), 'dispatch:%s' % kind)
            return t.sem(x)
        e.contracts['TransferBase::' + fn] = c
    def setup(e, ctx):
        ctx['this'] = e.new_cell(this_object(e, 'TransferBase', f), ('cls', 'TransferBase'), 'this')
        n = e.st.ghost['node'] = e.fresh(NODE, 'node')
        e.add(n != t.null)
        return [n]
    def post(e, k, v, ctx):
        n = e.st.ghost['node']
        known = z3.Or([t.name(n) == t.lit(x) for x in FN if x != 'test'])
        e.check(z3.BoolVal(k == 'return'), 'post:returns')
        if k == 'return': e.check(v == z3.And(known, t.sem(n)), 'post:the-value-of-the-condition')
    e.verify(f, setup, post)

def pf_text(e, nm):
    """beginsWith, endsWith"""
    f = e.func(nm, 'TransferBase')
    def setup(e, ctx):
        ctx['this'] = e.new_cell(this_object(e, 'TransferBase', f), ('cls', 'TransferBase'), 'this')
        ctx['a'], ctx['b'] = [e.fresh(('seq', ('int', 16, False)), x) for x in 'ab']
        return [ctx['a'], ctx['b']]
    def same(e, st, mods, L):
        Q = [l for l in L if l[1] == STR]
        Z = [l for l in L if l[1] == z3.IntSort()]
        cut = lambda s, a: z3.SubSeq(s, I(0), a)
        n = z3.Length
        tail = lambda s, a, k: forall(n(s), a + 1, k)
        out = [(('len', p[0], q[0]), (lambda s, p=p[3], q=q[3]: n(p(s)) <= n(q(s)))) for p in Q for q in Q if p is not q]
        out += [(('bound', z[0], p[0]), (lambda s, z=z[3], p=p[3]: z3.And(z(s) >= 0, z(s) <= n(p(s))))) for z in Z if z[4] for p in Q]
        out += [(('same-head', z[0], p[0], q[0]), (lambda s, z=z[3], p=p[3], q=q[3]: cut(p(s), z(s)) == cut(q(s), z(s)))) for z in Z if z[4] for p, q in itertools.combinations(Q, 2)]
        for z in Z:
            if z[4]: out += [(('least', z[0]), (lambda s, z=z[3]: z(s) >= -1))]
            for y in Z:
                if y is z or not (z[4] and y[4]): continue
                for p, q in itertools.combinations(Q, 2):
                    f = lambda g: (lambda s, z=z[3], y=y[3], p=p[3], q=q[3]: g(z(s), y(s), p(s), q(s)))
                    out += [(('same-distance', z[0], y[0], p[0], q[0]), f(lambda z, y, p, q: z - n(p) == y - n(q))),
                            (('same-tail', z[0], y[0], p[0], q[0]), f(lambda z, y, p, q: z3.SubSeq(p, z + 1, n(p) - z - 1) == z3.SubSeq(q, y + 1, n(q) - y - 1)))]
        return out
    e.user_cands.append(same)
    old = e.on_index
    def split(lv, s, i):                # what is read is the first element of the rest
        old(lv, s, i)
        e.add(z3.Implies(z3.And(i >= 0, i < z3.Length(s)), z3.SubSeq(s, i, z3.Length(s) - i) == z3.Concat(z3.Unit(s[i]), z3.SubSeq(s, i + 1, z3.Length(s) - i - 1))))
    if nm == 'endsWith': e.on_index = split
    def post(e, k, v, ctx):
        e.check(z3.BoolVal(k == 'return'), 'post:returns')
        if k == 'return': e.check(v == (z3.PrefixOf if nm == 'beginsWith' else z3.SuffixOf)(ctx['b'], ctx['a']), 'post:begins-or-ends-with')
    e.verify(f, setup, post)

def pf_two(e):
    t = setup_all(e)
    f = e.func('twoChildren', 'TransferBase')
    def setup(e, ctx):
        ctx['this'] = e.new_cell(this_object(e, 'TransferBase', f), ('cls', 'TransferBase'), 'this')
        n = ctx['n'] = e.fresh(NODE, 'node')
        e.add(n != t.null)
        return [n]
    def post(e, k, v, ctx):
        e.check(z3.BoolVal(k == 'return'), 'post:returns')
        s = t.kids(ctx['n'])
        if k == 'return':
            for i, x in enumerate(('first', 'second')):
                e.check(t.node(v.f[x]) == z3.If(z3.Length(s) > i, s[i], t.null), 'post:the-%s-child' % x)
    e.verify(f, setup, post)

units = [Unit('TransferBase::' + fn, TU, lambda e, kind=kind, **c: pf_condition(e, kind, **c), cfgs=[dict(caseless=b, defined=d) for b in (False, True) for d in (False, True)] if 'list' in kind else [{}]) for kind, fn in FN.items()] + [
    Unit('TransferBase::processLogical', TU, pf_dispatch), Unit('TransferBase::twoChildren', TU, pf_two),
    Unit('TransferBase::beginsWith', TU, lambda e: pf_text(e, 'beginsWith')), Unit('TransferBase::endsWith', TU, lambda e: pf_text(e, 'endsWith'))]
searches = [rules_search(0)]
