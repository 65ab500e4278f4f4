from common import *
F = ['apertium/wblank-attach.cc']
STR = z3.SeqSort(z3.IntSort())
STRS = z3.SeqSort(STR)
CH = ('int', 8, True)
OPENED, JOINED, TRIMMED, SUM = z3.Function('opened', STRS, STR, STRS), z3.Function('joined', STRS, STR), z3.Function('trimmed', STR, STR), z3.Function('sum', STR, z3.IntSort())
def with_entry(es, p):
    t = TRIMMED(p)
    return z3.If(z3.Or(z3.Length(t) == 0, z3.Contains(es, z3.Unit(t))), es, z3.Concat(es, z3.Unit(t)))
def spec_functions(e):
    e.contracts['opened'] = lambda e, n, obj, args: OPENED(e.as_seq(e, e.rv(args[0])), e.as_seq(e, e.rv(args[1])))
    e.contracts['closed'] = lambda e, n, obj, args: (lambda x, k: simp(z3.SubSeq(x, 0, z3.Length(x) - k)))(e.as_seq(e, e.rv(args[0])), e.rv(args[1]))
    e.contracts['joined'] = lambda e, n, obj, args: JOINED(e.as_seq(e, e.rv(args[0])))
    e.contracts['with_entry'] = lambda e, n, obj, args: with_entry(e.as_seq(e, e.rv(args[0])), e.as_seq(e, e.rv(args[1])))

# ---------------------------------------------------------------- the loops of main
def role(e, d):
    """what a variable of main holds, by its type"""
    t = e.norm(deref(node_type(d)))
    if t[0] != 'seq': return None
    if t[1][0] == 'seq': return 'entries'
    if t[1] == ('int', 8, True): return 'blank'
    if t[1][0] == 'int': return 'stack'
def calls(n, names):
    return any(x.get('kind') == 'MemberExpr' and x.get('name') in names or x.get('kind') == 'DeclRefExpr' and (x.get('referencedDecl') or {}).get('name') in names for x in nodes(n))
def shape(e, n):
    """what the contract of a loop inside main's loop has to be"""
    if n.get('kind') not in LOOPS or calls(n, ('get', 'peek')): return None
    if calls(n, ('cerr',)): return None if calls(n, ('cout', 'put', 'push_back', 'pop_back', 'erase', 'resize', 'clear')) else 'report'
    if calls(n, ('cout',)): return 'join'
    if calls(n, ('trim_wb',)): return 'split'
    if calls(n, ('pop_back', 'erase', 'resize')): return 'close'
def find_loop(e, kind):
    f = e.func('main')
    c = [n for n in nodes(f) if shape(e, n) == kind]
    if not c: raise Unsupported('main has no loop that does this: ' + kind)
    return f, c[0]
def by_role(e, f, loop):
    out = {}
    for d in free_vars(f, loop): out.setdefault(role(e, d) or ('other', d['id']), d)
    return out
def others(e, rs):
    for k, d in rs.items():
        if isinstance(k, tuple):
            v = initial(d)
            if v is None: raise Unsupported('a loop that begins with variables of unknown value')
            yield d, v
def loop_setup(e, ctx, f, loop, given):
    """the loop as a function; the variables with a role are arbitrary, the others have the value they are declared with"""
    rs = by_role(e, f, loop)
    T = {'entries': ('seq', ('seq', CH)), 'stack': ('seq', ('int', 64, False)), 'blank': ('seq', CH)}
    oth = {d['id']: v for d, v in others(e, rs)}
    vals = []
    for d in free_vars(f, loop):
        r = role(e, d)
        if r: ctx[r] = e.new_cell(given[r], T[r], d['name']); vals.append(ctx[r])
        else: vals.append(e.new_cell(oth[d['id']], e.norm(deref(node_type(d))), d['name']))
    return vals
def apply(kind, effect):
    def go(e, n):
        f = e.func('main')
        rs = by_role(e, f, n)
        for d, v in others(e, rs):
            lv = e.st.env[d['id']]
            e.check(e.read(lv) == v, 'loop-contract:starts-as-declared')
            e.write(lv, e.fresh(lv.ty, d['name']))
        effect(e, {r: e.st.env[d['id']] for r, d in rs.items() if not isinstance(r, tuple)})
    return (lambda n: shape(None, n) == kind, go)

def same_values(e, ctx, given, *names):
    for n in names:
        if n in ctx: e.check(e.read(ctx[n]) == given[n], 'post:only-what-is-named-changes')

def join(e):
    """the loop that writes the open entries: it writes joined(entries)"""
    f, loop = find_loop(e, 'join')
    g = lifted_loop(f, loop)
    es, out0 = z3.Const('entries', STRS), z3.Const('out0', STR)
    given = {'entries': es, 'stack': z3.Const('stack', STR), 'blank': z3.Const('blank', STR)}
    sp = SeqSpec(e, 'JoinSpec', es, bits=None)
    def setup(e, ctx):
        _, out = stream_setup(e)
        ctx['out'] = out
        e.write(out, e.read(out).with_('out', out0))
        e.add(z3.Length(es) > 0)
        v = loop_setup(e, ctx, f, loop, given)
        sp.start(e.construct(('cls', 'JoinSpec'), [], None))
        return v
    def cands(e, st, mods, L):
        C = []
        for z in [z for z in L if z[1] == z3.IntSort() and z[4] and not z[0].startswith('S.')]:
            J = sp.fn[('out',)]
            sep = lambda s, z=z[3]: z3.If(z3.And(z(s) > 0, z(s) < z3.Length(es)), str_lit('; '), str_lit(''))
            for q in [q for q in L if q[1] == STR and q[4]]:
                C.append((('join', z[0], q[0]), lambda s, z=z[3], q=q[3]: q(s) == z3.Concat(out0, J(z(s)))))
                C.append((('join;', z[0], q[0]), lambda s, z=z[3], q=q[3], sep=sep: q(s) == z3.Concat(out0, J(z(s)), sep(s))))
            C.append((('n', z[0]), lambda s, z=z[3]: sp.fn[('n',)](z(s)) == z(s)))
        return C
    e.user_cands.append(cands)
    def post(e, kind, v, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind != 'return': return
        e.check(e.read(ctx['out']).f['out'] == z3.Concat(out0, sp.leaf(e.st, ('out',), sp.N)), 'post:the-entries-are-written-with-separators')
        same_values(e, ctx, given, 'entries', 'stack', 'blank')
    e.verify(g, setup, post, 'main: the loop that writes the entries')

def report(e, i):
    """the loops that report what is open to the user: they change nothing"""
    f = e.func('main')
    loops = [n for n in nodes(f) if shape(e, n) == 'report']
    for j, loop in enumerate(loops):
        given = {'entries': z3.Const('entries', STRS), 'stack': z3.Const('stack', STR), 'blank': z3.Const('blank', STR)}
        def setup(e, ctx):
            _, ctx['out'] = stream_setup(e)
            return loop_setup(e, ctx, f, loop, given)
        def post(e, kind, v, ctx):
            e.check(z3.BoolVal(kind == 'return'), 'post:returns')
            same_values(e, ctx, given, 'entries', 'stack', 'blank')
            e.check(z3.Length(e.read(ctx['out']).f['out']) == 0, 'post:nothing-is-output')
        e.verify(lifted_loop(f, loop), setup, post, 'main: report %d' % j)

def close(e):
    """the loop that closes a word-bound blank: it takes away the entries the blank added"""
    f, loop = find_loop(e, 'close')
    g = lifted_loop(f, loop)
    es, st = z3.Const('entries', STRS), z3.Const('stack', STR)
    given = {'entries': es, 'stack': st, 'blank': z3.Const('blank', STR)}
    back = st[z3.Length(st) - 1]
    def setup(e, ctx):
        stream_setup(e)
        e.add(z3.And(z3.Length(st) > 0, back >= 0, back <= z3.Length(es)))
        return loop_setup(e, ctx, f, loop, given)
    def cands(e, s, mods, L):
        C = []
        for z in [z for z in L if z[1] == z3.IntSort() and z[4]]:
            for q in [q for q in L if q[1] == STRS and q[4]]:
                C.append((('closed', z[0], q[0]), lambda s, z=z[3], q=q[3]: z3.And(z(s) >= 0, z(s) <= back, q(s) == z3.SubSeq(es, 0, z3.Length(es) - z(s)))))
                C.append((('to close', z[0], q[0]), lambda s, z=z[3], q=q[3]: z3.And(z(s) >= 0, z(s) <= back, q(s) == z3.SubSeq(es, 0, z3.Length(es) - back + z(s)))))
        return C
    e.user_cands.append(cands)
    def post(e, kind, v, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind != 'return': return
        e.check(e.read(ctx['entries']) == z3.SubSeq(es, 0, z3.Length(es) - back), 'post:exactly-the-entries-of-the-blank-are-closed')
        same_values(e, ctx, given, 'stack', 'blank')
    e.verify(g, setup, post, 'main: the loop that closes a word-bound blank')

def trim_contract(e, n, obj, args):
    lv = e.lv(args[0])
    s = e.read(lv)
    e.write(lv, TRIMMED(s))
def split(e):
    """the loop that reads the entries of a word-bound blank"""
    spec_functions(e)
    e.jumps = True
    f, loop = find_loop(e, 'split')
    g = lifted_loop(f, loop)
    es, st, bl = z3.Const('entries', STRS), z3.Const('stack', STR), z3.Const('blank', STR)
    given = {'entries': es, 'stack': st, 'blank': bl}
    e.contracts['trim_wb'] = trim_contract
    sp = SeqSpec(e, 'SplitSpec', bl, bits=21)
    E, P, X = (sp.fn[(n,)] for n in ('entries', 'part', 'esc'))
    N = sp.N
    final = with_entry(E(N), P(N))
    counted = lambda x: z3.Concat(z3.SubSeq(st, 0, z3.Length(st) - 1), z3.Unit(st[z3.Length(st) - 1] + z3.Length(x) - z3.Length(es)))
    def setup(e, ctx):
        stream_setup(e)
        e.add(z3.Length(st) > 0)
        e.add(z3.Length(TRIMMED(z3.Empty(STR))) == 0)
        v = loop_setup(e, ctx, f, loop, given)
        sp.start(e.construct(('cls', 'SplitSpec'), [], None).with_('entries', es))
        return v
    def cands(e, s, mods, L):
        C = []
        Z = [z for z in L if z[1] == z3.IntSort() and not z[0].startswith('S.')]
        for z in Z:
            C.append((('not escaped', z[0]), lambda s, z=z[3]: z3.Implies(z(s) <= N, z3.Not(X(z(s))))))
            C.append((('no part', z[0]), lambda s, z=z[3]: z3.Implies(z(s) <= N, z3.Length(P(z(s))) == 0)))
            C.append((('bound', z[0]), lambda s, z=z[3]: z3.And(z(s) >= 0, z(s) <= N + 2)))
            C.append((('bound.', z[0]), lambda s, z=z[3]: z3.And(z(s) >= 0, z(s) <= N + 1)))
            for q in [q for q in L if q[1] == STRS and q[4] and not q[0].startswith('S.')]:
                C.append((('entries', z[0], q[0]), lambda s, z=z[3], q=q[3]: z3.Implies(z(s) <= N, q(s) == E(z(s)))))
                C.append((('entries.', z[0], q[0]), lambda s, z=z[3], q=q[3]: z3.Implies(z(s) > N, q(s) == E(N))))
                C.append((('final', z[0], q[0]), lambda s, z=z[3], q=q[3]: z3.Implies(z(s) > N, q(s) == final)))
            for y in Z:
                if y is not z: C.append((('part', z[0], y[0]), lambda s, z=z[3], y=y[3]: z3.And(y(s) >= 0, y(s) <= z(s), y(s) <= N, z3.Implies(z(s) <= N, P(z(s)) == z3.SubSeq(bl, y(s), z(s) - y(s))), z3.Implies(z(s) > N, P(N) == z3.SubSeq(bl, y(s), N - y(s))))))
        for q in [q for q in L if q[1] == STRS and q[4] and not q[0].startswith('S.')]:
            C.append((('longer', q[0]), lambda s, q=q[3]: z3.Length(q(s)) >= z3.Length(es)))
            for w in [w for w in L if w[1] == STR and w[4] and not w[0].startswith('S.')]:
                C.append((('counted', q[0], w[0]), lambda s, w=w[3], q=q[3]: w(s) == counted(q(s))))
        return C
    e.user_cands.append(cands)
    def post(e, kind, v, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind != 'return': return
        x = e.read(ctx['entries'])
        e.check(x == final, 'post:the-entries-in-order-each-once')
        e.check(z3.Length(x) >= z3.Length(es), 'post:no-entry-is-lost')
        if 'stack' in ctx: e.check(e.read(ctx['stack']) == counted(x), 'post:the-entries-added-are-counted')
        same_values(e, ctx, given, 'blank')
    e.verify(g, setup, post, 'main: the loop that reads the entries of a word-bound blank')

# ---------------------------------------------------------------- main, over these contracts
def program(e, z):
    spec_functions(e)
    n = z3.Length
    drop = lambda s: simp(z3.SubSeq(s, 0, n(s) - 1))
    def do_join(e, v):
        es = e.read(v['entries'])
        e.check(n(es) > 0, 'loop-contract:there-are-entries')
        out = e.st.ghost['out']
        o = e.read(out)
        e.write(out, o.with_('out', simp(z3.Concat(o.f['out'], JOINED(es)))))
    def do_close(e, v):
        es, st = e.read(v['entries']), e.read(v['stack'])
        back = simp(st[n(st) - 1])
        e.add(z3.Implies(n(st) > 0, z3.And(SUM(st) == SUM(drop(st)) + back, SUM(drop(st)) >= 0, back >= 0)))
        e.check(n(st) > 0, 'loop-contract:a-blank-is-open')
        e.check(back <= n(es), 'loop-contract:no-more-entries-are-closed-than-are-open')
        e.write(v['entries'], simp(z3.SubSeq(es, 0, n(es) - back)))
    def do_split(e, v):
        es, bl = e.read(v['entries']), e.read(v['blank'])
        new = OPENED(es, bl)
        e.add(n(new) >= n(es))
        e.write(v['entries'], new)
        if 'stack' in v:
            st = e.read(v['stack'])
            e.check(n(st) > 0, 'loop-contract:the-blank-is-counted')
            x = simp(st[n(st) - 1] + n(new) - n(es))
            r = simp(z3.Concat(drop(st), z3.Unit(x)))
            e.add(SUM(r) == SUM(drop(st)) + x)
            e.write(v['stack'], r)
    e.loop_contracts = [apply('join', do_join), apply('close', do_close), apply('split', do_split), apply('report', lambda e, v: None)]
    e.prune = lambda cs: [c for c in cs if c[0][0] in ('qeq', 'sum', 'qe', 'qn', 'z==', 'z!=', 'la', 'la==', 'la!=', 'last', 'qlen', 'zN', 'z=N', 'qi==') or c[0][0] == 'blank']
    def cands(e, st, mods, L):
        def bl(nm, f): return [(('blank', nm, q[0]), lambda s, q=q[3]: f(q(s))) for q in L if q[1] == STR and q[2] and q[2][1][:2] == ('int', 8) and q[4]]
        C = bl('begun', lambda q: n(q) == 1) + bl('[', lambda q: z3.And(n(q) >= 2, q[0] == ord('['), q[1] != ord('['))) + bl('[[', lambda q: z3.And(n(q) >= 2, q[0] == ord('['), q[1] == ord('[')))
        for c in ']\\': C += bl('ends with ' + c, lambda q, c=c: z3.And(n(q) > 0, q[n(q) - 1] == ord(c)))
        for k in (2, 3, 4): C += bl('closed at %d' % k, lambda q, k=k: z3.Or(n(q) <= k, q[2] == ord('\\'), q[3] != ord(']')))
        return C + [(('sum', a[0], b[0]), lambda s, a=a[3], b=b[3]: SUM(a(s)) == n(b(s))) for a in L if a[1] == STR and a[2] and a[2][1][:2] != ('int', 8) for b in L if b[1] == STRS]
    e.user_cands.append(cands)
    program_proof(e, 'AttachSpec', ['-z'] if z else [], {}, flush=True, pre=lambda e: e.add(SUM(z3.Empty(STR)) == 0))

class Inside(SeqSpec):
    """also follows what the code reads of a prefix of the sequence"""
    cell = None
    def on_index(self, e, lv, seq, i):
        if isinstance(lv, Lval) and self.cell is not None and lv.cell == self.cell.cell:
            n, w = z3.Length(seq), self.seq
            pre = z3.And(n <= z3.Length(w), seq == z3.SubSeq(w, 0, n))
            e.add(z3.Implies(z3.And(pre, i >= 0, i < n), seq[i] == w[i]))
            e.add(z3.Implies(z3.And(pre, n > 0), z3.SubSeq(seq, 0, n - 1) == z3.SubSeq(w, 0, n - 1)))
            self.unfold(e, i)
def trim(e):
    """trim_wb: without the separators around the entry, but with an escaped one at its end"""
    f = e.func('trim_wb')
    w = z3.Const('w', STR)
    fr, ba = Inside(e, 'FrontSpec', w, bits=21), Inside(e, 'BackSpec', w, bits=21)
    N = fr.N
    ba.lemmas = [('bounds', lambda p, r: z3.And(r.f['n'] == p, r.f['run'] >= 0, r.f['run'] <= p, r.f['last'] >= 0, r.f['last'] <= p))]
    def setup(e, ctx):
        ctx['wb'] = fr.cell = ba.cell = e.new_cell(w, ('seq', CH), 'wb')
        fr.start(e.construct(('cls', 'FrontSpec'), [], None))
        ba.start(e.construct(('cls', 'BackSpec'), [], None))
        return [ctx['wb']]
    run, last, n, first, stopped = ba.fn[('run',)], ba.fn[('last',)], ba.fn[('n',)], fr.fn[('first',)], fr.fn[('stopped',)]
    def cands(e, st, mods, L):
        C = []
        Z = [z for z in L if z[1] == z3.IntSort() and z[4] and not z[0].startswith('S.')]
        for q in [q for q in L if q[1] == STR and not q[0].startswith('S.')]:
            ln = lambda s, q=q[3]: z3.Length(q(s))
            C.append((('prefix', q[0]), lambda s, q=q[3], ln=ln: z3.And(ln(s) <= N, q(s) == z3.SubSeq(w, 0, ln(s)))))
            C.append((('last', q[0]), lambda s, ln=ln: last(N) == last(ln(s))))
            C.append((('at the end', q[0]), lambda s, ln=ln: z3.And(ln(s) > 0, last(ln(s)) == z3.If(run(ln(s) - 1) % 2 == 1, ln(s), last(ln(s) - 1)))))
            C.append((('n.', q[0]), lambda s, ln=ln: n(ln(s) - 1) == ln(s) - 1))
            C.append((('n', q[0]), lambda s, ln=ln: n(ln(s)) == ln(s)))
            C.append((('trimmed', q[0]), lambda s, ln=ln: last(ln(s)) == ln(s)))
            C.append((('separator', q[0]), lambda s, q=q[3], ln=ln: z3.And(ln(s) > 0, z3.Or(q(s)[ln(s) - 1] == ord(' '), q(s)[ln(s) - 1] == ord(';')))))
            for z in Z: C.append((('run', z[0], q[0]), lambda s, z=z[3], ln=ln: z3.And(z(s) >= 0, z(s) <= ln(s) - 1, run(ln(s) - 1) == z(s) + run(ln(s) - 1 - z(s)))))
            for z in Z: C.append((('within', z[0], q[0]), lambda s, z=z[3], ln=ln: z3.And(z(s) >= 0, z(s) <= ln(s))))
        for z in Z:
            C.append((('first', z[0]), lambda s, z=z[3]: z3.And(first(z(s)) == z(s), z3.Not(stopped(z(s))), last(z(s)) == 0, run(z(s)) == 0)))
        return C
    e.user_cands.append(cands)
    def post(e, kind, v, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind != 'return': return
        e.check(e.read(ctx['wb']) == z3.If(last(N) == 0, z3.Empty(STR), z3.SubSeq(w, first(N), last(N) - first(N))), 'post:exactly-the-separators-around-it-are-removed')
    e.verify(f, setup, post)

A, S = '/repo/apertium/wblank-attach.cc', 'specs/attach_spec.h'
units = [Unit('wblank-attach', [A, S], program, [dict(z=False), dict(z=True)]), Unit('trim_wb', [A, S], trim), Unit('wblank-attach:write-entries', [A, S], join), Unit('wblank-attach:close', [A, S], close), Unit('wblank-attach:report', [A, S], lambda e: report(e, 0)), Unit('wblank-attach:read-entries', [A, S], split)]
TOK = ['^a<n>$', '^a/b<n>$', ' ', 'x', '\n', '[]', '[<b>]', '[[t:b:1]]', '[[t:b:1; u:x]]', '[[u:x]]', '[[a\\]b]]', '[[a\\;b]]', '[[ ; a;; b ;]]', '[[]]', '[[a;a]]', '[[t:b:1]]^c$[[/]]', '\\', '\\^', '\\$', '\\[', '\\]', '^', '$', '[', ']', '[[/]]', '[[/]]', '\u00e9', '\U0001f600', '\0', '^a\\$b$', '^a[b]$', '[a\\]b]', '[[\\\\]]', '[[a\\ ]]']
searches = [Search('wblank-attach', 'c04.cc', '^$[]\\a;/', TOK, files=F, mains=F),
            Search('wblank-attach-program', 'c04_main.cc', '', TOK, files=F, share=0.3, binaries=[dict(src=F, macro='REAL')])]
