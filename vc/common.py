"""Helpers shared by the property modules."""
import z3, itertools
from engine import *
from stdmodel import *
import check
from check import Unit, Search

def stream_setup(e, iid='in'):
    inl = e.new_cell(e.new_input(iid), ('cls', 'InputFile'), 'in')
    e.st.ghost['in:' + iid] = inl
    out = e.new_cell(Rec('UFILE', {'out': seq_lit([]), 'flushed': seq_lit([])}), ('cls', 'UFILE'), '$out')
    e.st.ghost['out'] = out
    return inl, out

def filter_proof(e, func, spec, opts, args, fields, flush=None, cls=None, bytes_=False, on_reject=True):
    """the contract of a stream filter: the output is what the specification automaton produces.

    opts: option -> bool; args(inl, out, opts): the arguments; fields: spec field -> option"""
    f = e.func(func, cls)
    sp = Spec(e, spec, 'in')
    def setup(e, ctx):
        inl, out = stream_setup(e)
        ctx['out'] = out
        r = e.construct(('cls', spec), [], None)
        for k, o in fields.items(): r = r.with_(k, z3.BoolVal(opts[o]))
        sp.start(r)
        return args(e, inl, PtrV(out), {k: z3.BoolVal(v) if isinstance(v, bool) else v for k, v in opts.items()})
    filter_contract(e, f, sp, setup, flush and opts[flush])

def program_proof(e, spec, argv, fields={}, flush=False, pre=None):
    """the same contract for a whole program: main, with these arguments, from standard input to standard output"""
    f = e.func('main')
    sp = Spec(e, spec, 'in')
    def setup(e, ctx):
        inl, out = stream_setup(e)
        ctx['out'] = out
        e.st.ghost['stdin'] = inl
        r = e.construct(('cls', spec), [], None)
        for k, v in fields.items(): r = r.with_(k, z3.BoolVal(v))
        sp.start(r)
        if pre: pre(e)
        av = [str_lit(a) for a in ['program'] + list(argv)]
        a = e.new_cell(seq_lit(av, av[0].sort()), ('seq', ('seq', ('int', 8, True))), 'argv')
        vals = [I(len(av)), PtrV(a, I(0))]
        return vals[:len(params(f))]
    filter_contract(e, f, sp, setup, flush)

def filter_contract(e, f, sp, setup, flush):
    def ask(e, name):
        """a bool method of the specification, on its current state"""
        return e.ask_spec(sp, name)
    final = [g for g in e.byname.get('final', []) if e.cls_of(g) == sp.name]
    def post(e, kind, v, ctx):
        pos = sp.pos(e.st)
        wf = ask(e, 'wellformed')
        ok = kind == 'return' or (kind == 'exit' and is_const_int(simp(v)) and simp(v).as_long() == 0)
        if ok:
            e.check(pos == sp.N, 'post:whole-input-consumed')
            e.check(z3.Implies(wf, e.read(ctx['out']).f['out'] == (e.ask_spec(sp, 'final', raw=True) if final else sp.leaf(e.st, ('out',)))), 'post:output-is-the-specified-text')
        else:
            e.check(z3.BoolVal(kind == 'exit'), 'post:no-exception')
            # rejected: only when no continuation of what was read is well-formed, or the input ends inside a construct
            e.check(z3.And(z3.Not(wf), z3.Or(pos == sp.N, ask(e, 'hopeless'))), 'post:only-malformed-input-is-rejected')
    if flush:
        def owed(e, rec):
            o = e.read(e.st.ghost['out'])
            e.check(z3.Implies(ask(e, 'due'), o.f['flushed'] == o.f['out']), 'get:output-flushed-before-waiting-after-a-NUL')
        e.on_get = owed
    e.verify(f, setup, post)

def all_opts(names):
    out = [{}]
    for n in names: out = [dict(o, **{n: b}) for o in out for b in (False, True)]
    return [dict(opts=o) for o in out]

def used_fields(e, f):
    """names of the members that f, or anything with a body that it may call, mentions"""
    seen, names, todo = set(), set(), [f]
    while todo:
        g = todo.pop()
        if g['id'] in seen: continue
        seen.add(g['id'])
        st = [g]
        while st:
            n = st.pop()
            if n.get('kind') == 'MemberExpr':
                names.add(n.get('name'))
                todo += [h for h in e.byname.get(n.get('name'), []) if e.has_body(h)]
            if n.get('kind') == 'DeclRefExpr':
                todo += [h for h in e.byname.get((n.get('referencedDecl') or {}).get('name'), []) if e.has_body(h)]
            st += [c for c in n.get('inner', []) if isinstance(c, dict)]
    return names

def this_object(e, cls, f, given={}, name=None):
    """an arbitrary object of the class, restricted to the members f can reach"""
    use = used_fields(e, f)
    r = {}
    for n, t, _ in e.allfields(cls):
        if n in given: r[n] = given[n]
        elif n in use: r[n] = e.fresh(t, n)
    return Rec(cls, r)

LIBF = ['transfer', 'interchunk', 'postchunk', 'transfer_mult', 'transfer_base', 'transfer_token', 'transfer_instr', 'transfer_word', 'interchunk_word', 'trx_reader', 'xml_reader', 'transfer_data', 'transfer_regex', 'apertium_re']
def rules_search(focus, share=1.0):
    """random rules on the real Transfer, Interchunk and Postchunk objects, compared with native/rules_ref.h"""
    return Search('rules', 'rules.cc', '', [], sources=['apertium/%s.cc' % f for f in LIBF], flags=['-DFOCUS=%d' % focus], share=share)

LOOPS = ('WhileStmt', 'DoStmt', 'ForStmt', 'CXXForRangeStmt')
def nodes(n):
    st = [n]
    while st:
        x = st.pop()
        yield x
        st += [c for c in x.get('inner', []) if isinstance(c, dict)]
def free_vars(f, loop):
    """the local variables of f that the loop uses but does not declare"""
    decls = {x['id']: x for x in nodes(f) if x.get('kind') in ('VarDecl', 'ParmVarDecl')}
    own = {x['id'] for x in nodes(loop) if x.get('kind') == 'VarDecl'}
    used = {x['referencedDecl']['id'] for x in nodes(loop) if x.get('kind') == 'DeclRefExpr' and x.get('referencedDecl')}
    return [decls[i] for i in sorted(used & set(decls) - own)]
def initial(d):
    """the constant a local variable is declared with"""
    i = [x for x in d.get('inner', []) if x.get('kind') and not x['kind'].endswith(('Attr', 'Comment'))]
    while i and i[0]['kind'] in ('ImplicitCastExpr', 'InitListExpr', 'ParenExpr'): i = i[0].get('inner', [])
    if not i: return None
    if i[0]['kind'] == 'IntegerLiteral': return I(int(i[0]['value']))
    if i[0]['kind'] == 'CXXBoolLiteralExpr': return TRUE if i[0]['value'] else FALSE
    return None
def lifted_loop(f, loop):
    """the loop as a function of the variables it uses, passed by reference: cut out of f mechanically"""
    ps = [{'kind': 'ParmVarDecl', 'id': d['id'], 'name': d['name'], 'type': {k: (v[6:] if v.startswith('const ') else v) + ' &' for k, v in d['type'].items() if k in ('qualType', 'desugaredQualType')}} for d in free_vars(f, loop)]
    return {'kind': 'FunctionDecl', 'id': 'lifted' + loop['id'], 'name': f['name'], 'type': {'qualType': 'void ()'}, 'inner': ps + [{'kind': 'CompoundStmt', 'id': 'body' + loop['id'], 'inner': [loop]}]}
