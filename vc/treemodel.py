"""Model of the parsed rule files (libxml2 trees walked with lttoolbox's xml_walk_util):
a node is an opaque value with a name, attributes and a sequence of element children."""
import z3
from engine import *
from stdmodel import model, meth

NODE = ('ptr', ('cls', '_xmlNode'))
STR = z3.SeqSort(z3.IntSort())

class Tree:
    def __init__(self, e):
        self.e = e
        N = self.N = e.sort(NODE)
        e.opaque_ptrs = e.opaque_ptrs | {'_xmlNode', '_xmlAttr', '_xmlDoc', 'xmlNode'}
        self.kids = z3.Function('kids', N, z3.SeqSort(N))
        self.name = z3.Function('name', N, STR)
        self.attr = z3.Function('attr', N, STR, STR)
        self.null = e.nullconst(NODE)
        e.trusted.add('libxml2 trees and lttoolbox children/getattr (a node has a name, attributes and a finite sequence of non-null children)')
        M = lambda *n: model(e, *n)
        def children(e, t, args, n):
            x = self.node(e.rv(args[0]))
            if x.sort() != N: return x                 # a copy of the range object
            e.check(x != self.null, 'null-dereference')
            s = self.children(x)
            return e.new_cell(s, ('seq', NODE), '$kids', key=('kids', n['id']) if n and 'id' in n else None)
        e.models['$ctor:children'] = children
        @M('getattr')
        def _(e, n, args):
            x = self.node(e.rv(args[0]))
            e.check(x != self.null, 'null-dereference')
            return self.attr(x, e.rv(args[1]))
        @M('xmlStrcmp')
        def _(e, n, args):
            a, b = e.rv(args[0]), e.rv(args[1])
            eq = self.text(a) == self.text(b)
            for v in (a, b):
                if z3.is_expr(v) and v.sort() == self.X: eq = z3.And(v != self.nochar, eq)
            return z3.If(eq, I(0), I(1))
        # attributes: a list, each with a name and a non-empty value; at most one of each name
        CH = ('ptr', ('int', 8, False))
        e.opaque_types = e.opaque_types | {CH}
        X = self.X = e.sort(CH)
        AT = ('ptr', ('cls', '_xmlAttr'))
        A = self.A = e.sort(AT)
        self.nochar, self.noattr = e.nullconst(CH), e.nullconst(AT)
        self.aname = z3.Function('attrname', A, STR)
        self.aval = z3.Function('attrvalue', A, X)
        self.anext = z3.Function('nextattr', A, A)
        self.first = z3.Function('properties', N, A)
        self.owner = z3.Function('attrowner', A, N)
        self.upto = z3.Function('attrvalue_before', A, STR, X)       # the value of the attribute of that name among those before
        self.full = z3.Function('attrvalue_of', N, STR, X)           # ... or null
        self.atext = z3.Function('cstr_' + str(X), X, STR)
        self.keys = set()
        self.seen_attrs = []
        # the text of an attribute in either view is the same
        @M('to_ustring')
        def _(e, n, args):
            v = e.rv(args[0])
            e.check(v != self.nochar if z3.is_expr(v) and v.sort() == X else z3.BoolVal(z3.is_expr(v)), 'to_ustring:text-exists')
            return self.text(v)
        self.atoi = z3.Function('atoi', STR, z3.IntSort())
        @M('atoi')
        def _(e, n, args):
            e.trusted.add('atoi')
            r = self.atoi(self.text(e.rv(args[0])))
            e.axiom(z3.And(r >= -2**31 + 1, r < 2**31))        # (positions are counted from 1)
            return r
        old = e.opaque_field
        def opaque_field(p, name, n):
            if p.sort() == N and name == 'name': return self.name(p)
            if p.sort() == N and name == 'properties':
                a = self.first(p)
                for k in self.keys:
                    e.axiom(z3.If(a == self.noattr, self.full(p, str_lit(k)) == self.nochar, z3.And(self.upto(a, str_lit(k)) == self.nochar, self.owner(a) == p)))
                return a
            if p.sort() == A:
                e.check(p != self.noattr, 'null-dereference')
                if name == 'name': return self.aname(p)
                if name == 'next':
                    q = self.anext(p)
                    for k in self.keys:
                        s = str_lit(k)
                        u = z3.If(self.aname(p) == s, self.aval(p), self.upto(p, s))
                        e.axiom(z3.And(self.aval(p) != self.nochar, z3.Implies(self.aname(p) == s, self.upto(p, s) == self.nochar), z3.If(q == self.noattr, self.full(self.owner(p), s) == u, z3.And(self.upto(q, s) == u, self.owner(q) == self.owner(p)))))
                    return q
                if name == 'children': return Rec('attrtext', {'of': p})
            return old(p, name, n)
        old_member = e.member_of_ptr
        def member_of_ptr(p, name, n):
            if isinstance(p, Rec) and p.cls == 'attrtext' and name == 'content':
                a = p.f['of']
                e.axiom(self.aval(a) != self.nochar)
                return self.aval(a)
            return old_member(p, name, n)
        e.member_of_ptr = member_of_ptr
        e.opaque_field = opaque_field
        old_index = e.on_index
        def on_index(lv, s, i):
            old_index(lv, s, i)
            k = simp(s)
            if z3.is_app(k) and k.decl().name() == 'kids':
                e.add(z3.Implies(z3.And(i >= 0, i < z3.Length(k)), k[i] != self.null))
        e.on_index = on_index
    def children(self, x):
        s = self.kids(x)
        for i in (0, 1): self.e.axiom(z3.Implies(z3.Length(s) > i, s[i] != self.null))
        return s
    def value(self, n, key):
        """the value of an attribute (null if there is none), and its text"""
        v = self.full(n, str_lit(key))
        return v, self.atext(v)
    def attr_candidates(self, keys, values={}):
        self.keys |= set(keys)
        def gen(e, st, mods, L):
            P = [l for l in L if l[1] == self.A]
            out = []
            for p in P:
                for nn in [l for l in L if l[1] == self.N] + [(('node',), None, None, lambda s: s.ghost['node'], False)]:
                    u = lambda s, k, p=p[3], nn=nn[3]: z3.If(p(s) == self.noattr, self.full(nn(s), str_lit(k)), self.upto(p(s), str_lit(k)))
                    out.append((('owner', p[0], nn[0]), lambda s, p=p[3], nn=nn[3]: z3.Or(p(s) == self.noattr, self.owner(p(s)) == nn(s))))
                    for k, c in values.items():
                        f = lambda s, u=u, k=k, c=c: z3.And(u(s, k) != self.nochar, self.atext(u(s, k)) == str_lit(c))
                        out += [(('is', p[0], nn[0], k, c), f), (('isnt', p[0], nn[0], k, c), lambda s, f=f: z3.Not(f(s)))]
                    for k in keys:
                        for l in L:
                            key = ('attr', p[0], nn[0], k, l[0])
                            if l[1] == self.X: out.append((key, lambda s, u=u, k=k, l=l[3]: l(s) == u(s, k)))
                            if l[1] == STR: out.append((key, lambda s, u=u, k=k, l=l[3]: l(s) == z3.If(u(s, k) == self.nochar, z3.Empty(STR), self.atext(u(s, k)))))
                            if l[1] == z3.IntSort():
                                out += [(key + (d,), lambda s, u=u, k=k, l=l[3], d=d: l(s) == z3.If(u(s, k) == self.nochar, I(0), self.atoi(self.atext(u(s, k))) + d)) for d in (0, -1)]
            return out
        return gen
    def node(self, v):
        return self.null if isinstance(v, PtrV) and v.lv is None else v
    def text(self, v):
        if z3.is_expr(v) and z3.is_seq(v): return v
        if z3.is_expr(v): return z3.Function('cstr_' + str(v.sort()), v.sort(), STR)(v)
        raise Unsupported('string')
    def lit(self, s): return str_lit(s)

def forall(n, lo, f):
    """f holds of lo..n-1"""
    j = z3.Int('j!')
    return z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < n), f(j)))
def exists(n, lo, f):
    j = z3.Int('j!')
    return z3.Exists([j], z3.And(j >= lo, j < n, f(j)))

def prefix_candidates(preds, sort, los=(0,)):
    """loop-invariant candidates: every element before an index satisfies a predicate"""
    def gen(e, st, mods, L):
        Z = [l for l in L if l[1] == z3.IntSort() and l[4]]
        Q = [l for l in L if l[1] == z3.SeqSort(sort)]
        out = []
        for z in Z:
            for q in Q:
                for nm, p in preds.items():
                    for lo in los:
                        out.append((('all', nm, lo, z[0], q[0]), (lambda s, z=z[3], q=q[3], p=p, lo=lo: forall(z(s), lo, lambda j: p(q(s)[j])))))
        return out
    return gen

def node_candidates(t):
    """a node variable is null, or the child before an index, or the first child if there is one"""
    def gen(e, st, mods, L):
        Z = [l for l in L if l[1] == z3.IntSort() and l[4]]
        Q = [l for l in L if l[1] == z3.SeqSort(t.N)]
        P = [l for l in L if l[1] == t.N]
        out = []
        for z in Z:
            for q in Q:
                for p in P:
                    f = lambda g: (lambda s, z=z[3], q=q[3], p=p[3]: g(z(s), q(s), p(s)))
                    out += [(('first', z[0], q[0], p[0]), f(lambda z, q, p: p == z3.If(z == 0, t.null, q[0]))),
                            (('null-until', z[0], q[0], p[0]), f(lambda z, q, p: z3.Implies(z <= 1, p == t.null))),
                            (('null', p[0]), f(lambda z, q, p: p == t.null)),
                            (('count', z[0]), f(lambda z, q, p: z <= 1))]
        return out
    return gen
