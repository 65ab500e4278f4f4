"""A verification-condition generator for the C++ of /repo.

It works on clang's typed AST of the sources as they are compiled (dumped by
astdump on every run).  Functions are executed symbolically, one path at a
time; loops are cut by inductive invariants (inferred Houdini-style from
templates, then re-checked as obligations); calls use the callee's contract
when it has one, a model when the callee is a library function, and otherwise
the callee's own body (inlined).  Every obligation goes to z3, and to cvc5 when
z3 does not decide it.
"""
import json, os, re, subprocess, sys, time, itertools
import z3
from ctypes_ import *
import ctypes_

sys.setrecursionlimit(20000)

# ---------------------------------------------------------------- outcomes
class PathDead(Exception): pass
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class ReturnEx(Exception):
    def __init__(s, v): s.v = v
class ThrowEx(Exception):
    def __init__(s, t, v=None): s.t, s.v = t, v
class ExitEx(Exception):
    def __init__(s, code): s.code = code
class GotoUnsupported(Unsupported): pass
class Arrived(Exception):
    def __init__(s, ctx): s.ctx = ctx
class Restart(Exception): pass

# ---------------------------------------------------------------- values
class Lval:
    __slots__ = ('cell', 'path', 'ty')
    def __init__(s, cell, path=(), ty=None): s.cell, s.path, s.ty = cell, path, ty
    def sub(s, step, ty=None): return Lval(s.cell, s.path + (step,), ty)
    def key(s): return (s.cell, tuple((p[0], p[1] if isinstance(p[1], str) else p[1].sexpr()) for p in s.path))
class Rec:
    __slots__ = ('cls', 'f')
    def __init__(s, cls, f): s.cls, s.f = cls, f
    def with_(s, k, v):
        g = dict(s.f); g[k] = v
        return Rec(s.cls, g)
class PtrV:
    """pointer: to an lvalue, or null (lv is None)"""
    __slots__ = ('lv', 'idx')
    def __init__(s, lv, idx=None): s.lv, s.idx = lv, idx
class IterV:
    __slots__ = ('lv', 'idx', 'rev')
    def __init__(s, lv, idx, rev=False): s.lv, s.idx, s.rev = lv, idx, rev
class MapV:
    """map or set: dom: K->Bool, val: K->V (None for sets), keys: Seq of keys in order"""
    __slots__ = ('kt', 'vt', 'dom', 'val')
    def __init__(s, kt, vt, dom, val): s.kt, s.vt, s.dom, s.val = kt, vt, dom, val
def key_at(keys, j):
    """the j-th key of a map or set, given the sequence of its keys"""
    dom, srt = keys.arg(0), keys.sort().basis()
    return z3.Function('keyat_%s' % re.sub(r'\W', '_', str(srt)), dom.sort(), z3.IntSort(), srt)(dom, j)
class MapIter:
    """an iterator of a map or set: at a key (find), or at an index of the keys there were when the iteration began"""
    __slots__ = ('lv', 'key', 'found', 'idx', 'snap')
    def __init__(s, lv, key, found, idx=None, snap=None): s.lv, s.key, s.found, s.idx, s.snap = lv, key, found, idx, snap
    def at(s, i): return MapIter(s.lv, simp(key_at(s.snap[1], i)), simp(i < z3.Length(s.snap[1])), i, s.snap)
class LambdaV:
    __slots__ = ('node', 'env')
    def __init__(s, node, env): s.node, s.env = node, env
class StreamV:
    """an ostream: its text is a ghost cell"""
    __slots__ = ('cell',)
    def __init__(s, cell): s.cell = cell

def I(n): return z3.IntVal(n)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
def is_const_int(e): return z3.is_int_value(e)
def seq_lit(vals, sort=None):
    if sort is None: sort = z3.IntSort()
    if not vals: return z3.Empty(z3.SeqSort(sort))
    us = [z3.Unit(I(v) if isinstance(v, int) else v) for v in vals]
    return us[0] if len(us) == 1 else z3.Concat(*us)
def str_lit(s): return seq_lit([ord(c) for c in s])
def empty_of(t_seq_sort): return z3.Empty(t_seq_sort)
def cat(*xs):
    ys = []
    for x in xs:
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_EMPTY: continue
        ys.append(x)
    if not ys: return xs[0]
    return ys[0] if len(ys) == 1 else z3.Concat(*ys)

class State:
    """one symbolic path"""
    def __init__(s):
        s.cells, s.ctype, s.cname = {}, {}, {}
        s.env, s.frames = {}, []
        s.globals = {}
        s.this = None
        s.pc = []
        s.ncell = 0
        s.callstr = ()
        s.in_setup = True
        s.basepc = 0; s.basefresh = 0
        s.segs = []; s.replay = False
        s.nfresh = 0
        s.unfolded = {}
        s.specval = {}
        s.ghost = {}
        s.trace = []
        s.dec = []
        s.prefix = []
        s.work = None
        s.solver = None
        s.tag = ''
        s.depth = 0
    def clone(s):
        t = State()
        t.cells, t.ctype, t.cname = dict(s.cells), dict(s.ctype), dict(s.cname)
        t.env = dict(s.env); t.frames = [(dict(a), b, c) for a, b, c in s.frames]
        t.globals = dict(s.globals)
        t.this = s.this
        t.pc = list(s.pc)
        t.ncell, t.nfresh = s.ncell, s.nfresh
        t.callstr, t.in_setup, t.basepc, t.basefresh = s.callstr, s.in_setup, s.basepc, s.basefresh
        t.unfolded = dict(s.unfolded); t.specval = dict(s.specval); t.ghost = dict(s.ghost)
        t.trace = list(s.trace)
        t.tag = s.tag; t.depth = s.depth
        return t

class Obligation:
    def __init__(s, name, where): s.name, s.where, s.status, s.n, s.backend, s.time, s.model = name, where, 'discharged', 0, {}, 0.0, None

CVC5 = '/usr/bin/cvc5'

class Solver(z3.Solver):
    def check(self, *a):
        try: return super().check(*a)
        except z3.Z3Exception: return z3.unknown

class Engine:
    def __init__(self, src, roots=('/repo/',), flags=(), astdump=None, log=None, timeout=10000):
        self.log = log or (lambda *a: None)
        self.decls, self.byname, self.bymangled, self.id2mangled = {}, {}, {}, {}
        self.classes, self.enums, self.enumconst, self.fieldids = {}, {}, {}, {}
        self.methods = {}
        self.memberid = {}
        self.globalvars = {}
        self.load(src, roots, flags, astdump)
        self.models = {}            # function name -> python model
        self.methodmodels = {}      # (class, method) -> model
        self.contracts = {}
        self.obls = {}
        self.sorts = {}
        self.opsorts = {}
        self.specs = []
        self.st = None
        self.inferring = 0
        self.timeout = timeout
        self.feas_timeout = 600
        self.inlined, self.trusted, self.contracted = set(), set(), set()
        self.stats = dict(queries=0, z3=0, cvc5=0, time=0.0, paths=0, loops=0, candidates=0, invariants=0)
        self.user_cands = []
        self.axioms = {}
        self.assumed = set()
        self.maxpaths = 20000
        self.deadline = None
        self.strictbounds = True
        self.failed_models = []
        import stdmodel
        stdmodel.install(self)

    # ------------------------------------------------------------ loading
    def load(self, src, roots, flags, astdump):
        out = '/tmp/vc_ast_%d.json' % os.getpid()
        cmd = [astdump, out] + ['-root=' + r for r in roots] + [src, '--'] + list(flags)
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            try: os.unlink(out)
            except OSError: pass
            raise Unsupported('clang could not parse the translation unit:\n' + p.stderr[-2000:])
        txt = open(out).read(); os.unlink(out)
        self.tops = [json.loads(t) for t in txt.split('\n\x1e\n') if t.strip()]
        for d in self.tops: annotate(d)
        self.nodes, self.parent = {}, {}
        for d in self.tops: self.link(d)
        for d in self.tops: self.index(d, None)

    def link(self, d):
        todo = [d]
        while todo:
            n = todo.pop()
            if not isinstance(n, dict): continue
            for c in n.get('inner', []):
                if isinstance(c, dict) and 'id' in c:
                    self.parent[c['id']] = n
                    self.nodes[c['id']] = c
                todo.append(c)

    def has_body(self, d):
        return any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in d.get('inner', []))

    def index(self, d, cls):
        k = d.get('kind')
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            self.decls[d['id']] = d
            m = d.get('mangledName')
            if cls: self.memberid[d['id']] = (cls, d)
            if m:
                self.id2mangled[d['id']] = m
                if self.has_body(d): self.bymangled[m] = d
            if self.has_body(d):
                d['_cls'] = cls
                self.byname.setdefault(d.get('name'), []).append(d)
            if 'parentDeclContextId' in d and not cls:
                d['_cls'] = self.clsid.get(d['parentDeclContextId']) if hasattr(self, 'clsid') else None
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            if not hasattr(self, 'clsid'): self.clsid = {}
            name = d.get('name', 'anon_' + d['id'])
            full = (cls + '::' + name) if cls else name
            self.clsid[d['id']] = full
            if d.get('completeDefinition') or any(c.get('kind') == 'FieldDecl' for c in d.get('inner', [])):
                bases = [parse(b['type'].get('desugaredQualType', b['type']['qualType']))[1] for b in d.get('bases', [])]
                fields = []
                for c in d.get('inner', []):
                    if c['kind'] == 'FieldDecl' and 'name' in c:
                        fields.append((c['name'], node_type(c), c))
                        self.fieldids[c['id']] = (full, c['name'])
                self.classes[full] = dict(fields=fields, bases=bases, node=d)
                if full != name: self.classes.setdefault(name, self.classes[full])
            for c in d.get('inner', []): self.index(c, full)
        elif k == 'ClassTemplateDecl':
            for c in d.get('inner', []):
                if c.get('kind') == 'ClassTemplateSpecializationDecl':
                    args = [node_arg(a) for a in c.get('inner', []) if a.get('kind') == 'TemplateArgument']
                    c = dict(c); c['name'] = d['name'] + '<' + ', '.join(args) + '>'
                    self.index(c, cls)
        elif k == 'FunctionTemplateDecl':
            for c in d.get('inner', []):
                if c.get('kind') in ('FunctionDecl', 'CXXMethodDecl') and self.has_body(c): self.index(c, cls)
        elif k == 'EnumDecl':
            name = d.get('name', 'anon_' + d['id'])
            full = (cls + '::' + name) if cls else name
            vals, nxt = [], 0
            for c in d.get('inner', []):
                if c['kind'] != 'EnumConstantDecl': continue
                v = find_const(c)
                if v is None: v = nxt
                nxt = v + 1
                self.enumconst[c['id']] = v
                vals.append((c['name'], v))
            self.enums[full] = vals
            self.enums.setdefault(name, vals)
        elif k == 'VarDecl':
            self.globalvars[d['id']] = d
        elif k in ('LinkageSpecDecl', 'NamespaceDecl'):
            for c in d.get('inner', []): self.index(c, cls)

    def func(self, name, cls=None, nparams=None):
        """definition of function `name` (method of cls)"""
        c = [d for d in self.byname.get(name, [])
             if (cls is None or self.cls_of(d) == cls)
             and (nparams is None or len(params(d)) == nparams)]
        if not c: raise Unsupported('function %s%s is not defined in the translation unit' % ((cls + '::') if cls else '', name))
        return c[0]

    def cls_of(self, d):
        if d.get('_cls'): return d['_cls']
        p = d.get('parentDeclContextId')
        if p: return self.clsid.get(p)
        m = self.id2mangled.get(d['id'])
        return None

    # ------------------------------------------------------------ types/sorts
    def norm(self, t):
        if t[0] == 'cls':
            if t[1] in self.enums: return ('enum', t[1])
            if '::' in t[1] and t[1].split('::')[-1] in self.enums: return ('enum', t[1].split('::')[-1])
        return t

    def sort(self, t):
        t = self.norm(t)
        if t in self.sorts: return self.sorts[t]
        k = t[0]
        if k == 'bool': s = z3.BoolSort()
        elif k in ('int', 'enum'): s = z3.IntSort()
        elif k == 'double': s = z3.RealSort()
        elif k == 'seq': s = z3.SeqSort(self.sort(t[1]))
        elif k == 'pair': s = self.mkdt('Pair_%d' % len(self.sorts), [('first', t[1]), ('second', t[2])])
        elif k == 'opt': s = self.mkdt('Opt_%d' % len(self.sorts), [('has', ('bool',)), ('val', t[1])])
        elif k == 'cls' and t[1] in self.classes:
            fl = self.allfields(t[1])
            s = self.mkdt('C_' + re.sub(r'\W', '_', t[1]), [(n, ft) for n, ft, _ in fl])
        elif k == 'map':
            ks = self.sort(t[1])
            d = z3.Datatype('Map_%d' % len(self.sorts))
            d.declare('mk', ('dom', z3.ArraySort(ks, z3.BoolSort())), ('val', z3.ArraySort(ks, self.sort(t[2]))))
            s = d.create()
        elif k == 'set':
            ks = self.sort(t[1])
            d = z3.Datatype('Set_%d' % len(self.sorts))
            d.declare('mk', ('dom', z3.ArraySort(ks, z3.BoolSort())))
            s = d.create()
        else:
            if k == 'ptr' and t[1][0] == 'cls' and t[1][1].startswith('_'):      # xmlNode is struct _xmlNode
                return self.sorts.setdefault(t, self.sort(('ptr', ('cls', t[1][1][1:]))))
            nm = 'O_' + re.sub(r'\W', '_', str(t))
            s = z3.DeclareSort(nm)
        self.sorts[t] = s
        return s

    def mkdt(self, name, fields):
        d = z3.Datatype(name)
        d.declare('mk', *[(n, self.sort(ft)) for n, ft in fields])
        return d.create()

    def allfields(self, cls):
        out = []
        c = self.classes[cls]
        for b in c['bases']:
            if b in self.classes: out += self.allfields(b)
        return out + c['fields']

    def pack(self, v, t):
        t = self.norm(t)
        if isinstance(v, Rec):
            s = self.sort(t)
            if t[0] == 'pair': return s.mk(self.pack(v.f['first'], t[1]), self.pack(v.f['second'], t[2]))
            if t[0] == 'opt': return s.mk(v.f['has'], self.pack(v.f['val'], t[1]))
            return s.mk(*[self.pack(v.f[n], ft) for n, ft, _ in self.allfields(t[1])])
        if isinstance(v, MapV):
            s = self.sort(t)
            return s.mk(v.dom, v.val) if t[0] == 'map' else s.mk(v.dom)
        if isinstance(v, PtrV):
            if v.lv is None: return self.nullconst(t)
            raise Unsupported('pointer stored inside a container')
        if not z3.is_expr(v): raise Unsupported('cannot store %s in a container' % type(v).__name__)
        return v

    def nullconst(self, t):
        return z3.Const('null_' + str(self.sort(t)), self.sort(t))

    def unpack(self, e, t):
        t = self.norm(t)
        k = t[0]
        if k == 'pair':
            s = self.sort(t)
            return Rec('pair', {'first': self.unpack(simp(s.first(e)), t[1]), 'second': self.unpack(simp(s.second(e)), t[2])})
        if k == 'opt':
            s = self.sort(t)
            return Rec('opt', {'has': simp(s.has(e)), 'val': self.unpack(simp(s.val(e)), t[1])})
        if k == 'cls' and t[1] in self.classes:
            s = self.sort(t)
            fl = self.allfields(t[1])
            return Rec(t[1], {n: self.unpack(simp(s.accessor(0, i)(e)), ft) for i, (n, ft, _) in enumerate(fl)})
        if k == 'map':
            s = self.sort(t)
            return MapV(t[1], t[2], simp(s.dom(e)), simp(s.val(e)))
        if k == 'set':
            s = self.sort(t)
            return MapV(t[1], None, simp(s.dom(e)), None)
        return e

    # ------------------------------------------------------------ fresh / facts
    def fresh(self, t, name):
        """arbitrary value of type t (with its machine range assumed)"""
        t = self.norm(deref(t))
        k = t[0]
        if k == 'pair': return Rec('pair', {'first': self.fresh(t[1], name + '.first'), 'second': self.fresh(t[2], name + '.second')})
        if k == 'opt': return Rec('opt', {'has': self.fresh(('bool',), name + '.has'), 'val': self.fresh(t[1], name + '.val')})
        if k == 'cls' and t[1] in self.classes and not self.is_opaque(t[1]):
            return Rec(t[1], {n: self.fresh(ft, name + '.' + n) for n, ft, _ in self.allfields(t[1])})
        if k == 'cls' and t[1] == 'InputFile': return self.new_input(name)
        self.st.nfresh += 1
        nm = '%s!%d%s' % (name, self.st.nfresh, self.st.tag)
        if k in ('map', 'set'):
            ks = self.sort(t[1])
            dom = z3.Const(nm + '.dom', z3.ArraySort(ks, z3.BoolSort()))
            val = z3.Const(nm + '.val', z3.ArraySort(ks, self.sort(t[2]))) if k == 'map' else None
            return MapV(t[1], t[2] if k == 'map' else None, dom, val)
        e = z3.Const(nm, self.sort(t))
        self.range_fact(e, t)
        return e

    opaque_classes = set()
    def is_opaque(self, c): return c in self.opaque_classes

    def range_fact(self, e, t):
        if t[0] == 'int':
            lo, hi = int_range(t)
            self.add(z3.And(e >= lo, e <= hi))
        elif t[0] == 'enum':
            vs = [v for _, v in self.enums[t[1]]]
            if vs: self.add(z3.And(e >= min(vs), e <= max(vs)))

    def default(self, t, name='v'):
        """value-initialised"""
        t = self.norm(deref(t)); k = t[0]
        if k == 'bool': return FALSE
        if k in ('int', 'enum'): return I(0)
        if k == 'double': return z3.RealVal(0)
        if k == 'seq': return z3.Empty(self.sort(t))
        if k == 'pair': return Rec('pair', {'first': self.default(t[1]), 'second': self.default(t[2])})
        if k == 'map': 
            return MapV(t[1], t[2], z3.K(self.sort(t[1]), FALSE), z3.Const('dflt_%s' % (str(self.sort(t))), z3.ArraySort(self.sort(t[1]), self.sort(t[2]))))
        if k == 'set': return MapV(t[1], None, z3.K(self.sort(t[1]), FALSE), None)
        if k == 'opt': return Rec('opt', {'has': FALSE, 'val': self.fresh(t[1], name)})
        if k == 'ptr': return PtrV(None)
        if k == 'cls' and t[1] == 'InputFile': return self.new_input(name)
        if k == 'cls' and t[1] in self.classes and not self.is_opaque(t[1]): return self.construct(t, [], None)
        return self.fresh(t, name)

    # ------------------------------------------------------------ path handling
    def add(self, c):
        c = simp(c)
        if z3.is_true(c): return
        if self.st.replay: return
        self.st.pc.append(c)
        if self.st.solver is not None: self.st.solver.add(c)
        if z3.is_false(c): raise PathDead()

    def mksolver(self, pc, timeout=None):
        s = Solver()
        s.set('timeout', timeout or self.timeout)
        for c in pc: s.add(c)
        return s

    def axiom(self, f):
        """a fact that holds on every path (about uninterpreted functions or names introduced for terms); kept at loop heads"""
        if not z3.is_quantifier(f): f = simp(f)
        self.axioms[f.get_id()] = f
        if self.st.replay: return
        self.st.pc.append(f)
        if self.st.solver is not None: self.st.solver.add(f)

    def feasible(self, c):
        self.tick()
        st = self.st
        if st.solver is None: st.solver = self.mksolver(st.pc, self.feas_timeout)
        st.solver.push()
        st.solver.add(c)
        t = time.time()
        st.solver.set('timeout', self.feas_timeout)
        r = st.solver.check()
        self.stats['time'] += time.time() - t
        self.stats['queries'] += 1
        st.solver.pop()
        return r != z3.unsat

    def tick(self):
        if self.deadline and time.time() > self.deadline: raise Unsupported('time limit of the proof reached')

    def choose(self, cond):
        c = simp(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        st = self.st
        k = len(st.dec)
        if k < len(st.prefix):
            b = st.prefix[k]
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c)) if t else True
            if t and f:
                b = True
                if st.work is not None: st.work.append(st.dec + [False])
            elif t: b = True
            else:
                if not self.feasible(z3.Not(c)): raise PathDead()
                b = False
        st.dec.append(b)
        self.add(c if b else z3.Not(c))
        return b

    def explore(self, base, fn, end):
        """run fn on every path from base; end(outcome, payload) at each path's end"""
        work = [[]]
        saved = self.st
        n = 0
        while work:
            self.tick()
            prefix = work.pop()
            st = base.clone()
            st.prefix, st.work, st.dec = prefix, work, []
            st.solver = None
            self.st = st
            n += 1
            if n > self.maxpaths: 
                self.st = saved
                raise Unsupported('too many paths')
            self.stats['paths'] += 1
            try:
                try:
                    r = fn()
                    end('next', r)
                except ReturnEx as e: end('return', e.v)
                except BreakEx: end('break', None)
                except ContinueEx: end('continue', None)
                except ExitEx as e: end('exit', e.code)
                except ThrowEx as e: end('throw', e)
            except PathDead:
                pass
            except BaseException:
                self.st = saved
                raise
        self.st = saved

    # ------------------------------------------------------------ obligations
    def check(self, cond, name, where=None, assume=True):
        """obligation: cond holds here"""
        c = simp(cond)
        if self.inspec and z3.is_true(c): return True
        if self.inferring or self.st.replay:
            if not z3.is_true(c) and assume: self.add(c)
            return True
        where = where or self.where()
        key = (name, where)
        o = self.obls.get(key)
        if o is None: o = self.obls[key] = Obligation(name, where)
        o.n += 1
        if z3.is_true(c): o.backend['simplifier'] = o.backend.get('simplifier', 0) + 1; return True
        t = time.time()
        r, backend, model = self.prove(self.st.pc, c)
        dt = time.time() - t
        o.time += dt
        o.backend[backend] = o.backend.get(backend, 0) + 1
        if r == 'valid': ok = True
        else:
            ok = False
            if o.status != 'failed':
                o.status = 'failed' if r == 'invalid' else 'unknown'
                o.model = dict(result=r, model=model, path=list(self.st.trace[-40:]), goal=str(c)[:2000])
        if assume: self.add(c)
        return ok

    def prove(self, pc, c):
        """is pc => c valid?  z3, then cvc5"""
        self.tick()
        neg = z3.Not(c)
        self.stats['queries'] += 1
        t0 = time.time()
        s = self.mksolver(pc + [neg])
        r = s.check()
        self.stats['time'] += time.time() - t0
        if r == z3.unsat:
            self.stats['z3'] += 1
            return 'valid', 'z3', None
        if r == z3.sat:
            m = s.model()
            return 'invalid', 'z3', self.show_model(m)
        # one conjunct at a time, other seeds
        if z3.is_and(c):
            for x in c.children():
                r, backend, m = self.prove(pc, x)
                if r != 'valid': return r, backend, m
            return 'valid', backend, None
        for seed in (7, 23):
            t0 = time.time()
            s2 = self.mksolver(pc + [neg])
            s2.set('random_seed', seed)
            r = s2.check()
            self.stats['time'] += time.time() - t0
            if r == z3.unsat:
                self.stats['z3'] += 1
                return 'valid', 'z3', None
            if r == z3.sat: return 'invalid', 'z3', self.show_model(s2.model())
        # second opinion
        t0 = time.time()
        try:
            res = self.run_cvc5(s, 20)
        except Exception as e:
            res = 'unknown'
        self.stats['time'] += time.time() - t0
        if res == 'unsat':
            self.stats['cvc5'] += 1
            return 'valid', 'cvc5', None
        if res == 'sat': return 'invalid', 'cvc5', 'cvc5 reports a countermodel'
        return 'undecided', 'z3+cvc5', s.reason_unknown()

    def run_cvc5(self, solver, secs):
        txt = solver.to_smt2()
        txt = '(set-logic ALL)\n' + txt
        fn = '/tmp/vc_q_%d.smt2' % os.getpid()
        open(fn, 'w').write(txt)
        exe = CVC5
        if not os.path.exists(exe):
            import shutil
            exe = shutil.which('cvc5')
        p = subprocess.run([exe, '--strings-exp', '--tlimit=%d' % (secs * 1000), fn], capture_output=True, text=True)
        os.unlink(fn)
        return p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'

    def show_model(self, m):
        out = {}
        for d in m.decls():
            try:
                if d.arity() == 0: out[d.name()] = str(m[d])[:200]
                else: out[d.name()] = str(m[d])[:300]
            except Exception: pass
        return out

    def where(self):
        return self.st.trace[-1] if self.st.trace else '?'

    # ------------------------------------------------------------ cells
    opaque_ptrs = frozenset()
    opaque_types = frozenset()
    def plain(self, v, t):
        """a null pointer stored where pointers are opaque values"""
        if isinstance(v, PtrV) and v.lv is None and t and self.opaque_ptrs:
            t = deref(t)
            if t[0] == 'ptr' and t[1][0] == 'cls' and t[1][1] in self.opaque_ptrs or t in self.opaque_types: return self.nullconst(t)
        return v

    def new_cell(self, v, t, name=None, key=None):
        st = self.st
        v = self.plain(v, t)
        if key is not None: c = ((), key) if key[0] == 'g' else (st.callstr, key)
        else:
            st.ncell += 1
            c = ('b' if st.in_setup else 't', st.ncell)
        st.cells[c] = v
        st.ctype[c] = t
        st.cname[c] = name
        return Lval(c, (), t)

    def read(self, lv):
        v = self.st.cells[lv.cell]
        for p in lv.path: v = self.sel(v, p)
        return v

    def sel(self, v, p):
        if p[0] == 'f':
            if isinstance(v, Rec):
                if p[1] not in v.f: raise Unsupported('no field %s in %s' % (p[1], v.cls))
                return v.f[p[1]]
            raise Unsupported('field %s of %s' % (p[1], type(v).__name__))
        if p[0] == 'i':
            return self.unpack(self.nth(v, p[1]), p[2])
        if p[0] == 'k':
            return self.unpack(simp(z3.Select(v.val, p[1])), p[2])
        raise Unsupported('path')

    def nth(self, s, i):
        return simp(s[i])

    def write(self, lv, v):
        st = self.st
        v = self.plain(v, lv.ty)
        if not lv.path: st.cells[lv.cell] = v
        else: st.cells[lv.cell] = self.upd(st.cells[lv.cell], lv.path, v)

    frame_facts = False          # say what an assignment to an element leaves as it was
    def upd(self, v, path, new):
        if not path: return new
        p = path[0]
        if p[0] == 'f': return v.with_(p[1], self.upd(v.f[p[1]], path[1:], new))
        if p[0] == 'i':
            old = self.unpack(self.nth(v, p[1]), p[2]) if len(path) > 1 else None
            nv = self.pack(self.upd(old, path[1:], new) if len(path) > 1 else new, p[2])
            i = p[1]
            if not self.frame_facts: return simp(cat(z3.SubSeq(v, I(0), i), z3.Unit(nv), z3.SubSeq(v, i + 1, z3.Length(v) - i - 1)))
            self.st.nfresh += 1
            r = z3.Const('assigned!%d' % self.st.nfresh, v.sort())
            self.add(z3.Implies(z3.And(i >= 0, i < z3.Length(v)), z3.And(z3.Length(r) == z3.Length(v), r[i] == nv, rest_from(r, i + 1) == rest_from(v, i + 1))))
            return r
        if p[0] == 'k':
            old = self.unpack(simp(z3.Select(v.val, p[1])), p[2]) if len(path) > 1 else None
            nv = self.pack(self.upd(old, path[1:], new) if len(path) > 1 else new, p[2])
            return MapV(v.kt, v.vt, z3.Store(v.dom, p[1], TRUE), z3.Store(v.val, p[1], nv))
        raise Unsupported('path')

    # ------------------------------------------------------------ streams
    def new_input(self, name):
        """an input stream over an arbitrary text: IN(0..N-1)"""
        return Rec('InputFile', {'$id': name, '$pos': I(0), '$eof': FALSE, '$fail': FALSE})

    # ------------------------------------------------------------ statements
    def run_body(self, d):
        for c in d.get('inner', []):
            if c.get('kind') == 'CompoundStmt': return self.stmt(c)
            if c.get('kind') == 'CXXTryStmt': raise Unsupported('function-try')

    def note(self, n):
        ln = line_of(n)
        if ln: self.st.trace.append(ln)

    def stmt(self, n):
        k = n.get('kind')
        if self.loop_contracts and k in ('WhileStmt', 'DoStmt', 'ForStmt', 'CXXForRangeStmt'):
            for pick, apply in self.loop_contracts:
                if pick(n): self.note(n); return apply(self, n)
        f = getattr(self, 's_' + k, None)
        if f: return f(n)
        # expression statement
        self.note(n)
        self.ev(n)

    def s_CompoundStmt(self, n):
        st, keys = self.st, list(self.st.env)
        env = st.env
        try:
            for c in n.get('inner', []): self.stmt(c)
        finally:
            if self.st is st and st.env is env and len(env) != len(keys):
                keep = set(keys)
                for k in [k for k in env if k not in keep]: del env[k]

    def s_NullStmt(self, n): pass

    def s_DeclStmt(self, n):
        self.note(n)
        for c in n.get('inner', []):
            if c['kind'] == 'VarDecl': self.decl_var(c)
            elif c['kind'] in ('CXXRecordDecl', 'EnumDecl'): self.index(c, None)
            elif c['kind'] in ('UsingDecl', 'UsingDirectiveDecl', 'TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl'): pass
            elif c['kind'] == 'DecompositionDecl': raise Unsupported('structured binding')
            else: raise Unsupported('declaration ' + c['kind'])

    def decl_var(self, c):
        t = node_type(c)
        init = [x for x in c.get('inner', []) if x.get('kind') and not x['kind'].endswith('Attr') and not x['kind'].endswith('Comment')]
        if c.get('storageClass') == 'static' and not init:
            pass
        if t == ('cls', 'InputFile') and self.st.ghost.get('stdin') is not None:       # the program's standard input
            self.st.env[c['id']] = self.st.ghost['stdin']
            self.st.ghost = dict(self.st.ghost, stdin=None)
            return
        if t[0] == 'ref':
            v = self.ev(init[0])
            if not isinstance(v, Lval): v = self.new_cell(v, t[1], c.get('name'), key=c['id'])
            self.st.env[c['id']] = v
            return
        if not init:
            t = self.norm(t)
            if t[0] in ('int', 'bool', 'enum', 'double', 'ptr'):
                v = self.fresh(t, c.get('name', 'v'))
            else: v = self.default(t, c.get('name', 'v'))
        else:
            if t[0] == 'seq' and init[0]['kind'] in ('InitListExpr',) : v = self.rv(init[0])
            else: v = self.rv(init[0])
            if isinstance(v, Rec) and v.cls == 'InputFile' and v.f['$id'] == '?':
                v = self.new_input(c.get('name', 'in'))
        lv = self.new_cell(v, t, c.get('name'), key=c['id'])
        self.st.env[c['id']] = lv

    def s_IfStmt(self, n):
        inner = [c for c in n['inner']]
        i = 0
        if n.get('hasInit'): self.stmt(inner[0]); i += 1
        if n.get('hasVar'): self.stmt(inner[i]); i += 1
        cond = inner[i]; i += 1
        self.note(cond)
        if self.cond(cond): self.stmt(inner[i])
        elif n.get('hasElse'): self.stmt(inner[i + 1])

    def cond(self, n):
        return self.choose(self.as_bool(self.rv(n)))

    def s_ReturnStmt(self, n):
        self.note(n)
        if not n.get('inner'): raise ReturnEx(None)
        e = n['inner'][0]
        if self.st.frames and self.st.frames[-1][1] == 'ref': raise ReturnEx(self.ev(e))
        raise ReturnEx(self.rv(e))

    def s_BreakStmt(self, n): self.note(n); raise BreakEx()
    def s_ContinueStmt(self, n): self.note(n); raise ContinueEx()

    def s_SwitchStmt(self, n):
        inner = list(n['inner'])
        if n.get('hasInit'): self.stmt(inner.pop(0))
        if n.get('hasVar'): self.stmt(inner.pop(0))
        self.note(inner[0])
        v = self.as_int(self.rv(inner[0]))
        body = inner[1]
        flat = []           # (labels, stmt)
        def flatten(s):
            labels = []
            while s['kind'] in ('CaseStmt', 'DefaultStmt'):
                if s['kind'] == 'CaseStmt':
                    labels.append(('case', s['inner'][0]))
                    s = s['inner'][-1]
                else:
                    labels.append(('default',)); s = s['inner'][0]
            flat.append((labels, s))
        for c in body.get('inner', []): flatten(c)
        start, dflt = None, None
        for i, (labels, s) in enumerate(flat):
            for l in labels:
                if l[0] == 'default': dflt = i
                elif start is None:
                    k = self.as_int(self.rv(l[1]))
                    if self.choose(v == k): start = i; break
            if start is not None: break
        if start is None: start = dflt
        if start is None: return
        try:
            for labels, s in flat[start:]: self.stmt(s)
        except BreakEx: pass

    def s_CXXTryStmt(self, n):
        try:
            self.stmt(n['inner'][0])
        except ThrowEx as e:
            for h in n['inner'][1:]:
                vd = h['inner'][0] if h.get('inner') else None
                # any handler catches (conservative: only catch(...) or by type name)
                if vd is None or vd.get('kind') != 'VarDecl' :
                    self.stmt(h['inner'][-1]); return
                self.st.env[vd['id']] = self.new_cell(e.v if e.v is not None else self.fresh(('cls', e.t), 'exc'), ('cls', e.t), vd.get('name'), key=vd['id'])
                self.stmt(h['inner'][-1]); return
            raise

    # ------------------------------------------------------------ loops
    def s_WhileStmt(self, n):
        inner = list(n['inner'])
        if n.get('hasVar'): raise Unsupported('while with declaration')
        self.loop(n, lambda: self.cond_noted(inner[0]), lambda: self.stmt(inner[1]), None)
    def cond_noted(self, c):
        self.note(c)
        return self.cond(c)
    def s_DoStmt(self, n):
        body, cond = n['inner'][0], n['inner'][1]
        # do B while(C)  ==  first = true; while (first || C) { first = false; B }
        lv = self.new_cell(TRUE, ('bool',), '$first', key=('do', n['id']))
        self.st.env[('do', n['id'])] = lv
        def c():
            if self.choose(self.read(lv)): return True
            return self.cond_noted(cond)
        def b():
            self.write(lv, FALSE); self.stmt(body)
        self.loop(n, c, b, None)
    def s_ForStmt(self, n):
        init, var, cond, inc, body = n['inner'][:5]
        if init.get('kind'): self.stmt(init)
        if cond.get('kind') and self.pure(cond) and not cond['kind'].endswith('Literal'):
            # as long as the condition has a constant value, the loop is executed, not cut
            for _ in range(40):
                c = simp(self.as_bool(self.rv(cond)))
                if z3.is_false(c): self.note(n); return
                if not z3.is_true(c): break
                if self.iteration(lambda: True, lambda: self.stmt(body), (lambda: self.ev(inc)) if inc.get('kind') else None) == 'exit': return
        self.loop(n, (lambda: self.cond_noted(cond)) if cond.get('kind') else (lambda: True),
                  lambda: self.stmt(body), (lambda: self.ev(inc)) if inc.get('kind') else None)

    def s_CXXForRangeStmt(self, n):
        inner = n['inner']
        rng = [c for c in inner if c.get('kind') == 'DeclStmt'][0]['inner'][0]
        self.note(rng)
        loopvar, body = inner[-2]['inner'][0], inner[-1]
        v = self.ev(rng['inner'][0])
        if isinstance(v, Lval) and strip_casts(rng['inner'][0])['kind'] == 'ConditionalOperator': v = self.read(v)   # one cell for either choice
        if not isinstance(v, Lval): v = self.new_cell(v, node_type(rng['inner'][0]), None, key=('rngtmp', n['id']))
        kv, ki, ks = ('rng', n['id']), ('idx', n['id']), ('keys', n['id'])
        env = self.st.env
        env[kv] = v
        cont = self.read(v)
        vt = node_type(loopvar)
        ismap = isinstance(cont, MapV)
        if ismap:
            seqv, et = self.enum_keys(v, cont)
            env[ks] = self.new_cell(seqv, ('seq', et), '$keys', key=ks)
        else: et = self.elem_type(node_type(rng['inner'][0]), v)
        env[ki] = self.new_cell(I(0), ('int', 64, False), '$i', key=ki)
        def c():
            env = self.st.env
            return self.choose(self.read(env[ki]) < self.length(self.read(env[ks if ismap else kv])))
        def b():
            env = self.st.env
            v, i = env[kv], self.read(env[ki])
            if ismap:
                self.on_index(env[ks], self.read(env[ks]), i)
                e = self.map_elem(v, self.read(v), self.read(env[ks]), i)
                env[loopvar['id']] = self.new_cell(e, vt, loopvar.get('name'), key=loopvar['id'])
            elif vt[0] == 'ref':
                self.on_index(v, self.read(v), i)
                env[loopvar['id']] = v.sub(('i', i, et), et)
            else:
                self.on_index(v, self.read(v), i)
                env[loopvar['id']] = self.new_cell(self.unpack(self.nth(self.read(v), i), et), vt, loopvar.get('name'), key=loopvar['id'])
            self.stmt(body)
        def inc():
            i = self.st.env[ki]
            self.st.env.pop(loopvar['id'], None)
            self.write(i, simp(self.read(i) + 1))
        self.loop(n, c, b, inc)
        for k in (kv, ki, ks): self.st.env.pop(k, None)

    def length(self, s):
        return simp(z3.Length(s))

    def elem_type(self, t, lv=None):
        t = self.norm(deref(t))
        if t[0] == 'seq': return t[1]
        if lv is not None and lv.ty and self.norm(deref(lv.ty))[0] == 'seq': return self.norm(deref(lv.ty))[1]
        raise Unsupported('element type of %s' % (t,))

    def iteration(self, cond, body, inc):
        """one iteration: returns 'exit' (condition false or break) or 'back'"""
        if not cond(): return 'exit'
        try: body()
        except ContinueEx: pass
        except BreakEx: return 'exit'
        if inc: inc()
        return 'back'

    def loop(self, n, cond, body, inc):
        """a loop head is a cutpoint: a path ends when it arrives there, and the
        exploration goes on from there in an arbitrary state satisfying the invariant"""
        st = self.st
        self.note(n)
        ctx = (st.callstr, n['id'])
        if st.segs:
            c, tup, decs = st.segs.pop(0)
            if c != ctx: raise Unsupported('replay of a path diverged')
            self.launch(ctx, tup, not st.segs)
            st.done.append((c, tup))
            st.dec, st.prefix = [], decs
        else: self.arrive(ctx, n)
        st.depth += 1
        r = self.iteration(cond, body, inc)
        st.depth -= 1
        if r == 'back': self.arrive(ctx, n)

    def scopes(self, st):
        return [f[0] for f in st.frames] + [st.env], [f[2] for f in st.frames] + [st.this]

    def reachable(self, st):
        out, work = set(), []
        def val(v):
            if isinstance(v, Lval): work.append(v.cell)
            elif isinstance(v, (PtrV, IterV, MapIter)):
                if v.lv is not None: work.append(v.lv.cell)
            elif isinstance(v, LambdaV):
                for x in v.env.values(): val(x)
            elif isinstance(v, Rec):
                for x in v.f.values():
                    if not z3.is_expr(x): val(x)
        envs, thises = self.scopes(st)
        for e in envs:
            for v in e.values(): val(v)
        for t in thises: val(t)
        for v in st.globals.values(): val(v)
        for v in st.ghost.values(): val(v)
        while work:
            c = work.pop()
            if c in out or c not in st.cells: continue
            out.add(c)
            val(st.cells[c])
        return out

    def base_only(self, e, st):
        if not z3.is_expr(e): return True
        todo, seen = [e], set()
        while todo:
            x = todo.pop()
            k = x.get_id()
            if k in seen: continue
            seen.add(k)
            if z3.is_quantifier(x): todo.append(x.body()); continue
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                m = re.search(r'!(\d+)', x.decl().name())
                if m and int(m.group(1)) > st.basefresh: return False
            todo += x.children()
        return True

    def value_exprs(self, v):
        if z3.is_expr(v): return [v]
        if isinstance(v, MapV): return [v.dom] + ([v.val] if v.val is not None else [])
        if isinstance(v, (IterV, PtrV)): return [v.idx] if v.idx is not None else []
        if isinstance(v, MapIter): return [x for x in ([v.idx] if v.snap else [v.key, v.found]) if x is not None]
        return []

    def check_static_lv(self, v, st):
        """the target of a stored pointer or iterator must not depend on the path"""
        if isinstance(v, (IterV, PtrV, MapIter)) and v.lv is not None:
            for p in v.lv.path:
                if p[0] != 'f' and not self.base_only(p[1], st): raise Unsupported('pointer into an element held across a loop')

    def ref_list(self, st):
        """the references held in the scopes: (key, Lval)"""
        envs, thises = self.scopes(st)
        for i, e in enumerate(envs):
            for k, v in e.items():
                if isinstance(v, Lval): yield (i, k), v
        for i, t in enumerate(thises):
            if isinstance(t, Lval): yield (i, 'this'), t

    def arrive(self, ctx, n):
        st = self.st
        R = self.reachable(st)
        acc = self.acc.setdefault(ctx, dict(mods=set(), live=None, refs=set(), dead=set(), n=n))
        cut = self.cuts.get(ctx)
        grown = False
        def mod(x, s=None):
            nonlocal grown
            s = acc['mods'] if s is None else s
            if x not in s: s.add(x); grown = True
        if acc['live'] is None: acc['live'] = set(R)
        elif not acc['live'] <= R: acc['live'] &= R; grown = True
        refs = dict(self.ref_list(st))
        if cut is None:
            self.check_pending(ctx, n)
            cut = self.cuts[ctx] = dict(cells={c: st.cells[c] for c in R}, refs=refs, entry=st.entry if st.done else list(st.dec),
                                        segs=self.path_segs(st), new=True)
            for c in R:
                for path, leaf in self.leaves(st.cells[c]):
                    self.check_static_lv(leaf, st)
                    if not all(self.base_only(e, st) for e in self.value_exprs(leaf)): acc['mods'].add((c, path))
            for k, lv in refs.items():
                for j, p in enumerate(lv.path):
                    if p[0] != 'f' and not self.base_only(p[1], st): acc['refs'].add((k, j))
        else:
            cut['new'] = False
            for c in acc['live']:
                a, b = cut['cells'].get(c), st.cells[c]
                if a is b or a is None: continue
                pa, pb = list(self.leaves(a)), dict(self.leaves(b))
                if {p for p, _ in pa} != set(pb): raise Unsupported('a loop changes the shape of a value')
                for path, leaf in pa:
                    new = pb[path]
                    if leaf is new or (c, path) in acc['mods']: continue
                    if not same(leaf, new):
                        if type(leaf) is not type(new) and not (z3.is_expr(leaf) and z3.is_expr(new)): raise Unsupported('a loop changes the kind of a value (%s)' % st.cname.get(c))
                        self.check_static_lv(new, st)
                        if isinstance(leaf, MapIter) and ((leaf.snap is None) != (new.snap is None) or leaf.lv.key() != new.lv.key() or leaf.snap and not same(leaf.snap[0], new.snap[0])):
                            raise Unsupported('a loop redirects an iterator (%s)' % st.cname.get(c))
                        if isinstance(leaf, (IterV, PtrV)) and (leaf.lv is None or new.lv is None or leaf.lv.key() != new.lv.key()):
                            raise Unsupported('a loop redirects a pointer (%s)' % st.cname.get(c))
                        if isinstance(leaf, (str, LambdaV)): raise Unsupported('a loop changes a %s' % type(leaf).__name__)
                        mod((c, path))
            for k, lv in cut['refs'].items():
                if k in acc['dead']: continue
                x = refs.get(k)
                if x is None or x.cell != lv.cell or [p[0] if p[0] != 'f' else p for p in x.path] != [p[0] if p[0] != 'f' else p for p in lv.path]:
                    mod(k, acc['dead']); continue
                for j, (p, q) in enumerate(zip(lv.path, x.path)):
                    if p[0] != 'f' and not same(p[1], q[1]): mod((k, j), acc['refs'])
        if self.phase == 'A':
            if grown:
                for c in [c for c, d in self.cuts.items() if any(x[0] == ctx for x in d['segs'])]: del self.cuts[c]
                if ctx not in self.queue: self.queue.append(ctx)
            elif cut['new'] and ctx not in self.queue: self.queue.append(ctx)
            raise PathDead()
        if grown: raise Restart()
        self.arrive_inv(ctx, cut, acc)
        raise PathDead()

    def path_segs(self, st):
        if not st.done: return []
        c, tup = st.done[-1]
        return self.cuts_segs[c] + [(c, tup, list(st.dec))]

    @property
    def cuts_segs(self): return {c: d['segs'] for c, d in self.cuts.items()}

    def arrive_inv(self, ctx, cut, acc):
        st = self.st
        if 'fin' not in cut:
            cut['fin'] = self.finite_leaves(st, acc['mods'] & {(c, p) for c in acc['live'] for p, _ in self.leaves(st.cells[c])})
            cut['table'] = {}
            cut['cands'] = self.prune(self.candidates(st, acc['mods'], acc['n'], {f[0] for f in cut['fin']}, acc))
            self.stats['candidates'] += len(cut['cands'])
        t = self.tuple_of(cut['fin'])
        table = cut['table']
        where = line_of(acc['n']) or '?'
        if self.inferring:
            cands = cut['cands'] if t not in table else table[t]
            good = self.filter(st, cands)
            if t not in table or len(good) < len(cands):
                table[t] = good
                if (ctx, t) not in self.queue: self.queue.append((ctx, t))
                if sum(len(c.get('table', ())) for c in self.cuts.values()) > self.maxtuples: raise Unsupported('too many control states')
            return
        if t not in table:
            self.check(FALSE, 'loop-invariant', where); return
        fs = []
        for nm, f in table[t]:
            x = simp(f(st))
            if not z3.is_true(x): fs.append(x)
        self.check(z3.And(fs) if len(fs) > 1 else fs[0] if fs else TRUE, 'loop-invariant', where)

    maxtuples = 300
    jumps = False                # an index may move by several elements at once: the specification follows
    loop_contracts = ()          # (recognises a loop, applies its contract): the loop itself is verified as a unit of its own
    def launch(self, ctx, tup, final):
        """put the state at this cutpoint: everything that varies there is arbitrary, up to the invariant"""
        st = self.st
        acc, cut = self.acc[ctx], self.cuts[ctx]
        st.cells = {c: v for c, v in st.cells.items() if c in acc['live']}
        envs, thises = self.scopes(st)
        for key, lv in list(self.ref_list(st)):
            new = lv
            if key in acc['dead'] or lv.cell not in st.cells: new = None
            else:
                path = list(lv.path)
                for j, p in enumerate(path):
                    if (key, j) in acc['refs']:
                        st.nfresh += 1
                        path[j] = (p[0], z3.Const('ref!%d' % st.nfresh, p[1].sort())) + tuple(p[2:])
                if path != list(lv.path): new = Lval(lv.cell, tuple(path), lv.ty)
            if new is lv: continue
            i, k = key
            if k == 'this':
                if i == len(thises) - 1: st.this = new
                else: st.frames[i] = (st.frames[i][0], st.frames[i][1], new)
            elif new is None: del envs[i][k]
            else: envs[i][k] = new
        if final:
            st.replay = False
            st.work = st.xwork
            st.pc = st.pc[:st.basepc] + list(self.axioms.values())
            st.solver = None
            st.trace = [line_of(acc['n']) or '?']
        st.unfolded, st.specval = {}, {}
        fin = cut.get('fin') or []
        skip = {f[0] for f in fin}
        for c, path in sorted(acc['mods'], key=str):
            if c not in st.cells or (c, path) in skip and tup is not None: continue
            st.cells[c] = self.set_leaf(st.cells[c], path, self.havoc_leaf(c, path, self.leaf_at(st.cells[c], path)))
        if tup is not None: self.set_tuple(fin, tup)
        if final and tup is not None:
            for name, f in cut['table'][tup]: st.pc.append(simp(f(st)))

    def havoc_leaf(self, c, path, v):
        st = self.st
        t = self.leaf_type(c, path)
        nm = (st.cname.get(c) or 'c') + ''.join('.' + p for p in path)
        def fresh(sort):
            st.nfresh += 1
            return z3.Const('%s!%d' % (nm, st.nfresh), sort)
        if isinstance(v, MapV):
            return MapV(v.kt, v.vt, fresh(v.dom.sort()), fresh(v.val.sort()) if v.val is not None else None)
        if isinstance(v, IterV): return IterV(v.lv, fresh(z3.IntSort()), v.rev)
        if isinstance(v, MapIter) and v.snap: return v.at(fresh(z3.IntSort()))
        if isinstance(v, MapIter): return MapIter(v.lv, fresh(v.key.sort()) if v.key is not None else None, fresh(z3.BoolSort()))
        if isinstance(v, PtrV) and v.lv is not None and v.idx is not None: return PtrV(v.lv, fresh(z3.IntSort()))
        if z3.is_expr(v):
            nv = fresh(v.sort())
            if t and t[0] in ('int', 'enum'): self.range_fact(nv, t)
            if path and path[-1] == '$pos':
                self.add(z3.And(nv >= 0, nv <= self.in_len(self.leaf_at(st.cells[c], path[:-1]))))
            return nv
        raise Unsupported('loop modifies a %s (%s)' % (type(v).__name__, nm))

    def check_pending(self, ctx, n):
        """no enclosing expression may hold a value computed before the call that contains the loop"""
        for cid in ctx[0][1:]:
            call = self.nodes.get(cid)
            if call is None: continue
            x = call
            while True:
                p = self.parent.get(x['id']) if 'id' in x else None
                if p is None: break
                k = p.get('kind', '')
                if k.endswith('Stmt') or k in ('VarDecl', 'LambdaExpr') or k.endswith('Method') or k.endswith('FunctionDecl'): break
                others = [c for c in p.get('inner', []) if c is not x and c.get('kind')]
                if k in ('ConditionalOperator',) or (k == 'BinaryOperator' and p.get('opcode') in ('&&', '||', ',')): pass
                elif others and not all(self.stable_operand(o) for o in others):
                    raise Unsupported('a call containing a loop inside a larger expression at %s' % line_of(p))
                x = p

    def stable_operand(self, o):
        """evaluating it before or after the call makes no difference to the executor"""
        while o['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXDefaultArgExpr', 'CXXFunctionalCastExpr', 'CXXBindTemporaryExpr'):
            if o['kind'] == 'ImplicitCastExpr' and o.get('castKind') == 'LValueToRValue':
                y = o['inner'][0]
                return y['kind'] == 'DeclRefExpr' and node_type(y)[0] in ('ptr',)
            if not o.get('inner'): return True
            o = o['inner'][0]
        if o['kind'].endswith('Literal') or o['kind'] in ('CXXThisExpr',): return True
        if o['kind'] == 'DeclRefExpr': return True
        if o['kind'] == 'MemberExpr': return self.stable_operand(o['inner'][0])
        if o['kind'] == 'UserDefinedLiteral': return True
        return False

    # ---- the finite part of a loop state (booleans, enumerations, constants) is enumerated exactly
    def finite_leaves(self, st, mods):
        out = []
        for c, path in sorted(mods, key=str):
            v = self.leaf_at(st.cells[c], path)
            if not z3.is_expr(v): continue
            t = self.leaf_type(c, path)
            if z3.is_bool(v): out.append((((c, path)), 'bool', None))
            elif t and t[0] == 'enum': out.append(((c, path), 'enum', t[1]))
        for sp in self.specs:
            if sp.kind == 'seq' and sp.split:
                # the specification's mode at each index the loop moves
                for c, path in sorted(mods, key=str):
                    t = self.leaf_type(c, path)
                    if not (t and t[0] == 'int' and z3.is_expr(self.leaf_at(st.cells[c], path))): continue
                    for sp_path, srt, ty in sp.leafinfo():
                        if ty[0] == 'enum': out.append((('Q', sp.name, sp_path, (c, path)), 'enum', ty[1]))
            if not sp.uses(st) or sp.kind != 'stream': continue
            for path, srt, ty in sp.leafinfo():
                if ty[0] == 'bool': out.append((('S', sp.name, path), 'bool', None))
                elif ty[0] == 'enum': out.append((('S', sp.name, path), 'enum', ty[1]))
        return out

    def get_leaf(self, ref):
        if ref[0] == 'S':
            sp = [s for s in self.specs if s.name == ref[1]][0]
            return sp.value(self.st, ref[2])
        if ref[0] == 'Q':
            sp = [s for s in self.specs if s.name == ref[1]][0]
            pos = self.leaf_at(self.st.cells[ref[3][0]], ref[3][1])
            sp.catch_up(pos)
            return sp.leaf(self.st, ref[2], pos)
        return self.leaf_at(self.st.cells[ref[0]], ref[1])

    def tuple_of(self, fin):
        out = []
        for ref, kind, en in fin:
            v = simp(self.get_leaf(ref))
            if kind == 'bool': out.append(self.choose(v))
            elif is_const_int(v): out.append(v.as_long())
            else:
                for nm, k in self.enums[en]:
                    if self.choose(v == k): out.append(k); break
                else: raise PathDead()
        return tuple(out)

    def set_tuple(self, fin, tup):
        st = self.st
        sv, sq = {}, []
        for (ref, kind, en), val in zip(fin, tup):
            c = z3.BoolVal(val) if kind == 'bool' else I(val)
            if ref[0] == 'S': sv.setdefault(ref[1], {})[ref[2]] = c
            elif ref[0] == 'Q': sq.append((ref, c))
            else: st.cells[ref[0]] = self.set_leaf(st.cells[ref[0]], ref[1], c)
        for name, d in sv.items():
            sp = [s for s in self.specs if s.name == name][0]
            sp.set_known(st, d)
        for ref, c in sq:
            sp = [s for s in self.specs if s.name == ref[1]][0]
            sp.set_known(st, {ref[2]: c}, self.leaf_at(st.cells[ref[3][0]], ref[3][1]))

    def leaves(self, v, path=()):
        if isinstance(v, Rec):
            for k in v.f:
                if k == '$id': continue
                yield from self.leaves(v.f[k], path + (k,))
        else: yield path, v

    def leaf_at(self, v, path):
        for p in path: v = v.f[p]
        return v

    def set_leaf(self, v, path, new):
        if not path: return new
        return v.with_(path[0], self.set_leaf(v.f[path[0]], path[1:], new))

    def leaf_type(self, cell, path):
        t = self.norm(deref(self.st.ctype[cell])) if self.st.ctype.get(cell) else None
        for p in path:
            if t is None: return None
            if t[0] == 'pair': t = self.norm(t[1] if p == 'first' else t[2])
            elif t[0] == 'opt': t = ('bool',) if p == 'has' else self.norm(t[1])
            elif t[0] == 'cls' and t[1] in self.classes:
                m = [ft for nm, ft, _ in self.allfields(t[1]) if nm == p]
                t = self.norm(m[0]) if m else None
            else: return None
        return t

    def eqv(self, a, b):
        if isinstance(a, MapV): 
            e = a.dom == b.dom
            return z3.And(e, a.val == b.val) if a.val is not None else e
        if isinstance(a, IterV): return a.idx == b.idx
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            if a.lv is None or b.lv is None: return z3.BoolVal(a.lv is None and b.lv is None)
            if a.lv.key() != b.lv.key(): return FALSE
            return a.idx == b.idx if a.idx is not None else TRUE
        if isinstance(a, Rec): return z3.And([self.eqv(a.f[k], b.f[k]) for k in a.f if k != '$id'] or [TRUE])
        if z3.is_expr(a) and z3.is_expr(b):
            if a.sort() != b.sort(): raise Unsupported('comparison of different sorts')
            return a == b
        raise Unsupported('equality of %s' % type(a).__name__)

    def char_literals(self):
        if not hasattr(self, '_lits'):
            self._lits, self._idxlits = set(), set()
            self._eoflit = self._unget = False
            look = False
            todo = [d for ds in self.byname.values() for d in ds]
            while todo:
                n = todo.pop()
                if n.get('kind') == 'CharacterLiteral': self._lits.add(int(n['value']))
                if n.get('kind') == 'MemberExpr' and n.get('name') in ('unget', 'peek'): look = True
                if n.get('kind') == 'MemberExpr' and n.get('name') == 'unget': self._unget = True
                if n.get('kind') == 'IntegerLiteral' and n.get('value') == '65535': self._eoflit = True
                todo += [c for c in n.get('inner', []) if isinstance(c, dict)]
                if n.get('kind') == 'BinaryOperator' and n.get('opcode') in ('==', '!='):
                    a, b = strip_casts(n['inner'][0]), strip_casts(n['inner'][1])
                    if b['kind'] == 'CharacterLiteral' and a['kind'] in ('CXXOperatorCallExpr', 'ArraySubscriptExpr'):
                        i = strip_casts(a['inner'][-1])
                        if i['kind'] == 'IntegerLiteral': self._idxlits.add((int(i['value']), int(b['value'])))
            self._alllits = sorted(self._lits)
            if not look: self._lits = set()
        return sorted(self._lits)

    def prune(self, cands): return cands

    def filter(self, st, cands):
        """keep the candidates valid in st"""
        if not cands: return []
        fs = []
        for c in cands:
            try: fs.append((c, simp(c[1](st))))
            except (Unsupported, z3.Z3Exception): continue
        live = [(c, f) for c, f in fs if not z3.is_false(f)]
        done = [c for c, f in live if z3.is_true(f)]
        live = [(c, f) for c, f in live if not z3.is_true(f)]
        s = self.mksolver(st.pc, 3000)
        if s.check() == z3.unsat: return [c for c, f in fs]
        while live:
            self.tick()
            s.push()
            s.add(z3.Or([z3.Not(f) for _, f in live]))
            t = time.time()
            r = s.check()
            self.stats['queries'] += 1
            self.stats['time'] += time.time() - t
            if r == z3.unsat:
                s.pop(); break
            if r == z3.sat:
                m = s.model()
                s.pop()
                keep = [(c, f) for c, f in live if not z3.is_false(m.eval(f, model_completion=True))]
                if len(keep) == len(live):
                    # model evaluation inconclusive: one by one
                    live = self.one_by_one(s, live); break
                live = keep
                continue
            s.pop()
            live = self.one_by_one(s, live); break
        return done + [c for c, _ in live]

    def one_by_one(self, s, live):
        if len(live) == 1:
            c, f = live[0]
            s.push(); s.add(z3.Not(f)); s.set('timeout', 1500)
            r = s.check(); s.pop()
            return live if r == z3.unsat else []
        # bisect on joint validity
        s.push(); s.add(z3.Or([z3.Not(f) for _, f in live])); s.set('timeout', 1500)
        r = s.check(); s.pop()
        self.tick()
        if r == z3.unsat: return live
        h = len(live) // 2
        return self.one_by_one(s, live[:h]) + self.one_by_one(s, live[h:])

    # ------------------------------------------------------------ invariant templates
    def named_leaves(self, st, mods, acc):
        """(key, sort, type, getter, modified) for every live leaf and spec field"""
        out = []
        for c in sorted(acc['live'], key=lambda c: (st.cname.get(c) or '~', str(c))):
            if c not in st.cells: continue
            if not st.cname.get(c) and not any(c2 == c for c2, _ in mods): continue
            for path, leaf in self.leaves(st.cells[c]):
                if isinstance(leaf, (IterV, PtrV, MapIter)):
                    if leaf.idx is None: continue
                    get = (lambda s, c=c, path=path: self.leaf_at(s.cells[c], path).idx)
                elif z3.is_expr(leaf):
                    get = (lambda s, c=c, path=path: self.leaf_at(s.cells[c], path))
                else: continue
                if not (c, path) in mods and z3.is_expr(leaf) and (z3.is_int_value(leaf)): continue
                key = (st.cname.get(c) or 'tmp') + ''.join('.' + p for p in path)
                out.append((key, get(st).sort(), self.leaf_type(c, path), get, (c, path) in mods))
        for (key, j) in acc['refs']:
            if key in acc['dead']: continue
            def get(s, key=key, j=j):
                envs, thises = self.scopes(s)
                lv = thises[key[0]] if key[1] == 'this' else envs[key[0]][key[1]]
                return lv.path[j][1]
            try: out.append(('ref%s.%d' % (key, j), get(st).sort(), None, get, True))
            except (KeyError, AttributeError): pass
        for sp in self.specs:
            if sp.uses(st):
                for path, sort, ty in sp.leafinfo():
                    out.append((('S.%s.' % sp.name) + '.'.join(path), sort, ty, (lambda s, sp=sp, path=path: sp.leaf(s, path)), True))
        return out

    def candidates(self, st, mods, n, fin, acc):
        L = [l for l in self.named_leaves(st, mods, acc)]
        C = []
        isfin = lambda l: l[1] == z3.BoolSort() or bool(l[2] and l[2][0] == 'enum')
        L = [l for l in L if not isfin(l)]
        Z = [l for l in L if l[1] == z3.IntSort()]
        Q = [l for l in L if z3.is_seq(z3.Const('x', l[1])) ]
        D = [l for l in L if l not in Z and l not in Q]
        touched = lambda *ls: any(l[4] for l in ls)
        def add(key, f): C.append((key, f))
        for a in Z:
            if a[4]:
                add(('z0', a[0]), (lambda s, g=a[3]: g(s) >= 0))
                v0 = simp(a[3](st))
                if is_const_int(v0):
                    add(('zc', a[0], v0.as_long()), (lambda s, g=a[3], v0=v0: g(s) == v0))
                    if v0.as_long() != 0: add(('zge', a[0], v0.as_long()), (lambda s, g=a[3], v0=v0: g(s) >= v0))
        for a, b in itertools.permutations(Z, 2):
            if touched(a, b):
                add(('zle', a[0], b[0]), (lambda s, x=a[3], y=b[3]: x(s) <= y(s)))
                add(('zlt', a[0], b[0]), (lambda s, x=a[3], y=b[3]: x(s) < y(s)))
                if str(a[0]) < str(b[0]): add(('zeq', a[0], b[0]), (lambda s, x=a[3], y=b[3]: x(s) == y(s)))
                add(('zs', a[0], b[0]), (lambda s, x=a[3], y=b[3]: x(s) == y(s) + 1))
        for a in Z:
            for q in Q:
                if touched(a, q):
                    add(('zlen', a[0], q[0]), (lambda s, x=a[3], y=q[3]: x(s) <= z3.Length(y(s))))
                    add(('zltn', a[0], q[0]), (lambda s, x=a[3], y=q[3]: x(s) < z3.Length(y(s))))
                    add(('zeqn', a[0], q[0]), (lambda s, x=a[3], y=q[3]: x(s) == z3.Length(y(s))))
        for sp in self.specs:
            for a in Z:
                if a[4]: add(('zN', a[0]), (lambda s, x=a[3], sp=sp: x(s) <= sp.N))
                if a[4]: add(('z=N', a[0]), (lambda s, x=a[3], sp=sp: x(s) == sp.N))
        for q in Q:
            if q[4]:
                add(('qe', q[0]), (lambda s, g=q[3]: z3.Length(g(s)) == 0))
                add(('qn', q[0]), (lambda s, g=q[3]: z3.Length(g(s)) > 0))
        self.char_literals()
        for q in Q:      # the characters the code looks at by a constant index
            if q[2] and q[2][0] == 'seq' and q[2][1] == ('int', 32, True): continue
            if q[4] and q[1] == z3.SeqSort(z3.IntSort()):
                for k, c in sorted(self._idxlits):
                    add(('qi==', q[0], k, c), (lambda s, g=q[3], k=k, c=c: z3.And(z3.Length(g(s)) > k, g(s)[k] == c)))
                    add(('qi!=', q[0], k, c), (lambda s, g=q[3], k=k, c=c: z3.Or(z3.Length(g(s)) <= k, g(s)[k] != c)))
                for k in sorted({k for k, _ in self._idxlits}): add(('qlen', q[0], k), (lambda s, g=q[3], k=k: z3.Length(g(s)) > k))
                for k in sorted({k for k, _ in self._idxlits if k}): add(('qlen<=', q[0], k), (lambda s, g=q[3], k=k: z3.Length(g(s)) <= k))
        for a, b in itertools.combinations(Q, 2):
            if touched(a, b) and a[1] == b[1]:
                add(('qeq', a[0], b[0]), (lambda s, x=a[3], y=b[3]: x(s) == y(s)))
        if len(Q) <= 12:
            for a in Q:
                for b in Q:
                    for c in Q:
                        if a[1] == b[1] == c[1] and a is not b and a is not c and touched(a, b, c):
                            add(('qcat', a[0], b[0], c[0]), (lambda s, x=a[3], y=b[3], w=c[3]: x(s) == z3.Concat(y(s), w(s))))
        for a, b in itertools.combinations(D, 2):
            if a[1] == b[1] and touched(a, b):
                add(('deq', a[0], b[0]), (lambda s, x=a[3], y=b[3]: x(s) == y(s)))
        # what is known about the character about to be read (it was looked at before)
        lits = self.char_literals()
        for sp in self.specs:
            if sp.kind == 'stream' and sp.uses(st):
                add(('la', 'more'), (lambda s, sp=sp: sp.pos(s) < sp.N))
                for c in lits:
                    add(('la!=', c), (lambda s, sp=sp, c=c: sp.at(sp.pos(s)) != c))
                    add(('la==', c), (lambda s, sp=sp, c=c: sp.at(sp.pos(s)) == c))
        # which of the characters the code knows a character variable holds
        scan = any(sp.kind == 'seq' for sp in self.specs)
        if len(self._alllits) <= 24:
            for a in Z:
                if a[4] and a[2] and a[2][0] == 'int' and a[2][1] in ((8, 16) if scan else (8, 16, 32)):
                    for c in self._alllits:
                        add(('z!=', a[0], c), (lambda s, g=a[3], c=c: g(s) != c))
                        add(('z==', a[0], c), (lambda s, g=a[3], c=c: g(s) == c))
        if self._eoflit:
            for a in Z:
                if a[4] and a[2] and a[2] == ('int', 32, True):
                    add(('z==', a[0], 65535), (lambda s, g=a[3]: g(s) == 65535))
                    add(('z!=', a[0], 65535), (lambda s, g=a[3]: g(s) != 65535))
                    if self._unget:
                        for sp in self.specs:
                            if sp.kind == 'stream' and sp.uses(st): add(('last', a[0]), (lambda s, g=a[3], sp=sp: z3.And(sp.pos(s) > 0, g(s) == sp.at(sp.pos(s) - 1))))
        for c in sorted(acc['live'], key=str):
            for path, leaf in self.leaves(st.cells[c]) if c in st.cells else ():
                if isinstance(leaf, MapIter) and leaf.snap and (c, path) in mods:
                    it = lambda s, c=c, path=path: self.leaf_at(s.cells[c], path)
                    def dom(s, it=it):
                        v = s.cells[it(s).lv.cell]
                        for p in it(s).lv.path: v = v.f[p[1]]
                        return v.dom
                    nm = (st.cname.get(c) or 'tmp') + ''.join('.' + p for p in path)
                    j = z3.Int('j!it')
                    add(('itlen', nm), lambda s, it=it: it(s).idx <= z3.Length(it(s).snap[1]))
                    if all(p[0] == 'f' for p in leaf.lv.path):
                        add(('itsub', nm), lambda s, it=it, dom=dom: z3.IsSubset(dom(s), it(s).snap[0]))
                        add(('itrest', nm), lambda s, it=it, dom=dom: z3.ForAll([j], z3.Implies(z3.And(j >= it(s).idx, j < z3.Length(it(s).snap[1])), z3.Select(dom(s), key_at(it(s).snap[1], j))), patterns=[key_at(it(s).snap[1], j)]))
        if getattr(self, 'entry_facts', False):      # what was decided before the loop about values the loop does not change
            for f in st.pc[st.basepc:]:
                if self.base_only(f, st) and not z3.is_quantifier(f): add(('pc', f.sexpr()), (lambda s, f=f: f))
        for f in self.user_cands:
            C += f(self, st, mods, L)
        return C

    # ------------------------------------------------------------ expressions
    def rv(self, n):
        v = self.ev(n)
        if isinstance(v, Lval): return self.read(v)
        return v

    def lv(self, n):
        v = self.ev(n)
        if isinstance(v, Lval): return v
        return self.new_cell(v, node_type(n), None)

    def ev(self, n):
        f = getattr(self, 'e_' + n['kind'], None)
        if f is None: raise Unsupported('expression %s at %s' % (n['kind'], line_of(n)))
        return f(n)

    def one(self, n):
        return n['inner'][0]

    def e_ExprWithCleanups(self, n): return self.ev(self.one(n))
    e_CXXBindTemporaryExpr = e_ExprWithCleanups
    e_ParenExpr = e_ExprWithCleanups
    e_ConstantExpr = e_ExprWithCleanups
    e_SubstNonTypeTemplateParmExpr = e_ExprWithCleanups
    e_CXXRewrittenBinaryOperator = e_ExprWithCleanups
    e_CXXStdInitializerListExpr = e_ExprWithCleanups

    def e_MaterializeTemporaryExpr(self, n):
        v = self.ev(self.one(n))
        if isinstance(v, Lval): return v
        return self.new_cell(v, node_type(n), None)

    def e_IntegerLiteral(self, n): return I(int(n['value']))
    def e_CharacterLiteral(self, n): return I(int(n['value']))
    def e_CXXBoolLiteralExpr(self, n): return TRUE if n['value'] else FALSE
    def e_FloatingLiteral(self, n): return z3.RealVal(n['value'])
    def e_CXXNullPtrLiteralExpr(self, n): return PtrV(None)
    def e_GNUNullExpr(self, n): return PtrV(None)
    def e_StringLiteral(self, n): return str_lit(decode_literal(n['value']))
    def e_CXXThisExpr(self, n): return PtrV(self.st.this)
    def e_ImplicitValueInitExpr(self, n): return self.default(node_type(n))
    def e_CXXScalarValueInitExpr(self, n): return self.default(node_type(n))
    def e_CXXDefaultInitExpr(self, n):
        if n.get('inner'): return self.ev(self.one(n))
        raise Unsupported('default init')

    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            if d['id'] in self.enumconst: return I(self.enumconst[d['id']])
            t = self.norm(node_type(n))
            for vals in [self.enums.get(t[1], [])]:
                for nm, v in vals:
                    if nm == d['name']: return I(v)
            return self.named_const(d['name'], n)
        lv = self.st.env.get(d['id'])
        if lv is None:
            lv = self.st.globals.get(d['id'])
        if lv is None:
            m = self.models.get('$var:' + d['name'])
            if m: return m(self, n)
            if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'): return ('fn', d)
            lv = self.global_var(d, n)
        return lv

    def ask_spec(self, sp, name, values=(), raw=False, pos=None):
        """a bool observer of the specification in its current state"""
        st = self.st
        lv = self.new_cell(sp.cur(st, pos), ('cls', sp.name), None)
        keep, st.trace = st.trace, list(st.trace)
        insp, self.inspec = self.inspec, True
        try:
            r = self.inline(self.func(name, sp.name), lv, [], None, values=list(values))
            return r if raw else self.as_bool(r)
        finally:
            st.trace = keep
            self.inspec = insp
    inspec = False

    def named_const(self, name, n):
        return z3.Int('const_' + name)

    def global_var(self, d, n):
        t = node_type(n)
        g = self.globalvars.get(d['id'])
        if g is None:
            for gg in self.globalvars.values():
                if gg.get('name') == d['name'] and gg.get('inner'): g = gg; break
        if g is not None and 'const' in g['type']['qualType'] and any(c.get('kind') for c in g.get('inner', [])):
            init = [c for c in g['inner'] if c.get('kind') and not c['kind'].endswith('Comment')]
            saved = self.st.env; 
            v = self.rv(init[0])
            lv = self.new_cell(v, t, d['name'], key=('g', d['id']))
        else:
            lv = self.new_cell(self.fresh(t, d['name']), t, d['name'], key=('g', d['id']))
        self.st.globals[d['id']] = lv
        return lv

    def e_MemberExpr(self, n):
        base = self.ev(self.one(n))
        name = n.get('name', '')
        if n.get('isArrow'):
            p = self.read(base) if isinstance(base, Lval) else base
            return self.member_of_ptr(p, name, n)
        if isinstance(base, Lval): return base.sub(('f', name), node_type(n))
        if isinstance(base, Rec): return base.f[name]
        raise Unsupported('member %s of %s' % (name, type(base).__name__))

    def member_of_ptr(self, p, name, n):
        if isinstance(p, PtrV):
            self.check(z3.BoolVal(p.lv is not None), 'null-dereference')
            if p.lv is None: raise PathDead()
            lv = p.lv if p.idx is None else p.lv.sub(('i', p.idx, self.elem_type(p.lv.ty)))
            return lv.sub(('f', name), node_type(n))
        if isinstance(p, (IterV, MapIter)):
            return self.deref_iter(p).sub(('f', name), node_type(n)) if isinstance(p, IterV) else self.mapiter_field(p, name, n)
        if z3.is_expr(p): return self.opaque_field(p, name, n)
        raise Unsupported('-> on %s' % type(p).__name__)

    def opaque_field(self, p, name, n):
        """field of an object behind an opaque pointer: an uninterpreted function of the pointer"""
        t = self.norm(node_type(n))
        key = '%s.%s' % (p.sort(), name)
        f = z3.Function('fld_' + key, p.sort(), self.sort(t))
        e = f(p)
        return self.unpack(e, t)

    def e_ImplicitCastExpr(self, n): return self.cast(n)
    def e_CXXStaticCastExpr(self, n): return self.cast(n)
    def e_CStyleCastExpr(self, n): return self.cast(n)
    def e_CXXFunctionalCastExpr(self, n): return self.cast(n)
    def e_CXXReinterpretCastExpr(self, n): return self.cast(n)
    def e_CXXConstCastExpr(self, n): return self.cast(n)
    def e_CXXDynamicCastExpr(self, n): return self.cast(n)

    def cast(self, n):
        ck = n.get('castKind')
        x = self.one(n)
        if ck == 'LValueToRValue': return self.rv(x)
        if ck in ('NoOp', 'FunctionToPointerDecay', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'BuiltinFnToFnPtr', 'Dynamic'): return self.ev(x)
        if ck == 'ArrayToPointerDecay':
            v = self.ev(x)
            if isinstance(v, Lval):
                return PtrV(v, I(0)) if not (z3.is_expr(self.read(v)) and x['kind'] == 'StringLiteral') else self.read(v)
            return v
        if ck in ('IntegralCast',):
            t1, t2 = self.norm(node_type(x)), self.norm(node_type(n))
            return self.int_cast(self.rv(x), t1, t2)
        if ck == 'BitCast': 
            v = self.ev(x)
            return self.bitcast(v, n)
        if ck == 'IntegralToBoolean':
            return simp(self.as_int(self.rv(x)) != 0)
        if ck == 'PointerToBoolean':
            v = self.rv(x)
            return self.ptr_nonnull(v)
        if ck == 'NullToPointer': return PtrV(None)
        if ck == 'IntegralToFloating': return z3.ToReal(self.as_int(self.rv(x)))
        if ck == 'FloatingCast': return self.rv(x)
        if ck == 'FloatingToIntegral': return z3.ToInt(self.rv(x))
        if ck == 'ToVoid': self.ev(x); return None
        if ck in ('ConstructorConversion', 'UserDefinedConversion'): return self.ev(x)
        if ck == 'IntegralToPointer': return PtrV(None)
        raise Unsupported('cast %s at %s' % (ck, line_of(n)))

    def bitcast(self, v, n): return v

    def ptr_nonnull(self, v):
        if isinstance(v, PtrV): return z3.BoolVal(v.lv is not None)
        if z3.is_expr(v):
            if z3.is_seq(v): return TRUE
            return v != z3.Const('null_' + str(v.sort()), v.sort())
        raise Unsupported('pointer test')

    def as_bool(self, v):
        if isinstance(v, PtrV) : return self.ptr_nonnull(v)
        if not z3.is_expr(v): raise Unsupported('condition is %s' % type(v).__name__)
        if z3.is_bool(v): return v
        if v.sort() == z3.IntSort(): return simp(v != 0)
        return self.ptr_nonnull(v)

    def as_int(self, v):
        if not z3.is_expr(v): raise Unsupported('integer expected, got %s' % type(v).__name__)
        if z3.is_bool(v): return z3.If(v, I(1), I(0))
        return v

    bytesrc = {}
    def int_cast(self, v, t1, t2):
        v = self.as_int(v)
        if t2[0] == 'enum' or t2[0] == 'ptr': return v
        if t2[0] == 'bool': return simp(v != 0)
        if t1[0] == 'enum': 
            vals = [x for _, x in self.enums[t1[1]]]
            lo1, hi1 = min(vals), max(vals)
        elif t1[0] in ('int', 'bool'): lo1, hi1 = int_range(t1)
        else: raise Unsupported('integral cast from %s' % (t1,))
        lo2, hi2 = int_range(t2)
        if lo2 <= lo1 and hi1 <= hi2: return v
        if self.inspec and self.bytes and t2 == ('int', 32, False): return v     # a specification speaks of the elements of the stream
        v = simp(v)
        if (lo2, hi2) == (-128, 127) and z3.is_app_of(v, z3.Z3_OP_ITE) and v.sexpr() in self.bytesrc: return self.bytesrc[v.sexpr()]
        if is_const_int(v):
            k = v.as_long()
            return I((k - lo2) % (hi2 - lo2 + 1) + lo2)
        if self.nonneg(v) and hi2 >= (1 << 31) - 1: return v      # lengths: taken as mathematical (stated)
        m = hi2 - lo2 + 1
        if lo2 < 0 and hi2 >= (1 << 31) - 1 and z3.is_app_of(v, z3.Z3_OP_ITE) and t1[0] == 'int':
            a, b = v.children()[1:]                        # an unsigned difference made signed again: the difference itself
            if is_const_int(simp(b - a)) and simp(b - a).as_long() == 1 << t1[1]: return a
        return z3.If(z3.And(v >= lo2, v <= hi2), v, (v - lo2) % m + lo2)

    def nonneg(self, v):
        if is_const_int(v): return v.as_long() >= 0
        if z3.is_app(v):
            k = v.decl().kind()
            if k == z3.Z3_OP_SEQ_LENGTH: return True
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL): return all(self.nonneg(c) for c in v.children())
        return False

    # ---- operators
    PURE = {'DeclRefExpr', 'IntegerLiteral', 'CharacterLiteral', 'CXXBoolLiteralExpr', 'ImplicitCastExpr', 'ParenExpr', 'BinaryOperator', 'UnaryOperator', 'MemberExpr', 'CXXThisExpr', 'ConstantExpr', 'CXXNullPtrLiteralExpr', 'GNUNullExpr', 'CStyleCastExpr', 'CXXStaticCastExpr'}
    def pure(self, n):
        k = n.get('kind')
        if k not in self.PURE: return False
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--', '*'): return False
        if k == 'BinaryOperator' and (n['opcode'].endswith('=') and n['opcode'] not in ('==', '!=', '<=', '>=')): return False
        if k == 'MemberExpr' and n.get('isArrow') and n['inner'][0]['kind'] not in ('CXXThisExpr', 'ImplicitCastExpr'): return False
        return all(self.pure(c) for c in n.get('inner', []))

    def e_BinaryOperator(self, n):
        op = n['opcode']
        a, b = n['inner']
        if op in ('&&', '||'):
            if self.pure(b):
                x = self.as_bool(self.rv(a))
                if op == '&&' and z3.is_false(simp(x)): return FALSE
                if op == '||' and z3.is_true(simp(x)): return TRUE
                y = self.as_bool(self.rv(b))
                return simp(z3.And(x, y) if op == '&&' else z3.Or(x, y))
            x = self.cond(a)
            if op == '&&': return self.as_bool(self.rv(b)) if x else FALSE
            return TRUE if x else self.as_bool(self.rv(b))
        if op == ',':
            self.ev(a); return self.ev(b)
        if op == '=':
            v = self.rv(b)
            l = self.lv(a)
            self.write(l, v)
            return l
        x, y = self.rv(a), self.rv(b)
        return self.binop(op, x, y, self.norm(node_type(n)), n, self.norm(node_type(a)))

    def binop(self, op, x, y, t, n, ta=None):
        if op in ('==', '!='):
            if isinstance(x, (PtrV, IterV, MapIter)) or isinstance(y, (PtrV, IterV, MapIter)): e = self.ptr_eq(x, y)
            elif z3.is_expr(x) and z3.is_expr(y):
                if z3.is_bool(x) != z3.is_bool(y): x, y = self.as_int(x), self.as_int(y)
                e = (x == y)
            else: e = self.eqv(x, y)
            return simp(e if op == '==' else z3.Not(e))
        if isinstance(x, PtrV) or isinstance(y, PtrV): return self.ptr_arith(op, x, y, n)
        if isinstance(x, IterV) or isinstance(y, IterV): return self.iter_arith(op, x, y)
        x, y = self.as_num(x), self.as_num(y)
        if op == '<': return simp(x < y)
        if op == '>': return simp(x > y)
        if op == '<=': return simp(x <= y)
        if op == '>=': return simp(x >= y)
        isd = t[0] == 'double'
        uns = t[0] == 'int' and not t[2]
        if op == '+': return simp(x + y)
        if op == '-':
            if uns:
                m = 1 << t[1]
                r = simp(x - y)
                if is_const_int(r): return I(r.as_long() % m)
                return simp(z3.If(x >= y, x - y, x - y + m))
            return simp(x - y)
        if op == '*': return simp(x * y)
        if op == '/':
            if isd: return x / y
            self.check(y != 0, 'division-by-zero')
            if uns or (is_const_int(y) and y.as_long() > 0 and self.nonneg(x)): return simp(x / y)
            q = z3.If(x >= 0, x / y, -((-x) / y))
            return simp(q)
        if op == '%':
            self.check(y != 0, 'division-by-zero')
            if uns: return simp(x % y)
            return simp(z3.If(x >= 0, x % z3.If(y >= 0, y, -y), -((-x) % z3.If(y >= 0, y, -y))))
        if op in ('&', '|', '^', '<<', '>>'): return self.bitop(op, x, y, t)
        raise Unsupported('operator ' + op)

    def bitop(self, op, x, y, t):
        x, y = simp(x), simp(y)
        if is_const_int(x) and is_const_int(y):
            a, b = x.as_long(), y.as_long()
            return I({'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b, '>>': a >> b}[op])
        if t[0] == 'bool': return {'&': z3.And, '|': z3.Or}[op](x, y)
        w = t[1] if t[0] == 'int' else 64
        bx, by = z3.Int2BV(x, w), z3.Int2BV(y, w)
        r = {'&': bx & by, '|': bx | by, '^': bx ^ by, '<<': bx << by, '>>': z3.LShR(bx, by)}[op]
        return z3.BV2Int(r, is_signed=(t[0] == 'int' and t[2]))

    def as_num(self, v):
        if z3.is_expr(v) and z3.is_bool(v): return z3.If(v, I(1), I(0))
        if not z3.is_expr(v): raise Unsupported('number expected, got %s' % type(v).__name__)
        return v

    def ptr_eq(self, x, y):
        if isinstance(x, IterV) and isinstance(y, IterV): return x.idx == y.idx
        if z3.is_expr(x) and z3.is_expr(y) and x.sort() == y.sort(): return x == y
        if isinstance(x, MapIter) and isinstance(y, MapIter): return self.mapiter_eq(x, y)
        if isinstance(x, PtrV) and isinstance(y, PtrV):
            return self.eqv(x, y)
        if isinstance(x, PtrV) and x.lv is None and z3.is_expr(y): return z3.Not(self.ptr_nonnull(y))
        if isinstance(y, PtrV) and y.lv is None and z3.is_expr(x): return z3.Not(self.ptr_nonnull(x))
        raise Unsupported('pointer comparison')

    def mapiter_eq(self, x, y):
        if z3.is_false(x.found): return z3.Not(y.found)
        if z3.is_false(y.found): return z3.Not(x.found)
        raise Unsupported('map iterator comparison')

    def unsupported(self, what): raise Unsupported(what)
    def mapiter_next(self, it):
        if not it.snap: raise Unsupported('++ on a map iterator')
        m = self.read(it.lv)
        self.check(it.found, 'map-iterator-in-range')
        self.check(z3.IsSubset(m.dom, it.snap[0]), 'map-not-extended-during-the-iteration')
        return it.at(simp(it.idx + 1))

    def ptr_arith(self, op, x, y, n):
        if isinstance(x, PtrV) and x.idx is not None and z3.is_expr(y):
            return PtrV(x.lv, simp(x.idx + y if op == '+' else x.idx - y))
        raise Unsupported('pointer arithmetic')

    def iter_arith(self, op, x, y):
        if isinstance(x, IterV) and isinstance(y, IterV):
            a, b = x.idx, y.idx
            if op == '-': return simp(a - b)
            return simp({'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op])
        if isinstance(x, IterV) and op in '+-': return IterV(x.lv, simp(x.idx + y if op == '+' else x.idx - y), x.rev)
        raise Unsupported('iterator arithmetic')

    def e_CompoundAssignOperator(self, n):
        a, b = n['inner']
        y = self.rv(b)
        l = self.lv(a)
        x = self.read(l)
        t = self.norm(node_type(a))
        ct = n.get('computeResultType', {})
        r = self.binop(n['opcode'][:-1], x, y, t, n)
        if t[0] == 'bool': r = self.as_bool(r)
        elif t[0] == 'int' and ct:
            t1 = self.norm(parse(ct.get('desugaredQualType', ct.get('qualType'))))
            if t1[0] == 'int': r = self.int_cast(r, t1, t)
            if self.jumps and is_const_int(simp(y)):
                for sp in self.specs:
                    if sp.kind == 'seq': sp.catch_up(r)
        self.write(l, r)
        return l

    def e_UnaryOperator(self, n):
        op = n['opcode']; x = self.one(n)
        if op == '!': return simp(z3.Not(self.as_bool(self.rv(x))))
        if op == '-': return simp(-self.as_num(self.rv(x)))
        if op == '+': return self.rv(x)
        if op == '~':
            return simp(-self.as_num(self.rv(x)) - 1)
        if op == '*':
            p = self.rv(x)
            if isinstance(p, PtrV):
                self.check(z3.BoolVal(p.lv is not None), 'null-dereference')
                if p.lv is None: raise PathDead()
                if p.idx is not None:
                    return self.index_lv(p.lv, p.idx, n)
                return p.lv
            if isinstance(p, IterV): return self.deref_iter(p)
            if z3.is_expr(p) and z3.is_seq(p):        # *"literal"
                return z3.If(z3.Length(p) > 0, p[0], I(0))
            if z3.is_expr(p): return self.opaque_deref(p, n)
            raise Unsupported('dereference of %s' % type(p).__name__)
        if op == '&':
            v = self.ev(x)
            if isinstance(v, Lval): return PtrV(v)
            raise Unsupported('address of')
        if op in ('++', '--'):
            l = self.lv(x)
            v = self.read(l)
            t = self.norm(node_type(x))
            if isinstance(v, IterV): nv = IterV(v.lv, simp(v.idx + (1 if op == '++' else -1)), v.rev)
            elif isinstance(v, PtrV): nv = PtrV(v.lv, simp(v.idx + (1 if op == '++' else -1)))
            elif isinstance(v, MapIter): nv = self.mapiter_next(v) if op == '++' else self.unsupported('-- on a map iterator')
            else:
                nv = self.binop(op[0], v, I(1), t, n)
            self.write(l, nv)
            return v if n.get('isPostfix') else l
        raise Unsupported('unary ' + op)

    def opaque_deref(self, p, n):
        raise Unsupported('dereference of opaque pointer at %s' % line_of(n))

    def deref_iter(self, it):
        seq = self.read(it.lv)
        i = it.idx
        if it.rev: i = simp(z3.Length(seq) - 1 - i)
        self.check(z3.And(i >= 0, i < z3.Length(seq)), 'iterator-in-range')
        et = self.elem_type(it.lv.ty) if it.lv.ty else None
        self.on_index(it.lv, seq, i)
        return it.lv.sub(('i', i, et), et)

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        if self.pure(a) and self.pure(b) and n.get('valueCategory') == 'prvalue':
            k = self.as_bool(self.rv(c))
            x, y = self.rv(a), self.rv(b)
            if self.jumps and is_const_int(x) and is_const_int(y): return x if self.choose(k) else y
            if z3.is_expr(x) and z3.is_expr(y) and x.sort() == y.sort(): return simp(z3.If(k, x, y))
            return x if self.choose(k) else y
        return self.ev(a) if self.cond(c) else self.ev(b)

    def e_ArraySubscriptExpr(self, n):
        a, i = n['inner']
        base = self.rv(a)
        idx = self.as_int(self.rv(i))
        if isinstance(base, PtrV):
            if base.lv is None:
                self.check(FALSE, 'null-dereference'); raise PathDead()
            if base.idx is None: raise Unsupported('subscript of object pointer')
            return self.index_lv(base.lv, simp(base.idx + idx), n)
        if z3.is_expr(base) and z3.is_seq(base):
            lv = self.new_cell(base, ('seq', node_type(n)), None)
            return self.index_lv(lv, idx, n)
        if z3.is_expr(base): return self.opaque_index(base, idx, n)
        raise Unsupported('subscript of %s' % type(base).__name__)

    def opaque_index(self, base, idx, n):
        t = self.norm(node_type(n))
        f = z3.Function('elt_%s' % base.sort(), base.sort(), z3.IntSort(), self.sort(t))
        return self.unpack(f(base, idx), t)

    def index_lv(self, lv, i, n, allow_end=False):
        seq = self.read(lv)
        et = self.elem_type(lv.ty)
        ln = z3.Length(seq)
        self.check(z3.And(i >= 0, (i <= ln) if allow_end else (i < ln)), 'index-in-bounds')
        self.on_index(lv, seq, i)
        return lv.sub(('i', i, et), et)

    def on_index(self, lv, seq, i):
        """a sequence element is read: unfold the specification there"""
        for sp in self.specs: sp.on_index(self, lv, seq, i)

    # ---- calls
    def call_args(self, nodes): return nodes

    def e_CallExpr(self, n):
        callee = strip_casts(n['inner'][0])
        args = n['inner'][1:]
        if callee['kind'] == 'DeclRefExpr' and callee['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return self.call_fn(callee['referencedDecl'], args, n)
        if callee['kind'] == 'MemberExpr': return self.e_CXXMemberCallExpr(n)
        f = self.rv(n['inner'][0])
        if isinstance(f, LambdaV): return self.call_lambda(f, args)
        if isinstance(f, tuple) and f[0] == 'fn': return self.call_fn(f[1], args, n)
        raise Unsupported('call at %s' % line_of(n))

    def e_UserDefinedLiteral(self, n):
        lit = n['inner'][1]
        while lit['kind'] != 'StringLiteral': lit = lit['inner'][0]
        return str_lit(decode_literal(lit['value']))

    def call_fn(self, d, args, n, name=None):
        name = re.sub(r'_\d+$', '', d['name']) if re.match(r'^u_.*_\d+$', d['name']) else d['name']
        c = self.contracts.get(name)
        if c: return c(self, n, None, args)
        m = self.models.get(name)
        if m: return m(self, n, args)
        g = self.byname.get('vc__' + name)
        if g: return self.redirected(g, None, args, n, name)
        f = self.resolve(d)
        if f is None: raise Unsupported('call to %s (no body, no contract, no model) at %s' % (name, line_of(n)))
        return self.inline(f, None, args, n)

    def resolve(self, d):
        did = d['id']
        if did in self.decls:
            m = self.id2mangled.get(did)
            if m and m in self.bymangled: return self.bymangled[m]
            if self.has_body(self.decls[did]): return self.decls[did]
        m = d.get('mangledName')
        if m and m in self.bymangled: return self.bymangled[m]
        # by name and type
        c = [f for f in self.byname.get(d.get('name'), []) if f['type']['qualType'] == d['type']['qualType']]
        return c[0] if c else None

    def inline(self, f, this, args, n, values=None):
        """execute the callee's own body"""
        st = self.st
        if len(st.frames) > 40: raise Unsupported('recursion in %s' % f['name'])
        ps = params(f)
        env = {}
        cid = n['id'] if n and 'id' in n else f['id']
        if values is None:
            values = []
            for i, p in enumerate(ps):
                t = node_type(p)
                if i < len(args) and args[i]['kind'] != 'CXXDefaultArgExpr':
                    a = self.ev(args[i])
                else:
                    init = [c for c in self.default_args(f, i) if c.get('kind')]
                    if not init: raise Unsupported('default argument')
                    a = self.ev(init[0])
                values.append(a)
        for p, a in zip(ps, values):
            t = node_type(p)
            if t[0] == 'ref':
                if not isinstance(a, Lval): a = self.new_cell(a, t[1], p.get('name'), key=(cid, p['id']))
                env[p['id']] = a
            else:
                if isinstance(a, Lval): a = self.read(a)
                env[p['id']] = self.new_cell(a, t, p.get('name'), key=(cid, p['id']))
        rt = f['type']['qualType'].split('(')[0].strip()
        isref = rt.endswith('&')
        self.inlined.add(self.qual(f))
        st.frames.append((st.env, 'ref' if isref else 'val', st.this))
        oldcs = st.callstr
        st.callstr = oldcs + (cid,)
        st.env = env
        if this is not None: st.this = this
        try:
            for c in f.get('inner', []):
                if c.get('kind') == 'CXXCtorInitializer': self.ctor_init(c, this)
            try: self.run_body(f); r = None
            except ReturnEx as e: r = e.v
        finally:
            if self.st is st:
                st.env, _, st.this = st.frames.pop()
                st.callstr = oldcs
        return r

    def default_args(self, f, i):
        ps = params(f)
        if i < len(ps) and any(c.get('kind') for c in ps[i].get('inner', [])): return ps[i]['inner']
        m = self.id2mangled.get(f['id'])
        for d in self.decls.values():
            if self.id2mangled.get(d['id']) == m:
                q = params(d)
                if i < len(q) and any(c.get('kind') for c in q[i].get('inner', [])): return q[i]['inner']
        return []

    def qual(self, f):
        c = self.cls_of(f)
        return (c + '::' if c else '') + f.get('name', '?')

    def e_CXXMemberCallExpr(self, n):
        m = n['inner'][0]
        while m['kind'] == 'ParenExpr': m = m['inner'][0]
        if m['kind'] != 'MemberExpr': raise Unsupported('member call through pointer')
        basen = m['inner'][0]
        base = self.ev(basen)
        bt = node_type(basen)
        if m.get('isArrow'):
            p = self.read(base) if isinstance(base, Lval) else base
            if isinstance(p, PtrV):
                if p.lv is None:
                    self.check(FALSE, 'null-dereference'); raise PathDead()
                obj = p.lv if p.idx is None else self.index_lv(p.lv, p.idx, n)
            elif isinstance(p, IterV): obj = self.deref_iter(p)
            else: obj = p
            bt = bt[1] if bt[0] == 'ptr' else bt
        else: obj = base
        return self.call_method(obj, bt, m['name'], n['inner'][1:], n, m.get('referencedMemberDecl'))

    def static_class(self, obj, bt):
        bt = self.norm(deref(bt))
        if bt[0] == 'cls':
            m = re.match(r'^(?:std::)?(?:basic_)?(istream|ostream|ios|streambuf)(<.*>)?$', bt[1])
            return m.group(1) if m else bt[1]
        return bt[0]

    def call_method(self, obj, bt, name, args, n, did=None):
        cls = self.static_class(obj, bt)
        v = self.read(obj) if isinstance(obj, Lval) else obj
        for c in self.cls_chain(cls):
            k = self.contracts.get(c + '::' + name)
            if k: return k(self, n, obj, args)
            mm = self.methodmodels.get((c, name))
            if mm: return mm(self, n, obj, args)
            g = self.byname.get('vc_%s__%s' % (c, name))
            if g: return self.redirected(g, obj, args, n, '%s::%s' % (c, name))
        f = None
        if did and did in self.memberid:
            f = self.resolve(self.memberid[did][1])
        if f is None:
            for c in self.cls_chain(cls):
                cc = [g for g in self.byname.get(name, []) if self.cls_of(g) == c]
                if cc: f = cc[0]; break
        if f is None: raise Unsupported('method %s::%s at %s' % (cls, name, line_of(n)))
        if f.get('storageClass') == 'static': return self.inline(f, None, args, n)
        if not isinstance(obj, Lval): obj = self.new_cell(obj, bt, None)
        return self.inline(f, obj, args, n)

    def redirected(self, fs, obj, args, n, what):
        """a library function replaced by its reference text in specs/ (an assumed contract, cross-checked natively)"""
        f = [g for g in fs if self.has_body(g) and len(params(g)) == len(args) + (obj is not None)]
        if not f: raise Unsupported('no model of %s with %d arguments' % (what, len(args)))
        self.trusted.add(what + ' (reference text in specs/)')
        vals = [] if obj is None else [obj if isinstance(obj, Lval) else self.new_cell(obj, node_type(params(f[0])[0])[1], None)]
        return self.inline(f[0], None, [], n, values=vals + [self.ev(a) for a in args])

    def cls_chain(self, c):
        out = [c]
        if c in self.classes:
            for b in self.classes[c]['bases']: out += self.cls_chain(b)
        return out

    def e_CXXOperatorCallExpr(self, n):
        callee = strip_casts(n['inner'][0])
        d = callee['referencedDecl']
        name = d['name']
        args = n['inner'][1:]
        # user-defined operator with a body in the sources
        f = None
        if d['kind'] == 'FunctionDecl':
            c = self.contracts.get(name)
            m = self.models.get(name)
            if m:
                r = m(self, n, args)
                if r is not NotImplemented: return r
            f = self.resolve(d)
            if f: return self.inline(f, None, args, n)
        if d['kind'] == 'CXXMethodDecl':
            bt = node_type(args[0])
            cls = self.static_class(None, bt)
            k = deref(bt)[0] == 'cls' and self.contracts.get('%s::%s' % (deref(bt)[1], name))
            if k: return k(self, n, self.ev(args[0]), args[1:])
            mm = self.methodmodels.get((cls, name)) or self.methodmodels.get((deref(bt)[1] if deref(bt)[0] == 'cls' else None, name))
            if mm: return mm(self, n, self.ev(args[0]), args[1:])
            if cls == 'cls' or cls in self.classes or True:
                if d['id'] in self.memberid: f = self.resolve(self.memberid[d['id']][1])
                if f and not self.is_opaque(cls):
                    obj = self.ev(args[0])
                    if not isinstance(obj, Lval): obj = self.new_cell(obj, bt, None)
                    if name == 'operator()' and isinstance(self.read(obj), LambdaV): return self.call_lambda(self.read(obj), args[1:])
                    return self.inline(f, obj, args[1:], n)
        m = self.models.get('$op')
        return m(self, n, name, args)

    def e_CXXConstructExpr(self, n):
        t = self.norm(node_type(n))
        args = n.get('inner', [])
        return self.construct(t, args, n)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, t, args, n):
        m = self.models.get('$ctor:' + t[0])
        if m:
            r = m(self, t, args, n)
            if r is not NotImplemented: return r
        if t[0] == 'cls':
            mm = self.models.get('$ctor:' + t[1])
            if mm: return mm(self, t, args, n)
            if t[1] in self.classes:
                ct = (n or {}).get('ctorType', {}).get('qualType', '')
                if len(args) == 1 and self.norm(deref(node_type(args[0]))) == t:
                    return self.rv(args[0])         # copy / move
                cands = [f for f in self.byname.get(t[1].split('::')[-1].split('<')[0], []) if f['kind'] == 'CXXConstructorDecl' and self.cls_of(f) == t[1]]
                if ct: cands = [f for f in cands if f['type']['qualType'].replace(' noexcept', '') == ct.replace(' noexcept', '')] or ([] if args else [f for f in cands if not params(f)])
                else: cands = [f for f in cands if len(params(f)) == len(args)]
                rec = Rec(t[1], {nm: self.raw_default(ft, fn) for nm, ft, fn in self.allfields(t[1])})
                if cands:
                    lv = self.new_cell(rec, t, None, key=('ctor', n['id']) if n and 'id' in n else None)
                    self.inline(cands[0], lv, args, n)
                    return self.read(lv)
                if not args: return self.init_fields(rec, t)
                raise Unsupported('constructor of %s' % t[1])
        if not args: return self.default(t)
        if t[0] == 'opt':
            v = self.rv(args[0])
            return v if isinstance(v, Rec) and v.cls == 'opt' else Rec('opt', {'has': TRUE, 'val': v})
        if len(args) == 1 : return self.rv(args[0])
        raise Unsupported('construct %s' % (t,))

    def raw_default(self, ft, fn):
        ft = self.norm(ft)
        init = [c for c in fn.get('inner', []) if c.get('kind') and not c['kind'].endswith('Comment')]
        if init and fn.get('hasInClassInitializer'):
            return self.rv(init[0])
        if ft[0] in ('int', 'bool', 'enum', 'double', 'ptr'): return self.fresh(ft, fn['name'])
        return self.default(ft, fn['name'])

    def init_fields(self, rec, t): return rec

    def ctor_init(self, c, this):
        if 'anyInit' in c:
            ini = [x for x in c.get('inner', []) if x.get('kind')]
            if not ini: return
            if ini[0]['kind'] == 'CXXDefaultInitExpr': return
            ft = node_type(c['anyInit'])
            if ft[0] == 'ref': raise Unsupported('reference member')
            v = self.rv(ini[0])
            self.write(this.sub(('f', c['anyInit']['name'])), v)
        elif 'baseInit' in c:
            ini = [x for x in c.get('inner', []) if x.get('kind')]
            if not ini: return
            e = ini[0]
            while e['kind'] in ('ExprWithCleanups',): e = e['inner'][0]
            bt = self.norm(node_type(e))
            if e['kind'] == 'CXXConstructExpr' and bt[0] == 'cls':
                args = e.get('inner', [])
                cands = [f for f in self.byname.get(bt[1], []) if f['kind'] == 'CXXConstructorDecl' and len(params(f)) == len(args)]
                if cands: self.inline(cands[0], this, args, e)
        elif 'delegatingInit' in c: raise Unsupported('delegating ctor')

    def e_InitListExpr(self, n):
        t = self.norm(node_type(n))
        if t[0] == 'seq':
            vals = [self.pack(self.rv(c), t[1]) for c in n.get('inner', [])]
            return seq_lit(vals, self.sort(t[1]))
        if t[0] == 'cls' and t[1] in self.classes:
            fl = self.allfields(t[1])
            vals = [self.rv(c) for c in n.get('inner', [])]
            return Rec(t[1], {fl[i][0]: (vals[i] if i < len(vals) else self.default(fl[i][1])) for i in range(len(fl))})
        if t[0] == 'pair':
            a, b = n['inner']
            return Rec('pair', {'first': self.rv(a), 'second': self.rv(b)})
        if len(n.get('inner', [])) == 1: return self.rv(n['inner'][0])
        if not n.get('inner'): return self.default(t)
        raise Unsupported('initialiser list of %s' % (t,))

    def e_LambdaExpr(self, n):
        return LambdaV(n, dict(self.st.env))
    def call_lambda(self, f, args):
        body = f.node['inner'][-1]
        op = None
        for c in f.node['inner'][0].get('inner', []):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()': op = c
        vals = []
        ps = params(op)
        for p, a in zip(ps, args): vals.append(self.ev(a))
        st = self.st
        cid = f.node['id']
        st.frames.append((st.env, 'val', st.this))
        env = dict(f.env)
        # by-reference captures share cells: the closure keeps the defining scope
        for p, a in zip(ps, vals):
            t = node_type(p)
            if t[0] == 'ref':
                if not isinstance(a, Lval): a = self.new_cell(a, t[1], p.get('name'), key=(cid, p['id']))
                env[p['id']] = a
            else:
                if isinstance(a, Lval): a = self.read(a)
                env[p['id']] = self.new_cell(a, t, p.get('name'), key=(cid, p['id']))
        st.env = env
        oldcs = st.callstr
        st.callstr = oldcs + (cid,)
        try:
            try: self.stmt(body); r = None
            except ReturnEx as e: r = e.v
        finally:
            if self.st is st:
                st.env, _, st.this = st.frames.pop()
                st.callstr = oldcs
        return r

    def e_CXXThrowExpr(self, n):
        if not n.get('inner'): raise ThrowEx('?')
        t = node_type(n['inner'][0])
        raise ThrowEx(t[1] if t[0] == 'cls' else str(t))

    def e_CXXNewExpr(self, n): raise Unsupported('new at %s' % line_of(n))
    def e_CXXDeleteExpr(self, n):
        self.ev(self.one(n)); return None
    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') == 'sizeof':
            at = n.get('argType')
            t = self.norm(parse(at.get('desugaredQualType', at['qualType']))) if at else self.norm(node_type(self.one(n)))
            if t[0] == 'int': return I(t[1] // 8)
            if t[0] == 'double': return I(8)
            if t[0] == 'bool': return I(1)
            if t[0] == 'ptr': return I(8)
        raise Unsupported('sizeof')

    # ------------------------------------------------------------ spec streams
    def in_len(self, rec):
        i = rec.f['$id']
        return z3.Int('N_' + i)
    def in_at(self, rec, pos):
        return z3.Function('IN_' + rec.f['$id'], z3.IntSort(), z3.IntSort())(pos)

    # ------------------------------------------------------------ entry
    def explore_from(self, ctx, tup, fn, end):
        work = [[]]
        saved = self.st
        n = 0
        try:
            while work:
                self.tick()
                if ctx is not None and ctx not in self.cuts: return       # invalidated meanwhile
                prefix = work.pop()
                st = State()
                st.xwork = work
                st.entry = []
                st.done = []
                if ctx is None: st.prefix, st.segs, st.work = prefix, [], work
                else:
                    cut = self.cuts[ctx]
                    st.prefix, st.segs, st.work = cut['entry'], list(cut['segs']) + [(ctx, tup, prefix)], None
                    st.entry = cut['entry']
                self.st = st
                n += 1
                if n > self.maxpaths: raise Unsupported('too many paths')
                self.stats['paths'] += 1
                try:
                    try:
                        r = fn()
                        end('return', r)
                    except ReturnEx as e: end('return', e.v)
                    except ExitEx as e: end('exit', e.code)
                    except ThrowEx as e: end('throw', e)
                except PathDead: pass
        finally: self.st = saved

    on_get = None
    phase = 'B'
    nospec = False
    def verify(self, f, setup, post, name=None):
        """discharge every obligation of f: entry state from setup(), post(kind, value) at its exits"""
        name = name or self.qual(f)
        self.curfn = name
        self.contracted.add(name)
        ctx = {}
        def run():
            vals = setup(self, ctx)
            try: return self.inline_entry(f, ctx.get('this'), vals, ctx)
            except ReturnEx as e: return e.v
        def ignore(kind, v): pass
        self.acc = {}
        t0 = time.time()
        # A: what varies at each cutpoint
        self.inferring += 1
        try:
            self.phase, self.nospec, self.cuts, self.queue = 'A', True, {}, []
            self.explore_from(None, None, run, ignore)
            while self.queue:
                c = self.queue.pop()
                if c in self.cuts: self.explore_from(c, None, run, ignore)
            self.log('  [%s] %d cutpoints, %.1fs' % (name, len(self.cuts), time.time() - t0))
            # B: invariants
            self.phase, self.nospec = 'B', False
            for attempt in range(20):
                self.cuts, self.queue = {}, []
                try:
                    self.explore_from(None, None, run, ignore)
                    while self.queue:
                        c, t = self.queue.pop()
                        if t in self.cuts[c]['table']: self.explore_from(c, t, run, ignore)
                    break
                except Restart: self.log('  restart')
            else: raise Unsupported('invariant inference does not settle')
        finally: self.inferring -= 1
        for c, d in self.cuts.items():
            self.log('  [%s] loop %s: %d varying leaves, %d control states, %d/%d invariants, %.1fs' % (name, line_of(self.acc[c]['n']), len(self.acc[c]['mods']), len(d['table']), sum(map(len, d['table'].values())), len(d['cands']), time.time() - t0))
            self.stats['loops'] += 1
            self.stats['invariants'] += sum(map(len, d['table'].values()))
        # C: obligations
        outcomes = {}
        def end(kind, v):
            outcomes[kind] = outcomes.get(kind, 0) + 1
            post(self, kind, v, ctx)
        self.explore_from(None, None, run, end)
        for c in list(self.cuts):
            for t in list(self.cuts[c]['table']): self.explore_from(c, t, run, end)
        # vacuity guard: at least one path must end
        o = Obligation('reachability:' + name, name); o.n = 1
        o.backend = {'path-exploration': 1}
        if not outcomes: o.status = 'failed'; o.model = 'no path of %s reaches its end: vacuous' % name
        self.obls[('reachability', name)] = o
        self.log('  [%s] done %.1fs, outcomes %s' % (name, time.time() - t0, outcomes))
        return outcomes

    def inline_entry(self, f, this, vals, ctx):
        st = self.st
        env = {}
        cid = f['id']
        for p, a in zip(params(f), vals):
            t = node_type(p)
            if t[0] == 'ref':
                if not isinstance(a, Lval): a = self.new_cell(a, t[1], p.get('name'), key=(cid, p['id']))
                env[p['id']] = a
            else:
                if isinstance(a, Lval): a = self.read(a)
                env[p['id']] = self.new_cell(a, t, p.get('name'), key=(cid, p['id']))
        rt = f['type']['qualType'].split('(')[0].strip()
        st.frames.append((st.env, 'ref' if rt.endswith('&') else 'val', st.this))
        st.env = env
        st.this = this
        st.in_setup = False
        st.basepc, st.basefresh = len(st.pc), st.nfresh
        st.replay = bool(st.segs)
        ctx['env'] = env
        for c in f.get('inner', []):
            if c.get('kind') == 'CXXCtorInitializer': self.ctor_init(c, this)
        self.run_body(f)
        return None

# ---------------------------------------------------------------- helpers
def simp(e):
    return z3.simplify(e) if z3.is_expr(e) else e

def same(a, b):
    if a is b: return True
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b) or simp(a).eq(simp(b))
    if isinstance(a, Rec) and isinstance(b, Rec):
        return a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) if k != '$id' else True for k in a.f)
    if isinstance(a, IterV) and isinstance(b, IterV): return a.lv.key() == b.lv.key() and same(a.idx, b.idx)
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        if a.lv is None or b.lv is None: return a.lv is b.lv
        return a.lv.key() == b.lv.key() and (a.idx is None or same(a.idx, b.idx))
    if isinstance(a, MapIter) and isinstance(b, MapIter):
        if a.lv.key() != b.lv.key() or (a.snap is None) != (b.snap is None) or (a.key is None) != (b.key is None): return False
        if a.snap: return same(a.snap[0], b.snap[0]) and same(a.idx, b.idx)
        return same(a.found, b.found) and (a.key is None or same(a.key, b.key))
    if isinstance(a, MapV) and isinstance(b, MapV): return same(a.dom, b.dom) and (a.val is None or same(a.val, b.val))
    if isinstance(a, LambdaV) and isinstance(b, LambdaV): return a.node is b.node
    if isinstance(a, StreamV) and isinstance(b, StreamV): return a.cell == b.cell
    if isinstance(a, str) and isinstance(b, str): return a == b
    if a is None and b is None: return True
    return False

def params(f): return [c for c in f.get('inner', []) if c.get('kind') == 'ParmVarDecl']

def node_arg(a):
    t = a.get('type', {})
    return t.get('qualType', a.get('value', '?')) if t else str(a.get('value', '?'))

def strip_casts(n):
    while n['kind'] in ('ImplicitCastExpr', 'ParenExpr'): n = n['inner'][0]
    return n

def annotate(top):
    """clang prints a line number only when it changes: recover one per node"""
    cur = {'file': '?', 'line': 0}
    def upd(l):
        if not l: return
        for k in ('spellingLoc', 'expansionLoc'):
            if k in l: upd(l[k])
        if 'file' in l: cur['file'] = l['file']
        if 'line' in l: cur['line'] = l['line']
    def walk(n):
        if not isinstance(n, dict): return
        upd(n.get('loc'))
        r = n.get('range') or {}
        upd(r.get('begin'))
        if r.get('begin'): n['_line'] = '%s:%d' % (os.path.basename(cur['file']), cur['line'])
        upd(r.get('end'))
        for c in n.get('inner', []): walk(c)
    walk(top)

def rest_from(s, i):
    """the elements of s from i on, as an uninterpreted function"""
    return z3.Function('rest_from', s.sort(), z3.IntSort(), s.sort())(s, simp(i))

def line_of(n):
    """file:line of a node"""
    r = n.get('_line')
    return r

def find_const(n):
    if n.get('kind') == 'ConstantExpr' and 'value' in n: return int(n['value'])
    if n.get('kind') == 'IntegerLiteral': return int(n['value'])
    for c in n.get('inner', []):
        v = find_const(c)
        if v is not None: return v
    return None

def decode_literal(s):
    m = re.match(r'^(u8|u|U|L)?"(.*)"$', s, re.S)
    body = m.group(2)
    out, i = [], 0
    while i < len(body):
        c = body[i]
        if c != '\\': out.append(c); i += 1; continue
        i += 1; c = body[i]
        simple = {'n': '\n', 't': '\t', 'r': '\r', '\\': '\\', '"': '"', "'": "'", 'a': '\a', 'b': '\b', 'f': '\f', 'v': '\v', '?': '?', 'e': '\x1b'}
        if c in simple: out.append(simple[c]); i += 1
        elif c == 'x':
            m2 = re.match(r'[0-9a-fA-F]+', body[i + 1:]); out.append(chr(int(m2.group(0), 16))); i += 1 + len(m2.group(0))
        elif c == 'u': out.append(chr(int(body[i + 1:i + 5], 16))); i += 5
        elif c == 'U': out.append(chr(int(body[i + 1:i + 9], 16))); i += 9
        elif c in '01234567':
            m2 = re.match(r'[0-7]{1,3}', body[i:]); out.append(chr(int(m2.group(0), 8))); i += len(m2.group(0))
        else: out.append(c); i += 1
    return ''.join(out)
