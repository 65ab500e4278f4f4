"""Models (assumed contracts) of the library functions the code under contract calls.

Each model is trusted: it states what the C++ standard library, ICU's UFILE and
lttoolbox's InputFile do.  The list of models a proof actually used is reported
in the evidence (engine.trusted).
"""
import hashlib, re
import z3
from ctypes_ import *
from engine import *
from engine import params
import engine as E

U_EOF = 0xFFFF
NPOS = (1 << 64) - 1

def model(eng, *names):
    def deco(f):
        for nm in names:
            def g(e, n, args, f=f, nm=nm):
                e.trusted.add(nm)
                return f(e, n, args)
            eng.models[nm] = g
        return f
    return deco

def meth(eng, cls, *names):
    def deco(f):
        for nm in names:
            def g(e, n, obj, args, f=f, nm=nm, cls=cls):
                if not nm.startswith('$'): e.trusted.add({'seq': 'std::basic_string/vector/list::'}.get(cls, cls + '::') + nm)
                return f(e, n, obj, args)
            eng.methodmodels[(cls, nm)] = g
        return f
    return deco

def install(eng):
    # ------------------------------------------------------------------ InputFile
    M = lambda *n: meth(eng, 'InputFile', *n)

    def in_spec(e, rec):
        return [sp for sp in e.specs if sp.kind == 'stream' and sp.iid == rec.f['$id']]

    @M('get')
    def _(e, n, obj, args):
        r = e.read(obj)
        if e.on_get: e.on_get(e, r)
        pos, N = r.f['$pos'], e.in_len(r)
        if e.choose(pos < N):
            c = e.in_at(r, pos)
            char_fact(e, c)
            for sp in in_spec(e, r):
                if not e.nospec and sp.admits: e.add(e.ask_spec(sp, 'admits', [c]))
                sp.unfold(e, pos)
            e.write(obj, e.read(obj).with_('$pos', simp(pos + 1)))
            return c
        e.write(obj, r.with_('$eof', TRUE))
        return I(U_EOF)

    @M('peek')
    def _(e, n, obj, args):
        r = e.read(obj)
        pos, N = r.f['$pos'], e.in_len(r)
        if e.choose(pos < N):
            c = e.in_at(r, pos)
            char_fact(e, c)
            for sp in in_spec(e, r):
                if not e.nospec and sp.admits: e.add(e.ask_spec(sp, 'admits', [c]))
            return c
        e.write(obj, r.with_('$eof', TRUE))
        return I(U_EOF)

    @M('unget')
    def _(e, n, obj, args):
        c = e.as_int(e.rv(args[0]))
        r = e.read(obj)
        pos = r.f['$pos']
        if e.choose(z3.And(r.f['$eof'], c == U_EOF)): return None
        e.check(z3.And(pos > 0, c == e.in_at(r, simp(pos - 1))), 'unget-of-the-character-just-read')
        e.write(obj, r.with_('$pos', simp(pos - 1)))

    @M('eof')
    def _(e, n, obj, args): return e.read(obj).f['$eof']

    @M('open', )
    def _(e, n, obj, args): return e.fresh(('bool',), 'open')
    @M('open_or_exit', 'wrap', 'close')
    def _(e, n, obj, args): return None

    def char_fact(e, c):
        if e.bytes: e.add(z3.And(c >= -128, c <= 127))
        else: e.add(z3.And(c >= 0, c <= 0x10FFFF, c != U_EOF))

    # ------------------------------------------------------------------ optional values
    O = lambda *n: meth(eng, 'opt', *n)
    def held(e, obj):
        v = e.read(obj) if isinstance(obj, Lval) else obj
        if not e.choose(v.f['has']): raise ThrowEx('empty optional')
        return obj if isinstance(obj, Lval) else e.new_cell(v, None, None)
    @O('operator bool')
    def _(e, n, obj, args): return (e.read(obj) if isinstance(obj, Lval) else obj).f['has']
    @O('operator*')
    def _(e, n, obj, args): return held(e, obj).sub(('f', 'val'))
    @O('operator->')
    def _(e, n, obj, args): return PtrV(held(e, obj).sub(('f', 'val')))
    @O('operator=')
    def _(e, n, obj, args):
        v = e.rv(args[0])
        e.write(obj, v if isinstance(v, Rec) and v.cls == 'opt' else Rec('opt', {'has': TRUE, 'val': v}))
        return obj

    # ------------------------------------------------------------------ std::cin, std::cout (bytes)
    eng.bytes = False
    IS = lambda *n: meth(eng, 'istream', *n)
    OS = lambda *n: meth(eng, 'ostream', *n)
    def cin(e, n):
        if 'in:in' not in e.st.ghost: raise Unsupported('std::cin')
        e.bytes = True
        return e.st.ghost['in:in']
    eng.models['$var:cin'] = cin
    def cout(e, n):
        if 'out' not in e.st.ghost: raise Unsupported('std::cout')
        return e.st.ghost['out']
    eng.models['$var:cout'] = cout
    @IS('get')
    def _(e, n, obj, args):
        r = e.read(obj)
        if e.on_get: e.on_get(e, r)
        pos, N = r.f['$pos'], e.in_len(r)
        fail = r.f.get('$fail', FALSE)
        if not e.choose(z3.Or(fail, r.f['$eof'])) and e.choose(pos < N):
            c = e.in_at(r, pos)
            char_fact(e, c)
            for sp in in_spec(e, r):
                if not e.nospec and sp.admits: e.add(e.ask_spec(sp, 'admits', [c]))
                sp.unfold(e, pos)
            e.write(obj, e.read(obj).with_('$pos', simp(pos + 1)))
            if args:
                e.write(e.lv(args[0]), c)
                return obj
            v = simp(z3.If(c < 0, c + 256, c))
            e.bytesrc[v.sexpr()] = c
            return v
        e.write(obj, r.with_('$eof', TRUE).with_('$fail', TRUE))
        return obj if args else I(-1)
    @IS('peek')
    def _(e, n, obj, args):
        r = e.read(obj)
        pos, N = r.f['$pos'], e.in_len(r)
        if not e.choose(z3.Or(r.f.get('$fail', FALSE), r.f['$eof'])) and e.choose(pos < N):
            c = e.in_at(r, pos)
            char_fact(e, c)
            v = simp(z3.If(c < 0, c + 256, c))
            e.bytesrc[v.sexpr()] = c
            return v
        e.write(obj, r.with_('$eof', TRUE))
        return I(-1)
    @IS('tie', 'rdbuf')
    def _(e, n, obj, args): return None
    @IS('operator bool')
    def _(e, n, obj, args): return simp(z3.Not(e.read(obj).f['$fail']))
    meth(eng, 'ios', 'operator bool')(lambda e, n, obj, args: simp(z3.Not(e.read(obj).f['$fail'])))
    meth(eng, 'ios', 'tie', 'rdbuf')(lambda e, n, obj, args: None)
    meth(eng, 'ios', 'operator!')(lambda e, n, obj, args: e.read(obj).f['$fail'])
    meth(eng, 'streambuf', 'pubsetbuf')(lambda e, n, obj, args: None)
    @OS('put')
    def _(e, n, obj, args):
        emit(e, PtrV(obj), z3.Unit(simp(e.as_int(e.rv(args[0])))))
        return obj
    @OS('flush')
    def _(e, n, obj, args):
        r = e.read(obj)
        e.write(obj, r.with_('flushed', r.f['out']))
        return obj
    def ostream_out(e, n, args):
        o = e.ev(args[0])
        if not isinstance(o, Lval): raise Unsupported('operator<< at %s' % line_of(n))
        x = strip_casts(args[1])
        if x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['name'] == 'endl':
            emit(e, PtrV(o), seq_lit([10]))
            r = e.read(o); e.write(o, r.with_('flushed', r.f['out']))
            return o
        if x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['name'] == 'flush':
            r = e.read(o); e.write(o, r.with_('flushed', r.f['out']))
            return o
        t = e.norm(deref(node_type(args[1])))
        if t[0] == 'cls' and n.get('kind') == 'CXXOperatorCallExpr':
            f = e.resolve(strip_casts(n['inner'][0])['referencedDecl'])
            if f: return e.inline(f, None, [], n, values=[o, e.ev(args[1])])
        v = e.rv(args[1])
        if z3.is_expr(v) and z3.is_seq(v): emit(e, PtrV(o), v)
        elif t[0] == 'int' and t[1] <= 16: emit(e, PtrV(o), z3.Unit(e.as_int(v)))
        elif t[0] == 'int': emit(e, PtrV(o), z3.Function('decimal', z3.IntSort(), z3.SeqSort(z3.IntSort()))(e.as_int(v)))
        else: raise Unsupported('operator<< of %s at %s' % (t, line_of(n)))
        return o
    eng.models['$ostream<<'] = ostream_out

    # ------------------------------------------------------------------ UFILE
    def out_cell(e, p):
        if isinstance(p, Lval): p = e.read(p)
        if isinstance(p, PtrV) and p.lv is not None: return p.lv.sub(('f', 'out'))
        raise Unsupported('output stream %s' % type(p).__name__)
    eng.out_cell = out_cell

    def emit(e, p, s):
        l = out_cell(e, p)
        e.write(l, cat(e.read(l), s))
    eng.emit = emit

    for nm in ('u_tolower', 'u_toupper', 'u_totitle'):
        def conv(e, n, args, nm=nm):
            r = z3.Function(nm, z3.IntSort(), z3.IntSort())(e.as_int(e.rv(args[0])))
            e.add(z3.And(r >= 0, r <= 0x10FFFF))
            return r
        model(eng, nm)(conv)
    for nm in ('u_isalnum', 'u_isalpha', 'u_isdigit', 'u_isspace', 'u_isupper', 'u_islower', 'u_ispunct', 'u_istitle'):
        def cls(e, n, args, nm=nm): return z3.If(z3.Function(nm, z3.IntSort(), z3.BoolSort())(e.as_int(e.rv(args[0]))), I(1), I(0))
        model(eng, nm)(cls)
    @model(eng, 'u_fputc')
    def _(e, n, args):
        c = e.as_int(e.rv(args[0]))
        emit(e, e.rv(args[1]), z3.Unit(simp(c)))
        return c

    @model(eng, 'write')
    def _(e, n, args):
        emit(e, e.rv(args[1]), as_seq(e, e.rv(args[0])))

    @model(eng, 'u_fputs', 'u_fputs')
    def _(e, n, args):
        emit(e, e.rv(args[1]), cat(as_seq(e, e.rv(args[0])), seq_lit([10])))

    @model(eng, 'u_fflush')
    def _(e, n, args):
        l = out_cell(e, e.rv(args[0]))
        r = e.read(Lval(l.cell, l.path[:-1]))
        if 'flushed' in r.f: e.write(Lval(l.cell, l.path[:-1]), r.with_('flushed', r.f['out']))
    @model(eng, 'fflush', 'u_fclose', 'fclose', 'u_fsetcodepage')
    def _(e, n, args): return None

    @model(eng, 'u_fprintf')
    def _(e, n, args):
        fmt = strip_casts(args[1])
        if fmt['kind'] != 'StringLiteral': raise Unsupported('u_fprintf with a computed format')
        s = decode_literal(fmt['value'])
        out, k, i = [], 2, 0
        p = e.rv(args[0])
        while i < len(s):
            if s[i] != '%':
                out.append(z3.Unit(I(ord(s[i])))); i += 1; continue
            m = re.match(r'%(\.\*)?([SCdcs%])', s[i:])
            if not m: raise Unsupported('u_fprintf format %r' % s)
            i += m.end()
            ch = m.group(2)
            if ch == '%': out.append(z3.Unit(I(37))); continue
            if m.group(1): k += 1
            v = e.rv(args[k]); k += 1
            if ch in 'Ss': out.append(as_seq(e, v))
            elif ch in 'Cc': out.append(z3.Unit(e.as_int(v)))
            else: out.append(z3.Function('decimal', z3.IntSort(), z3.SeqSort(z3.IntSort()))(e.as_int(v)))
        emit(e, p, cat(*out) if out else seq_lit([]))
        return I(0)

    @model(eng, 'u_finit')
    def _(e, n, args):
        if 'out' not in e.st.ghost: raise Unsupported('u_finit')
        return PtrV(e.st.ghost['out'])
    @model(eng, 'tryToSetLocale', 'setlocale', 'sync_with_stdio')
    def _(e, n, args): return None
    @model(eng, 'strcmp')
    def _(e, n, args):
        a, b = as_seq(e, e.rv(args[0])), as_seq(e, e.rv(args[1]))
        return simp(z3.If(a == b, I(0), I(1)))

    @model(eng, 'exit', '_exit', 'abort')
    def _(e, n, args):
        raise ExitEx(e.rv(args[0]) if args else I(134))

    @model(eng, 'move', 'forward')
    def _(e, n, args): return e.ev(args[0])

    @model(eng, 'swap')
    def _(e, n, args):
        a, b = e.lv(args[0]), e.lv(args[1])
        x, y = e.read(a), e.read(b)
        e.write(a, y); e.write(b, x)

    @model(eng, 'min')
    def _(e, n, args):
        a, b = e.rv(args[0]), e.rv(args[1])
        return simp(z3.If(b < a, b, a))
    @model(eng, 'max')
    def _(e, n, args):
        a, b = e.rv(args[0]), e.rv(args[1])
        return simp(z3.If(a < b, b, a))
    @model(eng, 'abs', 'fabs')
    def _(e, n, args):
        a = e.rv(args[0])
        return simp(z3.If(a < 0, -a, a))

    def as_seq(e, v):
        if isinstance(v, Lval): v = e.read(v)
        if z3.is_expr(v) and z3.is_seq(v): return v
        if z3.is_expr(v) and v.sort() == z3.IntSort(): return z3.Unit(v)
        if isinstance(v, PtrV) and v.lv is not None and v.idx is not None:
            s = e.read(v.lv)
            if is_const_int(v.idx) and v.idx.as_long() == 0: return s
            return z3.SubSeq(s, v.idx, z3.Length(s) - v.idx)
        raise Unsupported('string expected, got %s' % type(v).__name__)
    eng.as_seq = as_seq

    @model(eng, 'operator+=')
    def _(e, n, args):      # lttoolbox: UString += UChar32 (a code point is one element of the model)
        l = e.lv(args[0])
        e.write(l, cat(e.read(l), as_seq(e, e.rv(args[1]))))
        return l

    @model(eng, 'operator+')
    def _(e, n, args):
        if node_type(n)[0] != 'seq': return NotImplemented
        return cat(as_seq(e, e.rv(args[0])), as_seq(e, e.rv(args[1])))

    def cmp_ops(name, e, n, args):
        x, y = e.rv(args[0]), e.rv(args[1])
        if isinstance(x, (IterV, MapIter, PtrV)) or isinstance(y, (IterV, MapIter, PtrV)):
            return e.binop(name[8:], x, y, ('bool',), n)
        if z3.is_expr(x) and z3.is_seq(x) or z3.is_expr(y) and z3.is_seq(y):
            x, y = as_seq(e, x), as_seq(e, y)
            if name == 'operator==': return simp(x == y)
            if name == 'operator!=': return simp(x != y)
            lt = z3.Function('lexlt_%s' % re.sub(r'\W', '_', str(x.sort())), x.sort(), x.sort(), z3.BoolSort())
            if name == 'operator<': return lt(x, y)
            if name == 'operator>': return lt(y, x)
            if name == 'operator<=': return z3.Not(lt(y, x))
            return z3.Not(lt(x, y))
        if isinstance(x, (Rec, MapV)) and name in ('operator==', 'operator!='):
            q = e.eqv(x, y)
            return simp(q if name == 'operator==' else z3.Not(q))
        return NotImplemented
    for o in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
        def g(e, n, args, o=o):
            t = e.norm(deref(node_type(args[0])))
            if t[0] == 'cls' and t[1] in e.classes and e.resolve(strip_casts(n['inner'][0])['referencedDecl']): return NotImplemented
            return cmp_ops(o, e, n, args)
        eng.models[o] = g

    def is_err(e, node):
        while node['kind'] in ('CXXOperatorCallExpr', 'ImplicitCastExpr', 'ParenExpr', 'CXXMemberCallExpr', 'MemberExpr', 'ExprWithCleanups') :
            if node['kind'] == 'CXXOperatorCallExpr': node = node['inner'][1]
            else: node = node['inner'][0]
        return node.get('kind') == 'DeclRefExpr' and node['referencedDecl']['name'] in ('cerr', 'wcerr', 'clog')
    eng.is_err = is_err

    @model(eng, 'operator<<')
    def _(e, n, args):
        if is_err(e, args[0]): return None
        m = e.models.get('$ostream<<')
        if m: return m(e, n, args)
        raise Unsupported('operator<< at %s' % line_of(n))

    def op(e, n, name, args):
        if name == 'operator=':
            v = e.rv(args[1])
            l = e.lv(args[0])
            lt = e.norm(deref(node_type(args[0])))
            if lt[0] == 'seq' and z3.is_expr(v) and v.sort() == z3.IntSort() and e.sort(lt) != v.sort(): v = z3.Unit(v)
            e.write(l, v)
            return l
        if name == 'operator+=':
            l = e.lv(args[0])
            b = e.rv(args[1])
            x = e.read(l)
            if isinstance(x, IterV): e.write(l, IterV(x.lv, simp(x.idx + b), x.rev)); return l
            e.write(l, cat(x, as_seq(e, b)))
            return l
        if name == 'operator-=':
            l = e.lv(args[0]); b = e.rv(args[1]); x = e.read(l)
            if isinstance(x, IterV): e.write(l, IterV(x.lv, simp(x.idx - b), x.rev)); return l
            raise Unsupported('-=')
        if name == 'operator[]':
            l = e.ev(args[0])
            if not isinstance(l, Lval): l = e.new_cell(l, node_type(args[0]), None)
            c = e.read(l)
            if isinstance(c, MapV):
                k = e.pack(e.rv(args[1]), c.kt)
                if not e.choose(z3.Select(c.dom, k)):
                    e.write(l, MapV(c.kt, c.vt, z3.Store(c.dom, k, TRUE), z3.Store(c.val, k, e.pack(e.default(c.vt), c.vt))))
                return l.sub(('k', k, c.vt), c.vt)
            i = e.as_int(e.rv(args[1]))
            isstr = 'basic_string' in str(args[0]['type'])
            if isstr and 'view' not in str(args[0]['type']):
                # operator[](size()) is the terminating NUL
                s = e.read(l)
                e.check(z3.And(i >= 0, i <= z3.Length(s)), 'index-in-bounds')
                if e.choose(i == z3.Length(s)): return e.new_cell(I(0), ('int', 16, False), None)
                e.on_index(l, s, i)
                et = e.elem_type(l.ty if l.ty else node_type(args[0]))
                return l.sub(('i', i, et), et)
            if l.ty is None or e.norm(deref(l.ty))[0] != 'seq': l = Lval(l.cell, l.path, node_type(args[0]))
            return e.index_lv(l, i, n)
        if name == 'operator*':
            v = e.rv(args[0])
            if isinstance(v, IterV): return e.deref_iter(v)
            if isinstance(v, MapIter): return e.mapiter_deref(v, n)
            if isinstance(v, PtrV): 
                e.check(z3.BoolVal(v.lv is not None), 'null-dereference')
                return v.lv
            if isinstance(v, Rec) and '$has' in v.f:
                e.check(v.f['$has'], 'optional-has-value')
                return v.f['$val']
        if name == 'operator->':
            v = e.rv(args[0])
            return v
        if name in ('operator++', 'operator--'):
            l = e.lv(args[0])
            v = e.read(l)
            d = 1 if name == 'operator++' else -1
            if isinstance(v, IterV):
                e.write(l, IterV(v.lv, simp(v.idx + d), v.rev))
                return v if len(args) > 1 else l
            if isinstance(v, MapIter) and d == 1:
                e.write(l, e.mapiter_next(v))
                return v if len(args) > 1 else l
        if name in ('operator+', 'operator-'):
            x, y = e.rv(args[0]), e.rv(args[1])
            if isinstance(x, IterV) or isinstance(y, IterV): return e.iter_arith(name[-1], x, y)
        if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            r = cmp_ops(name, e, n, args)
            if r is not NotImplemented: return r
        if name == 'operator<<':
            if is_err(e, args[0]): return None
            m = e.models.get('$ostream<<')
            if m: return m(e, n, args)
        if name == 'operator()':
            v = e.rv(args[0])
            if isinstance(v, LambdaV): return e.call_lambda(v, args[1:])
        raise Unsupported('%s on %s at %s' % (name, node_type(args[0]), line_of(n)))
    eng.models['$op'] = op

    # ------------------------------------------------------------------ constructors
    def ctor_seq(e, t, args, n):
        es = e.sort(t)
        if not args: return z3.Empty(es)
        ts = [e.norm(deref(node_type(a))) for a in args]
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if len(args) == 0: return z3.Empty(es)
        if len(args) == 1:
            v = e.rv(args[0])
            if z3.is_expr(v) and z3.is_seq(v):
                return v
            if z3.is_expr(v) and v.sort() == z3.IntSort():     # vector(n)
                if is_const_int(simp(v)):
                    return seq_lit([e.pack(e.default(t[1]), t[1])] * simp(v).as_long(), e.sort(t[1]))
                return filled(e, t, v, e.pack(e.default(t[1]), t[1]))
            return as_seq(e, v)
        if len(args) == 2:
            a, b = e.rv(args[0]), e.rv(args[1])
            if isinstance(a, IterV) and isinstance(b, IterV):
                s = e.read(a.lv)
                return z3.SubSeq(s, a.idx, b.idx - a.idx)
            if z3.is_expr(a) and z3.is_seq(a) and z3.is_expr(b) and b.sort() == z3.IntSort():
                return z3.SubSeq(a, I(0), b)
            if z3.is_expr(a) and a.sort() == z3.IntSort():
                b = e.pack(b, t[1])
                if is_const_int(simp(a)): return seq_lit([b] * simp(a).as_long(), e.sort(t[1]))
                return filled(e, t, a, b)
        if len(args) == 3:
            a, b, c = e.rv(args[0]), e.rv(args[1]), e.rv(args[2])
            if z3.is_expr(a) and z3.is_seq(a): return substr(e, a, b, c)
        raise Unsupported('constructor of a sequence at %s' % line_of(n))
    eng.models['$ctor:seq'] = ctor_seq

    def filled(e, t, k, v):
        """a sequence of k copies of v"""
        s = e.fresh(t, 'filled')
        j = z3.Int('j!f')
        e.add(z3.Length(s) == k)
        e.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), s[j] == v)))
        return s

    def ctor_pair(e, t, args, n):
        if len(args) == 2: return Rec('pair', {'first': e.rv(args[0]), 'second': e.rv(args[1])})
        return NotImplemented
    eng.models['$ctor:pair'] = ctor_pair
    @model(eng, 'make_pair')
    def _(e, n, args): return Rec('pair', {'first': e.rv(args[0]), 'second': e.rv(args[1])})

    # ------------------------------------------------------------------ sequences
    S = lambda *n: meth(eng, 'seq', *n)
    def val(e, obj): return e.read(obj) if isinstance(obj, Lval) else obj
    def et(e, obj, n=None):
        if isinstance(obj, Lval) and obj.ty and e.norm(deref(obj.ty))[0] == 'seq': return e.norm(deref(obj.ty))[1]
        if n is not None:
            b = n['inner'][0]['inner'][0]
            t = e.norm(deref(node_type(b)))
            if t[0] == 'ptr': t = e.norm(t[1])
            if t[0] == 'seq': return t[1]
        raise Unsupported('element type')

    @S('size', 'length')
    def _(e, n, obj, args): return simp(z3.Length(val(e, obj)))
    @S('empty')
    def _(e, n, obj, args): return simp(z3.Length(val(e, obj)) == 0)
    @S('operator=')
    def _(e, n, obj, args):
        e.write(obj, as_seq(e, e.rv(args[0])))
        return obj
    @S('clear')
    def _(e, n, obj, args): e.write(obj, z3.Empty(val(e, obj).sort()))
    @S('reserve', 'shrink_to_fit')
    def _(e, n, obj, args): return None
    @S('push_back', 'emplace_back', 'push')
    def _(e, n, obj, args):
        t = et(e, obj, n)
        x = e.pack(e.rv(args[0]), t) if args else e.pack(e.default(t), t)
        e.write(obj, cat(val(e, obj), z3.Unit(x)))
    @S('push_front')
    def _(e, n, obj, args):
        e.write(obj, cat(z3.Unit(e.pack(e.rv(args[0]), et(e, obj, n))), val(e, obj)))
    @S('pop_back')
    def _(e, n, obj, args):
        s = val(e, obj)
        e.check(z3.Length(s) > 0, 'pop-of-non-empty')
        e.write(obj, simp(z3.SubSeq(s, I(0), z3.Length(s) - 1)))
    @S('pop_front')
    def _(e, n, obj, args):
        s = val(e, obj)
        e.check(z3.Length(s) > 0, 'pop-of-non-empty')
        e.write(obj, simp(z3.SubSeq(s, I(1), z3.Length(s) - 1)))
    @S('back', 'top')
    def _(e, n, obj, args):
        s = val(e, obj)
        e.check(z3.Length(s) > 0, 'back-of-non-empty')
        i = simp(z3.Length(s) - 1)
        e.on_index(obj, s, i)
        if isinstance(obj, Lval): return obj.sub(('i', i, et(e, obj, n)), et(e, obj, n))
        return e.unpack(e.nth(s, i), et(e, obj, n))
    @S('front')
    def _(e, n, obj, args):
        s = val(e, obj)
        e.check(z3.Length(s) > 0, 'front-of-non-empty')
        e.on_index(obj, s, I(0))
        if isinstance(obj, Lval): return obj.sub(('i', I(0), et(e, obj, n)), et(e, obj, n))
        return e.unpack(e.nth(s, I(0)), et(e, obj, n))
    @S('at')
    def _(e, n, obj, args):
        i = e.as_int(e.rv(args[0]))
        s = val(e, obj)
        if not e.choose(z3.And(i >= 0, i < z3.Length(s))): raise ThrowEx('std::out_of_range')
        e.on_index(obj, s, i)
        if isinstance(obj, Lval): return obj.sub(('i', i, et(e, obj, n)), et(e, obj, n))
        return e.unpack(e.nth(s, i), et(e, obj, n))
    @S('begin', 'cbegin')
    def _(e, n, obj, args):
        if not isinstance(obj, Lval): obj = e.new_cell(obj, ('seq', et(e, obj, n)), None)
        return IterV(obj, I(0))
    @S('end', 'cend')
    def _(e, n, obj, args):
        if not isinstance(obj, Lval): obj = e.new_cell(obj, ('seq', et(e, obj, n)), None)
        return IterV(obj, simp(z3.Length(e.read(obj))))
    @S('rbegin', 'crbegin')
    def _(e, n, obj, args): return IterV(obj, I(0), True)
    @S('rend', 'crend')
    def _(e, n, obj, args): return IterV(obj, simp(z3.Length(e.read(obj))), True)
    @S('c_str', 'data', 'str')
    def _(e, n, obj, args): return val(e, obj)
    @S('pop')
    def _(e, n, obj, args):
        s = val(e, obj)
        e.check(z3.Length(s) > 0, 'pop-nonempty')
        m = n['inner'][0]['inner'][0]
        q = m['type'].get('desugaredQualType', m['type']['qualType'])
        e.write(obj, simp(z3.SubSeq(s, I(1), z3.Length(s) - 1) if 'queue<' in q else z3.SubSeq(s, I(0), z3.Length(s) - 1)))
    @S('append')
    def _(e, n, obj, args):
        s = val(e, obj)
        vs = [e.rv(a) for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if len(vs) == 1: r = cat(s, as_seq(e, vs[0]))
        elif len(vs) == 2 and isinstance(vs[0], IterV): r = cat(s, z3.SubSeq(e.read(vs[0].lv), vs[0].idx, vs[1].idx - vs[0].idx))
        elif len(vs) == 2 and vs[0].sort() == z3.IntSort() and is_const_int(simp(vs[0])): r = cat(s, *([z3.Unit(vs[1])] * simp(vs[0]).as_long()))
        elif len(vs) == 3: r = cat(s, substr(e, as_seq(e, vs[0]), vs[1], vs[2]))
        elif len(vs) == 2: r = cat(s, z3.SubSeq(as_seq(e, vs[0]), I(0), vs[1]))
        else: raise Unsupported('append')
        e.write(obj, r)
        return obj
    @S('assign')
    def _(e, n, obj, args):
        vs = [e.rv(a) for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if len(vs) == 1: e.write(obj, as_seq(e, vs[0])); return obj
        if len(vs) == 2 and isinstance(vs[0], IterV): e.write(obj, z3.SubSeq(e.read(vs[0].lv), vs[0].idx, vs[1].idx - vs[0].idx)); return obj
        raise Unsupported('assign')
    @S('swap')
    def _(e, n, obj, args):
        o = e.lv(args[0]); a, b = e.read(obj), e.read(o)
        e.write(obj, b); e.write(o, a)

    def substr(e, s, p, k):
        ln = z3.Length(s)
        if not e.choose(z3.And(p >= 0, p <= ln)): raise ThrowEx('std::out_of_range')
        p, k = simp(p), simp(k)
        if is_const_int(k) and k.as_long() >= (1 << 63): k = simp(ln - p)
        elif not e.nonneg(k):
            # a negative count was converted to a huge unsigned one: the rest of the string
            k = simp(z3.If(z3.And(k >= 0, k <= ln - p), k, ln - p))
        return simp(z3.SubSeq(s, p, k))
    eng.substr = substr
    @S('substr')
    def _(e, n, obj, args):
        s = val(e, obj)
        p = e.as_int(e.rv(args[0])) if args and args[0]['kind'] != 'CXXDefaultArgExpr' else I(0)
        k = e.as_int(e.rv(args[1])) if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' else I(NPOS)
        return substr(e, s, p, k)
    @S('erase')
    def _(e, n, obj, args):
        s = val(e, obj)
        vs = [e.rv(a) for a in args if a['kind'] != 'CXXDefaultArgExpr']
        ln = z3.Length(s)
        if vs and isinstance(vs[0], IterV):
            i = vs[0].idx
            j = vs[1].idx if len(vs) > 1 else simp(i + 1)
            e.check(z3.And(i >= 0, i <= j, j <= ln), 'erase-range-valid')
            e.write(obj, simp(cat(z3.SubSeq(s, I(0), i), z3.SubSeq(s, j, ln - j))))
            return IterV(obj, i)
        p = vs[0] if vs else I(0)
        k = vs[1] if len(vs) > 1 else None
        if not e.choose(z3.And(p >= 0, p <= ln)): raise ThrowEx('std::out_of_range')
        if k is None: e.write(obj, simp(z3.SubSeq(s, I(0), p)))
        else:
            k = simp(z3.If(z3.And(k >= 0, k <= ln - p), k, ln - p))
            e.write(obj, simp(cat(z3.SubSeq(s, I(0), p), z3.SubSeq(s, p + k, ln - p - k))))
        return obj
    @S('insert')
    def _(e, n, obj, args):
        s = val(e, obj)
        vs = [e.rv(a) for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if isinstance(vs[0], IterV) and len(vs) == 2 and not isinstance(vs[1], IterV):
            i = vs[0].idx
            e.check(z3.And(i >= 0, i <= z3.Length(s)), 'insert-position-valid')
            e.write(obj, simp(cat(z3.SubSeq(s, I(0), i), z3.Unit(e.pack(vs[1], et(e, obj, n))), z3.SubSeq(s, i, z3.Length(s) - i))))
            return IterV(obj, i)
        if isinstance(vs[0], IterV) and len(vs) == 3 and isinstance(vs[1], IterV):
            i = vs[0].idx
            mid = z3.SubSeq(e.read(vs[1].lv), vs[1].idx, vs[2].idx - vs[1].idx)
            e.check(z3.And(i >= 0, i <= z3.Length(s)), 'insert-position-valid')
            e.write(obj, simp(cat(z3.SubSeq(s, I(0), i), mid, z3.SubSeq(s, i, z3.Length(s) - i))))
            return IterV(obj, i)
        if len(vs) == 2 and z3.is_expr(vs[0]):
            i = vs[0]
            if not e.choose(z3.And(i >= 0, i <= z3.Length(s))): raise ThrowEx('std::out_of_range')
            e.write(obj, simp(cat(z3.SubSeq(s, I(0), i), as_seq(e, vs[1]), z3.SubSeq(s, i, z3.Length(s) - i))))
            return obj
        raise Unsupported('insert')
    @model(eng, 'find')
    def _(e, n, args):
        a, b, x = e.rv(args[0]), e.rv(args[1]), e.rv(args[2])
        if not (isinstance(a, IterV) and isinstance(b, IterV)) or a.rev: raise Unsupported('std::find')
        s = e.read(a.lv)
        e.check(z3.And(a.idx >= 0, a.idx <= b.idx, b.idx <= z3.Length(s)), 'range-valid')
        x = e.pack(x, e.elem_type(a.lv.ty)) if not z3.is_expr(x) else x
        r = z3.SubSeq(s, a.idx, b.idx - a.idx)
        if not e.choose(z3.Contains(simp(r), z3.Unit(x))): return IterV(b.lv, b.idx)
        i = z3.FreshInt('found')
        e.add(z3.And(i >= a.idx, i < b.idx, s[i] == x))
        return IterV(a.lv, i)
    eng.models['$var:npos'] = lambda e, n: I(NPOS)
    @S('find')
    def _(e, n, obj, args):
        s = val(e, obj)
        x = as_seq(e, e.rv(args[0]))
        p = e.as_int(e.rv(args[1])) if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' else I(0)
        i = z3.IndexOf(s, x, p)
        e.add(i < I(NPOS))
        if is_const_int(simp(p)) and simp(p).as_long() == 0 and z3.is_seq(x):
            if not e.choose(z3.Contains(s, x)): return I(NPOS)
            e.add(i >= 0)
            return i
        if e.choose(i < 0): return I(NPOS)
        return i
    @S('rfind')
    def _(e, n, obj, args):
        s = val(e, obj)
        x = as_seq(e, e.rv(args[0]))
        if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr': raise Unsupported('rfind with position')
        i = z3.Function('rfind', s.sort(), s.sort(), z3.IntSort())(s, x if z3.is_seq(x) else z3.Unit(x))
        e.add(z3.And(i >= -1, i <= z3.Length(s), i < I(NPOS)))
        if e.choose(i < 0): return I(NPOS)
        return i
    @S('compare')
    def _(e, n, obj, args):
        s = val(e, obj)
        vs = [e.rv(a) for a in args]
        if len(vs) == 1:
            b = as_seq(e, vs[0])
            if e.choose(s == b): return I(0)
            r = e.fresh(('int', 32, True), 'cmp')
            e.add(r != 0)
            return r
        if len(vs) == 3:
            b = as_seq(e, vs[2])
            a = substr(e, s, vs[0], vs[1])
            if e.choose(a == b): return I(0)
            r = e.fresh(('int', 32, True), 'cmp')
            e.add(r != 0)
            return r
        raise Unsupported('compare')
    @S('starts_with')
    def _(e, n, obj, args): return simp(z3.PrefixOf(as_seq(e, e.rv(args[0])), val(e, obj)))
    @S('ends_with')
    def _(e, n, obj, args): return simp(z3.SuffixOf(as_seq(e, e.rv(args[0])), val(e, obj)))
    @S('contains')
    def _(e, n, obj, args): return simp(z3.Contains(val(e, obj), as_seq(e, e.rv(args[0]))))
    @S('resize')
    def _(e, n, obj, args):
        s = val(e, obj)
        k = simp(e.as_int(e.rv(args[0])))
        t = et(e, obj, n)
        d = e.pack(e.rv(args[1]), t) if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' else e.pack(e.default(t), t)
        if e.choose(k <= z3.Length(s)): e.write(obj, simp(z3.SubSeq(s, I(0), k)))
        else: e.write(obj, cat(s, filled(e, ('seq', t), simp(k - z3.Length(s)), d)))
    for nm in ('operator basic_string_view', 'operator basic_string'):
        S(nm)(lambda e, n, obj, args: val(e, obj))
    @S('remove_prefix')
    def _(e, n, obj, args):
        s = val(e, obj); k = e.as_int(e.rv(args[0]))
        e.check(z3.And(k >= 0, k <= z3.Length(s)), 'remove-prefix-in-range')
        e.write(obj, simp(z3.SubSeq(s, k, z3.Length(s) - k)))
    @S('remove_suffix')
    def _(e, n, obj, args):
        s = val(e, obj); k = e.as_int(e.rv(args[0]))
        e.check(z3.And(k >= 0, k <= z3.Length(s)), 'remove-suffix-in-range')
        e.write(obj, simp(z3.SubSeq(s, I(0), z3.Length(s) - k)))

    # ------------------------------------------------------------------ maps and sets
    for kind in ('map', 'set'):
        MM = lambda *n, kind=kind: meth(eng, kind, *n)
        @MM('find')
        def _(e, n, obj, args):
            m = val(e, obj)
            k = e.pack(e.rv(args[0]), m.kt)
            return MapIter(obj, k, simp(z3.Select(m.dom, k)))
        @MM('operator=')
        def _(e, n, obj, args):
            e.write(obj, e.rv(args[0]))
            return obj
        @MM('end', 'cend')
        def _(e, n, obj, args): return MapIter(obj, None, FALSE)
        @MM('begin', 'cbegin')
        def _(e, n, obj, args):
            m = val(e, obj)
            s, _ = e.enum_keys(obj, m)
            return MapIter(obj, None, None, None, (s.arg(0), s)).at(I(0))
        @MM('count')
        def _(e, n, obj, args):
            m = val(e, obj)
            return z3.If(z3.Select(m.dom, e.pack(e.rv(args[0]), m.kt)), I(1), I(0))
        @MM('contains')
        def _(e, n, obj, args):
            m = val(e, obj)
            return z3.Select(m.dom, e.pack(e.rv(args[0]), m.kt))
        @MM('clear')
        def _(e, n, obj, args):
            m = val(e, obj)
            e.write(obj, MapV(m.kt, m.vt, z3.K(e.sort(m.kt), FALSE), m.val))
        @MM('erase')
        def _(e, n, obj, args):
            m = val(e, obj)
            x = e.rv(args[0])
            if isinstance(x, MapIter):
                k = x.key
                e.check(z3.Select(m.dom, k), 'erased-iterator-dereferenceable')
            else: k = e.pack(x, m.kt)
            nxt = e.mapiter_next(x) if isinstance(x, MapIter) and x.snap else None
            d1 = z3.Store(m.dom, k, FALSE)
            e.write(obj, MapV(m.kt, m.vt, d1, m.val))
            if getattr(e, 'card_facts', False): e.add(e.map_size(MapV(m.kt, None, d1, None)) == e.map_size(m) - z3.If(z3.Select(m.dom, k), I(1), I(0)))
            if nxt is not None: return nxt
            if not isinstance(x, MapIter): return z3.If(z3.Select(m.dom, k), I(1), I(0))
        @MM('insert', 'emplace')
        def _(e, n, obj, args):
            m = val(e, obj)
            if m.vt is None:
                k = e.pack(e.rv(args[0]), m.kt)
                had = z3.Select(m.dom, k)
                e.write(obj, MapV(m.kt, None, z3.Store(m.dom, k, TRUE), None))
            else:
                p = e.rv(args[0]) if len(args) == 1 else Rec('pair', {'first': e.rv(args[0]), 'second': e.rv(args[1])})
                k = e.pack(p.f['first'], m.kt)
                had = z3.Select(m.dom, k)
                if not e.choose(had):
                    e.write(obj, MapV(m.kt, m.vt, z3.Store(m.dom, k, TRUE), z3.Store(m.val, k, e.pack(p.f['second'], m.vt))))
            return Rec('pair', {'first': MapIter(obj, k, TRUE), 'second': simp(z3.Not(had))})
        @MM('at')
        def _(e, n, obj, args):
            m = val(e, obj)
            k = e.pack(e.rv(args[0]), m.kt)
            if not e.choose(z3.Select(m.dom, k)): raise ThrowEx('std::out_of_range')
            return obj.sub(('k', k, m.vt), m.vt)
        @MM('size')
        def _(e, n, obj, args):
            m = val(e, obj)
            return e.map_size(m)
        @MM('empty')
        def _(e, n, obj, args):
            m = val(e, obj)
            return e.map_size(m) == 0

    def map_size(e, m):
        f = z3.Function('card_%s' % re.sub(r'\W', '_', str(m.dom.sort())), m.dom.sort(), z3.IntSort())
        c = f(m.dom)
        e.add(c >= 0)
        if getattr(e, 'card_facts', False): e.enum_keys(None, m)
        return c
    import types
    eng.map_size = types.MethodType(map_size, eng)

    def mapiter_field(e, it, name, n):
        m = e.read(it.lv)
        e.check(z3.And(it.found, z3.Select(m.dom, it.key)) if it.snap else it.found, 'map-iterator-dereferenceable')
        if it.snap:
            e.add(z3.Implies(it.found, it.key == it.snap[1][it.idx]))
            e.on_index(it.lv, it.snap[1], it.idx)
        if name == 'first': return e.new_cell(e.unpack(it.key, m.kt), m.kt, None)
        return it.lv.sub(('k', it.key, m.vt), m.vt)
    eng.mapiter_field = types.MethodType(mapiter_field, eng)
    def mapiter_deref(e, it, n):
        m = e.read(it.lv)
        e.check(z3.And(it.found, z3.Select(m.dom, it.key)) if it.snap else it.found, 'map-iterator-dereferenceable')
        if it.snap:
            e.add(z3.Implies(it.found, it.key == it.snap[1][it.idx]))
            e.on_index(it.lv, it.snap[1], it.idx)
        if m.vt is None: return e.unpack(it.key, m.kt)
        return Rec('pair', {'first': e.unpack(it.key, m.kt), 'second': e.unpack(simp(z3.Select(m.val, it.key)), m.vt)})
    eng.mapiter_deref = types.MethodType(mapiter_deref, eng)

    def enum_keys(e, lv, m):
        """the ordered sequence of the keys of a map/set (uninterpreted, with its defining facts)"""
        ks = e.sort(m.kt)
        f = z3.Function('keys_%s' % re.sub(r'\W', '_', str(ks)), m.dom.sort(), z3.SeqSort(ks))
        if not z3.is_const(simp(m.dom)):
            d = z3.Const('dom_' + hashlib.md5(simp(m.dom).sexpr().encode()).hexdigest()[:12], m.dom.sort())
            e.axiom(d == m.dom)
            m = MapV(m.kt, m.vt, d, m.val)
        s = f(m.dom)
        j = z3.Int('j!k')
        x = z3.Const('x!k', ks)
        ix = z3.Function('keyidx_%s' % re.sub(r'\W', '_', str(ks)), m.dom.sort(), ks, z3.IntSort())
        at = lambda j: key_at(s, j)
        e.axiom(z3.Function('card_%s' % re.sub(r'\W', '_', str(m.dom.sort())), m.dom.sort(), z3.IntSort())(m.dom) == z3.Length(s))
        e.axiom(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < z3.Length(s)), z3.And(z3.Select(m.dom, at(j)), ix(m.dom, at(j)) == j)), patterns=[at(j)]))
        e.axiom(z3.ForAll([x], z3.Implies(z3.Select(m.dom, x), z3.And(ix(m.dom, x) >= 0, ix(m.dom, x) < z3.Length(s), at(ix(m.dom, x)) == x)), patterns=[z3.Select(m.dom, x)]))
        return s, m.kt
    eng.enum_keys = types.MethodType(enum_keys, eng)
    def map_elem(e, lv, m, seqv, i):
        k = simp(key_at(seqv, i))
        e.add(z3.Implies(z3.And(i >= 0, i < z3.Length(seqv)), z3.And(z3.Select(m.dom, k), k == seqv[i])))
        if m.vt is None: return e.unpack(k, m.kt)
        return Rec('pair', {'first': e.unpack(k, m.kt), 'second': e.unpack(simp(z3.Select(m.val, k)), m.vt)})
    eng.map_elem = types.MethodType(map_elem, eng)

    # pair / comparison helpers on iterators
    @meth(eng, 'ptr', 'get')
    def _(e, n, obj, args): return val(e, obj)


class Spec:
    """A specification automaton, written in C++ (a class with a step method),
    run over the input: S(p) is its state after the first p elements."""
    kind = 'stream'
    def __init__(self, eng, cls, iid, kind='stream', seq=None, step='step', args=()):
        self.eng, self.name, self.iid, self.kind = eng, cls, iid, kind
        self.stepf = eng.func(step, cls)
        self.args = args
        if kind == 'stream':
            self.N = z3.Int('N_' + iid)
            self.at = z3.Function('IN_' + iid, z3.IntSort(), z3.IntSort())
        else:
            self.seq = seq
            self.N = z3.Length(seq)
            self.at = lambda p: simp(seq[p])
        self.admits = [f for f in eng.byname.get('admits', []) if eng.cls_of(f) == cls]
        self.info = []
        self._flat(('cls', cls), ())
        self.fn = {path: z3.Function('S_%s%s' % (cls, ''.join('_' + p for p in path)), z3.IntSort(), srt) for path, srt, ty in self.info}
        self.inv = eng.byname.get('inv') and [f for f in eng.byname['inv'] if eng.cls_of(f) == cls]
        eng.specs.append(self)

    def _flat(self, t, path):
        e = self.eng
        t = e.norm(t)
        if t[0] == 'cls' and t[1] in e.classes:
            for n, ft, _ in e.allfields(t[1]): self._flat(ft, path + (n,))
        elif t[0] == 'pair':
            self._flat(t[1], path + ('first',)); self._flat(t[2], path + ('second',))
        else: self.info.append((path, e.sort(t), t))

    def leafinfo(self): return self.info
    def uses(self, st): return ('in:' + self.iid) in st.ghost or self.kind == 'seq'

    def pos(self, st):
        lv = st.ghost['in:' + self.iid]
        v = st.cells[lv.cell]
        for p in lv.path: v = v.f[p[1]]
        return v.f['$pos']
    def leaf(self, st, path, pos=None):
        v = self.cur(st, pos)
        for p in path: v = v.f[p]
        return v
    def value(self, st, path):
        v = self.cur(st)
        for p in path: v = v.f[p]
        return v
    def cur(self, st, pos=None):
        pos = simp(self.pos(st)) if pos is None else simp(pos)
        return st.specval.get((self.name, pos.sexpr())) or self.rec(pos)
    def set_known(self, st, d, pos=None):
        """the finite leaves of the current specification state are these constants"""
        e = self.eng
        pos = simp(self.pos(st) if pos is None else pos)
        r = st.specval.get((self.name, pos.sexpr())) or self.rec(pos)
        for path, c in d.items():
            st.pc.append(self.fn[path](pos) == c)
            if st.solver is not None: st.solver.add(self.fn[path](pos) == c)
            r = e.set_leaf(r, path, c)
        st.specval[(self.name, pos.sexpr())] = r
    def rec(self, pos, t=None, path=()):
        e = self.eng
        t = e.norm(t or ('cls', self.name))
        if t[0] == 'cls' and t[1] in e.classes:
            return Rec(t[1], {n: self.rec(pos, ft, path + (n,)) for n, ft, _ in e.allfields(t[1])})
        if t[0] == 'pair': return Rec('pair', {'first': self.rec(pos, t[1], path + ('first',)), 'second': self.rec(pos, t[2], path + ('second',))})
        return self.fn[path](pos)

    def assume_equal(self, pos, rec):
        e = self.eng
        for path, srt, ty in self.info:
            v = rec
            for p in path: v = v.f[p]
            v = e.pack(v, ty)
            e.add(self.fn[path](pos) == v)

    def start(self, rec):
        """S(0) = the given initial state"""
        e = self.eng
        e.add(self.N >= 0)
        self.assume_equal(I(0), rec)
        e.st.specval[(self.name, I(0).sexpr())] = rec
        self.facts(I(0))

    def facts(self, pos):
        e = self.eng
        for path, srt, ty in self.info:
            if ty[0] in ('int', 'enum'): e.range_fact(self.fn[path](pos), ty)

    def element(self, pos):
        v, e = self.at(pos), self.eng
        if not v.sort() in (z3.IntSort(), z3.BoolSort()) and not z3.is_seq(v): v = e.unpack(v, deref(node_type(params(self.stepf)[0])))
        return v
    def unfold(self, e, pos):
        if e.nospec: return
        st = e.st
        pos = simp(pos)
        key = (self.name, pos.sexpr())
        if key in st.unfolded: return
        st.unfolded[key] = True
        self.facts(pos)
        lv = e.new_cell(self.cur(st, pos), ('cls', self.name), None)
        keep = e.st.trace
        e.st.trace = list(keep)
        insp, e.inspec = e.inspec, True
        try: e.inline(self.stepf, lv, [], None, values=[self.element(pos)] + [a(e) for a in self.args])
        finally: e.st.trace = keep; e.inspec = insp
        r = e.read(lv)
        self.assume_equal(simp(pos + 1), r)
        st.specval[(self.name, simp(pos + 1).sexpr())] = r

    def on_index(self, e, lv, seq, i):
        if self.kind != 'seq' or not seq.eq(self.seq): return
        self.unfold(e, i)

def is_minus(i):
    """x - n for a constant n"""
    return z3.is_add(i) and any(z3.is_int_value(a) and a.as_long() < 0 for a in i.children())
class SeqSpec(Spec):
    """A specification automaton run over a sequence the function holds (a parameter or a member):
    S(p) is its state after the first p elements, for every p the code or an invariant looks at."""
    def __init__(self, eng, cls, seq, step='step', extra=(), bits=16, lookback=True, split=False):
        self.split = split                  # explore a loop separately for each mode of the specification at its index
        super().__init__(eng, cls, '', kind='seq', seq=seq, step=step)
        self.lookback = lookback            # whether reading w[i-1] says anything about the step there
        self.bits = bits                    # of an element of the sequence
        self.methods = {g['name']: g for n in ('admits', 'done', 'wellformed') for g in eng.byname.get(n, []) if eng.cls_of(g) == cls}
        self.extra = list(extra)
        eng.user_cands.append(self.cands)
    lemmas = ()                 # (name, predicate over the length and the state)
    def facts(self, pos):
        super().facts(pos)
        for nm, f in self.lemmas: self.eng.add(z3.Implies(z3.And(pos >= 0, pos <= self.N), f(pos, self.rec(simp(pos)))))
    def uses(self, st): return False
    def pos(self, st): return I(0)
    def on_index(self, e, lv, seq, i):
        if not self.lookback and is_minus(simp(i)): return
        super().on_index(e, lv, seq, i)
    def catch_up(self, pos):
        """the steps the code took without looking (i += n)"""
        e = self.eng
        pos = simp(pos)
        if z3.is_add(pos):
            n = sum(a.as_long() for a in pos.children() if z3.is_int_value(a))
            base = simp(pos - n)
            for j in range(n): self.unfold(e, simp(base + j))
    def ask(self, e, name, pos, values=(), raw=False):
        """an observer of the specification after the first pos elements"""
        st = e.st
        lv = e.new_cell(self.cur(st, pos), ('cls', self.name), None)
        keep, st.trace = st.trace, list(st.trace)
        insp, e.inspec = e.inspec, True
        try:
            r = e.inline(e.func(name, self.name), lv, [], None, values=list(values))
            return r if raw else e.as_bool(r)
        finally:
            st.trace = keep
            e.inspec = insp
    def start(self, rec):
        e = self.eng
        if e.nospec: return
        self.assume_equal(I(0), rec)
        e.st.specval[(self.name, I(0).sexpr())] = rec
        self.facts(I(0))
        self.facts(simp(self.N))
        for path, srt, ty in self.info: e.add(self.fn[path](simp(self.N + 1)) == self.fn[path](simp(self.N)))      # nothing is read past the end
        if 'wellformed' in self.methods: e.add(self.ask(e, 'wellformed', self.N))
        for nm, f in self.lemmas:
            # by induction: shown at the beginning and for one step from any state, used for every prefix
            e.check(f(I(0), rec), 'spec:%s:at-the-beginning' % nm)
            keep = self.lemmas
            self.lemmas = []
            insp, e.inspec = e.inspec, True
            try:
                if e.choose(e.fresh(('bool',), 'induction')):
                    p = e.fresh(('int', 64, False), 'any_p')
                    r = Rec(self.name, {n: e.fresh(ft, 'any_' + n) for n, ft, _ in e.allfields(self.name)})
                    lv = e.new_cell(r, ('cls', self.name), None)
                    e.add(f(p, r))
                    e.inline(self.stepf, lv, [], None, values=[e.fresh(('int', 32, False), 'any_c')])
                    e.check(f(p + 1, e.read(lv)), 'spec:%s:one-step' % nm)
                    raise PathDead()
            finally: e.inspec, self.lemmas = insp, keep
        if 'done' in self.methods:
            # a state that is done stays as it is: shown for one step, used for all that follow
            r = Rec(self.name, {n: e.fresh(ft, 'any_' + n) for n, ft, _ in e.allfields(self.name)})
            lv = e.new_cell(r, ('cls', self.name), None)
            st = e.st
            insp, e.inspec = e.inspec, True
            try:
                d = e.as_bool(e.inline(self.methods['done'], lv, [], None))
                npc = len(st.pc)
                if e.choose(d):
                    e.inline(self.stepf, lv, [], None, values=[e.fresh(('int', 32, False), 'any_c')])
                    e.check(e.eqv(e.read(lv), r), 'spec:done-is-final')
                    raise PathDead()
            finally: e.inspec = insp
    def unfold(self, e, pos):
        if e.nospec: return
        st = e.st
        pos = simp(pos)
        key = (self.name, pos.sexpr())
        if key in st.unfolded: return
        self.facts(pos)
        if not e.choose(z3.And(pos >= 0, pos < self.N)):
            if e.choose(pos >= self.N):              # the specification stays as it is past the end
                st.unfolded[key] = True
                self.assume_equal(simp(pos + 1), self.cur(st, pos))
            return
        if self.bits: e.add(z3.Implies(z3.And(pos >= 0, pos < z3.Length(self.seq)), z3.And(self.seq[pos] >= 0, self.seq[pos] < 2 ** self.bits)))
        if 'admits' in self.methods: e.add(self.ask(e, 'admits', pos, [self.at(pos)]))
        super().unfold(e, pos)
        if any(srt == self.seq.sort() for _, srt, _ in self.info):
            # a fact about sequences the solver does not find: w[y..p] = w[y..p-1] w[p]
            ys = {}
            for lv in st.env.values():
                if isinstance(lv, Lval) and not lv.path:
                    v = st.cells.get(lv.cell)
                    if z3.is_expr(v) and v.sort() == z3.IntSort(): ys[simp(v).get_id()] = simp(v)
            for y in ys.values():
                w = self.seq
                e.add(z3.Implies(z3.And(y >= 0, y <= pos, pos < z3.Length(w)), z3.SubString(w, y, pos + 1 - y) == z3.Concat(z3.SubString(w, y, pos - y), z3.Unit(w[pos]))))
        if 'done' in self.methods:
            p1 = simp(pos + 1)
            if e.choose(self.ask(e, 'done', p1)):
                for path, srt, ty in self.info: e.add(self.fn[path](p1) == self.fn[path](simp(self.N)))
    def cands(self, e, st, mods, L):
        C = []
        finite = lambda ty: ty[0] in ('bool', 'enum')
        isfin = lambda l: l[1] == z3.BoolSort() or bool(l[2] and l[2][0] == 'enum')
        Z = [l for l in L if l[1] == z3.IntSort() and not isfin(l) and (l[4]) and not l[0].startswith('S.')]
        Q = [l for l in L if z3.is_seq(z3.Const('x', l[1])) and not l[0].startswith('S.')]
        Zall = [l for l in L if l[1] == z3.IntSort() and not isfin(l) and not l[0].startswith('S.')]
        for z in Z:
            for path, srt, ty in self.info:
                F = self.fn[path]
                nm = '.'.join(path)
                if ty[0] == 'bool':
                    for b in (True, False): C.append((('sb', z[0], nm, b), lambda s, z=z[3], F=F, b=b: F(z(s)) == z3.BoolVal(b)))
                elif ty[0] == 'enum':
                    for k, v in e.enums[ty[1]]:
                        C.append((('s==', z[0], nm, k), lambda s, z=z[3], F=F, v=v: F(z(s)) == v))
                        C.append((('s!=', z[0], nm, k), lambda s, z=z[3], F=F, v=v: F(z(s)) != v))
                elif z3.is_seq(z3.Const('x', srt)):
                    for q in Q:
                        if q[1] != srt: continue
                        C.append((('sq', z[0], nm, q[0]), lambda s, z=z[3], F=F, q=q[3]: q(s) == F(z(s))))
                    if srt == self.seq.sort():
                        for y in Zall:
                            if y is z: continue
                            C.append((('sub', z[0], nm, y[0]), lambda s, z=z[3], F=F, y=y[3]: z3.And(y(s) >= 0, y(s) <= z(s), F(z(s)) == z3.SubString(self.seq, y(s), z(s) - y(s)))))
                    C.append((('s0', z[0], nm), lambda s, z=z[3], F=F: z3.Length(F(z(s))) == 0))
                elif srt == z3.IntSort():
                    for y in Zall: C.append((('si', z[0], nm, y[0]), lambda s, z=z[3], F=F, y=y[3]: y(s) == F(z(s))))
            C.append((('zN', z[0], self.name), lambda s, z=z[3]: z(s) <= self.N))
        for x in self.extra: C += x(e, st, mods, L)
        return C
