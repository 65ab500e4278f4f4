from common import *
# The contract of readToken, of each stage that reads units.
def buffer_models(e):
    """lttoolbox's Buffer: add stores a copy and returns it; next returns a token read before"""
    B = lambda *n: meth(e, 'Buffer<TransferToken>', *n)
    @B('isEmpty')
    def _(e, n, obj, args):
        e.trusted.add('Buffer::isEmpty/next/add (lttoolbox)')
        b = e.st.ghost['empty'] = z3.BoolVal(e.choose(e.st.ghost['empty']))
        return b
    @B('next')
    def _(e, n, obj, args):
        e.st.ghost['token'] = 'again'
        return e.new_cell(e.fresh(('cls', 'TransferToken'), 'again'), ('cls', 'TransferToken'), None)
    @B('add')
    def _(e, n, obj, args):
        v = e.rv(args[0])
        e.check(z3.BoolVal(e.st.ghost.get('token') is None), 'buffer:one-token-is-added')
        e.st.ghost['token'] = v
        return e.new_cell(v, ('cls', 'TransferToken'), None)

def pf(e, cls, spec, word, flag):
    buffer_models(e)
    f = e.func('readToken', cls)
    sp = Spec(e, spec, 'in')
    ask = lambda n: e.ask_spec(sp, n)
    def setup(e, ctx):
        inl, out = stream_setup(e)
        e.st.ghost['empty'] = e.fresh(('bool',), 'empty')
        e.st.ghost['token'] = None
        given = {'input_buffer': z3.Const('buffer', z3.DeclareSort('Buf')), 'output': PtrV(out), 'null_flush': FALSE}
        this = e.new_cell(this_object(e, cls, f, given), ('cls', cls), 'this')
        ctx['this'] = this
        r = e.construct(('cls', spec), [], None)
        fields = e.read(this).f
        if 'internal_null_flush' in fields: r = r.with_('nulls', fields['internal_null_flush'])
        if flag:
            modes = dict(e.enums[spec + '::Mode'])
            on = e.choose(fields[flag])
            r = r.with_('mode', I(modes[word if on else 'TEXT']))
            ctx['flag'] = fields[flag]
        sp.start(r)
        ctx['out'], ctx['pos'] = out, sp.pos(e.st)
        return [inl]
    def post(e, kind, v, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind != 'return': return
        this = e.read(ctx['this'])
        tok = e.st.ghost['token']
        o = e.read(ctx['out'])
        e.check(o.f['out'] == seq_lit([]), 'post:reading-writes-nothing')
        r = e.read(e.st.ghost['in:in'])
        if isinstance(tok, str):
            e.check(z3.And(sp.pos(e.st) == 0, z3.Not(e.st.ghost['empty'])), 'post:a-kept-token-is-returned-without-reading')
            if flag: e.check(this.f[flag] == ctx['flag'], 'post:a-kept-token-is-returned-without-reading')
            return
        e.check(e.st.ghost['empty'], 'post:a-kept-token-is-returned-without-reading')
        e.check(z3.Or(ask('complete'), r.f['$eof']), 'post:stops-only-at-the-end-of-a-token')
        wf = ask('wellformed')
        e.check(z3.Or(wf, ask('inside')), 'post:nothing-read-beyond-the-token')
        if tok is None: e.check(FALSE, 'post:a-token-is-returned'); return
        e.check(z3.Implies(wf, tok.f['content'] == sp.leaf(e.st, ('content',))), 'post:content-is-the-text-of-the-token')
        e.check(z3.Implies(wf, tok.f['type'] == e.ask_spec(sp, 'type', raw=True)), 'post:kind-of-token')
        if flag: e.check(z3.Implies(wf, this.f[flag] == ask('bound')), 'post:what-the-next-token-is')
    e.verify(f, setup, post)

SRC = {'Transfer': ('transfer', 'UnitTok', 'WB_FIRST', 'in_wblank'), 'Interchunk': ('interchunk', 'ChunkTok', 'IN', 'inword'),
       'Postchunk': ('postchunk', 'ChunkTok', 'IN', 'inword'), 'TransferMult': ('transfer_mult', 'PlainTok', '', None)}
units = [Unit(c + '::readToken', ['/repo/apertium/%s.cc' % v[0], '/repo/apertium/transfer_token.cc', 'specs/tokens_spec.h'], (lambda e, c=c, v=v: pf(e, c, *v[1:]))) for c, v in SRC.items()]
F = ['apertium/%s.cc' % v[0] for v in SRC.values()]
LIBF = ['transfer', 'interchunk', 'postchunk', 'transfer_mult', 'transfer_base', 'transfer_token', 'transfer_instr', 'transfer_word', 'interchunk_word', 'trx_reader', 'xml_reader', 'transfer_data', 'transfer_regex', 'apertium_re']
TOK = ['^a<n>$', '^a<n>/b<n>$', '^c<SN>{^a<n>$ ^b<n>$}$', '^c<SN>{', '}$', '{', '}', ' ', 'x', '[', ']', '[<b>]', '[[t:b:1]]', '[[t:b]]^a/b$', '[[\\]a]]^c$', '\\', '\\^', '\\$', '\\[', '\\]', '\\}', '^', '$', '\u00e9', '\U0001f600', '\0', '^a\\$b$', '[a\\]b]', '^c{[ ]$}$']
searches = [Search('readToken', 'c07.cc', '^$[]\\{}', TOK, files=F, sources=['apertium/%s.cc' % f for f in LIBF])]
