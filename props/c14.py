from common import *
STR = z3.SeqSort(z3.IntSort())
STR_T = ('seq', ('int', 16, False))
SET_T, MAP_T = None, None

def tagger_word(e, f, **given):
    """an arbitrary tagged word: a form for each of its tags, none of them empty or marked as unknown"""
    names = ('superficial_form', 'tags', 'lexical_forms', 'ignored_string', 'plus_cut', 'previous_plus_cut', 'show_sf')
    r = Rec('TaggerWord', {n: given[n] if n in given else e.fresh(t, n) for n, t, _ in e.allfields('TaggerWord') if n in names})
    forms, tags = r.f['lexical_forms'], r.f['tags']
    e.add(forms.dom == tags.dom)
    t = z3.Int('t!w')
    e.add(z3.ForAll([t], z3.Implies(z3.Select(forms.dom, t), z3.And(z3.Length(z3.Select(forms.val, t)) > 0, z3.Select(forms.val, t)[0] != ord('*'))), patterns=[z3.Select(forms.val, t)]))
    return r
def invariant(e, r, name):
    """what tagger_word assumes"""
    forms, tags = r.f['lexical_forms'], r.f['tags']
    t = z3.FreshInt('t')
    e.check(z3.Select(forms.dom, t) == z3.Select(tags.dom, t), name + ':a-form-for-each-tag')
    return forms
matches = z3.Function('matches', STR, STR, z3.BoolSort())
def set_globals(e, **g):
    for k, v in g.items(): e.static_values[k] = v

def lexical_form(e, eof, cut, prev, mark, sup, shown):
    """TaggerWord::get_lexical_form: text before the word, ^, the form of the tag, $ (or + when the unit goes on)"""
    f = e.func('get_lexical_form', 'TaggerWord')
    def setup(e, ctx):
        r = ctx['r'] = tagger_word(e, f, plus_cut=z3.BoolVal(cut), previous_plus_cut=z3.BoolVal(prev), show_sf=z3.BoolVal(sup))
        ctx['this'] = e.new_cell(r, ('cls', 'TaggerWord'), 'this')
        set_static(e, f, 'generate_marks', z3.BoolVal(mark)); set_static(e, f, 'show_ignored_string', TRUE)
        t, k = ctx['t'], ctx['k'] = z3.Int('t'), z3.Int('kEOF')
        m = r.f['lexical_forms']
        e.add((t == k) == z3.BoolVal(eof))
        e.add(z3.Implies(e.map_size(m) > 0, z3.Select(m.dom, t)))           # the tag chosen is one of the word's
        e.add(z3.Implies(prev, e.map_size(m) > 0))
        return [e.new_cell(t, ('int', 32, True), 't'), k]
    def post(e, kind, v, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind != 'return': return
        r, t = ctx['r'], ctx['t']
        m, s = r.f['lexical_forms'], r.f['superficial_form']
        L = str_lit
        parts = [r.f['ignored_string']]
        if not eof:
            many = e.map_size(MapV(m.kt, None, m.dom, None)) > 1
            if not prev:
                parts += [L('^')] + ([z3.If(many, L('='), seq_lit([]))] if mark else []) + ([s, L('/')] if sup else [])
            parts += [z3.If(e.map_size(m) == 0, cat(L('*'), s), z3.Select(m.val, t)), L('+' if cut else '$')]
        e.check(v == cat(*parts), 'post:the-text-of-the-word')
        e.check(e.read(ctx['this']).f['lexical_forms'].dom == m.dom, 'post:the-word-is-unchanged')
    e.verify(f, setup, post)

def set_static(e, f, name, v):
    """the value of a static member"""
    lv = e.new_cell(v, ('bool',), name)
    for n in walk(f):
        d = n.get('referencedDecl')
        if d and d.get('name') == name and d.get('kind') == 'VarDecl': e.st.globals[d['id']] = lv
def walk(n):
    yield n
    for c in n.get('inner', []):
        if isinstance(c, dict): yield from walk(c)

def all_forms(e, mark, cut, prev):
    """TaggerWord::get_all_chosen_tag_first: surface form, the form of the tag, then those of the other tags"""
    f = e.func('get_all_chosen_tag_first', 'TaggerWord')
    r0 = {}
    model(e, 'form_of')(lambda e, n, args: simp(z3.Select(r0['m'].val, e.as_int(e.rv(args[0])))))
    tags = z3.Const('tags', z3.ArraySort(z3.IntSort(), z3.BoolSort()))
    ks = z3.Function('keys_Int', tags.sort(), z3.SeqSort(z3.IntSort()))(tags)
    sp = SeqSpec(e, 'OtherForms', ks, bits=None)
    def setup(e, ctx):
        I32 = ('int', 32, True)
        r = ctx['r'] = tagger_word(e, f, tags=MapV(I32, None, tags, None), plus_cut=z3.BoolVal(cut), previous_plus_cut=z3.BoolVal(prev))
        r0['m'] = r.f['lexical_forms']
        ctx['this'] = e.new_cell(r, ('cls', 'TaggerWord'), 'this')
        set_static(e, f, 'generate_marks', z3.BoolVal(mark)); set_static(e, f, 'show_ignored_string', TRUE)
        t, k = ctx['t'], ctx['k'] = z3.Int('t'), z3.Int('kEOF')
        m = r.f['lexical_forms']
        e.enum_keys(None, r.f['tags'])
        e.add(t != k)
        e.add(z3.Implies(e.map_size(m) > 0, z3.Select(m.dom, t)))
        L, s = str_lit, r.f['superficial_form']
        ctx['many'] = e.map_size(r.f['tags']) > 1
        pre = [r.f['ignored_string']] + ([] if prev else [L('^')] + ([z3.If(ctx['many'], L('='), seq_lit([]))] if mark else []))
        ctx['pre'] = cat(*pre, s)
        x = e.construct(('cls', 'OtherForms'), [], None)
        sp.start(x.with_('chosen', t).with_('out', simp(cat(ctx['pre'], L('/'), z3.Select(m.val, t)))))
        return [e.new_cell(t, ('int', 32, True), 't'), k]
    def cands(e, st, mods, L):
        C = []
        for l in L:
            if l[1] == r0['m'].val.sort(): C.append((('val', l[0]), lambda s, g=l[3]: g(s) == r0['m'].val))
        return C
    def same(e, st, mods, L):
        w = lambda s: s.cells[s.this.cell].f['lexical_forms']
        return [(('forms',), lambda s: w(s).val == r0['m'].val), (('formdom',), lambda s: w(s).dom == r0['m'].dom)] + \
            [(('more', l[0]), lambda s, g=l[3]: z3.Length(g(s)) > z3.Length(s.cells[s.this.cell].f['ignored_string'])) for l in L if l[1] == STR and l[4]]
    e.user_cands.append(same)
    e.entry_facts = True
    def post(e, kind, v, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind != 'return': return
        r, t, L = ctx['r'], ctx['t'], str_lit
        m, s = r.f['lexical_forms'], r.f['superficial_form']
        end = L('+' if cut else '$')
        if e.choose(e.map_size(m) == 0): e.check(v == cat(ctx['pre'], L('/*'), s, end), 'post:an-unknown-word')
        else: e.check(v == cat(z3.If(ctx['many'], sp.leaf(e.st, ('out',), sp.N), cat(ctx['pre'], L('/'), z3.Select(m.val, t))), end), 'post:the-chosen-form-then-the-others')
    e.verify(f, setup, post)

def match_contract(e):
    e.contracts['TaggerWord::match'] = lambda e, n, obj, args: matches(e.as_seq(e, e.rv(args[0])), e.as_seq(e, e.rv(args[1])))

def add_tag(e):
    """TaggerWord::add_tag: the first form of a tag is kept, unless a prefer rule matches a later one"""
    f = e.func('add_tag', 'TaggerWord')
    match_contract(e)
    e.entry_facts = True
    rules = z3.Const('rules', z3.SeqSort(STR))
    lf = z3.Const('lf', STR)
    model(e, 'preferred')(lambda e, n, args: matches(lf, e.as_seq(e, e.rv(args[0]))))
    sp = SeqSpec(e, 'AnyPreferred', rules, bits=None)
    def setup(e, ctx):
        r = ctx['r'] = tagger_word(e, f)
        ctx['this'] = e.new_cell(r, ('cls', 'TaggerWord'), 'this')
        e.add(z3.Length(lf) > 0)
        ctx['t'] = z3.Int('t')
        args = [e.new_cell(ctx['t'], ('int', 32, True), 't'), e.new_cell(lf, STR_T, 'lf'), e.new_cell(rules, ('seq', STR_T), 'rules')]
        sp.start(e.construct(('cls', 'AnyPreferred'), [], None))
        return args
    def post(e, kind, v, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind != 'return': return
        r, t, r1 = ctx['r'], ctx['t'], e.read(ctx['this'])
        m, m1 = r.f['lexical_forms'], r1.f['lexical_forms']
        x = z3.FreshInt('x')
        new = z3.Not(z3.Select(m.dom, t))
        e.check(z3.Select(m1.dom, x) == z3.Or(x == t, z3.Select(m.dom, x)), 'post:the-tag-is-added')
        e.check(z3.Select(r1.f['tags'].dom, x) == z3.Select(m1.dom, x), 'post:a-form-for-each-tag')
        e.check(z3.Implies(z3.And(z3.Select(m1.dom, x), x != t), z3.Select(m1.val, x) == z3.Select(m.val, x)), 'post:other-forms-unchanged')
        some = sp.leaf(e.st, ('any',), sp.N)
        e.check(z3.Select(m1.val, t) == z3.If(z3.Or(new, some), lf, z3.Select(m.val, t)), 'post:first-form-unless-preferred')
    e.verify(f, setup, post)

def discard(e):
    """TaggerWord::discardOnAmbiguity: of an ambiguous word, the analyses that match are dropped, but not the last one left"""
    f = e.func('discardOnAmbiguity', 'TaggerWord')
    match_contract(e)
    e.entry_facts = True
    rule = z3.Const('rule', STR)
    e.card_facts = True
    def setup(e, ctx):
        r = ctx['r'] = tagger_word(e, f)
        ctx['this'] = e.new_cell(r, ('cls', 'TaggerWord'), 'this')
        ctx['keys'], _ = e.enum_keys(None, r.f['lexical_forms'])
        ctx['drop'] = lambda t: matches(z3.Select(r.f['lexical_forms'].val, t), rule)
        e.st.ghost['c14'] = ctx
        return [e.new_cell(rule, STR_T, 'rule')]
    def cands(e, st, mods, L):
        c = e.st.ghost['c14']
        C = []
        m0, ks, drop = c['r'].f['lexical_forms'], c['keys'], c['drop']
        w = lambda s: s.cells[c['this'].cell]
        j = z3.Int('j!d')
        t = z3.Int('t!d')
        C.append((('val',), lambda s: w(s).f['lexical_forms'].val == m0.val))
        C.append((('dom',), lambda s: w(s).f['lexical_forms'].dom == w(s).f['tags'].dom))
        for l in L:
            if l[1] == z3.IntSort() and l[4]:
                C.append((('kept', l[0]), lambda s, i=l[3]: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i(s), j < z3.Length(ks)), z3.Select(w(s).f['lexical_forms'].dom, key_at(ks, j)) == z3.Not(drop(key_at(ks, j)))), patterns=[key_at(ks, j)])))
                C.append((('later', l[0]), lambda s, i=l[3]: z3.ForAll([j], z3.Implies(z3.And(j >= i(s), j >= 0, j < z3.Length(ks)), z3.Select(w(s).f['lexical_forms'].dom, key_at(ks, j))), patterns=[key_at(ks, j)])))
        C.append((('left',), lambda s: z3.Function('card_Array_Int__Bool_', m0.dom.sort(), z3.IntSort())(w(s).f['lexical_forms'].dom) > 0))
        C.append((('sub',), lambda s: z3.IsSubset(w(s).f['lexical_forms'].dom, m0.dom)))
        return C
    e.user_cands.append(cands)
    def post(e, kind, v, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind != 'return': return
        r, r1, drop, ks = ctx['r'], e.read(ctx['this']), ctx['drop'], ctx['keys']
        m, m1 = r.f['lexical_forms'], r1.f['lexical_forms']
        x, y = z3.FreshInt('x'), z3.FreshInt('y')
        e.check(z3.Select(r1.f['tags'].dom, x) == z3.Select(m1.dom, x), 'post:a-form-for-each-tag')
        e.check(z3.Implies(z3.Select(m1.dom, x), z3.And(z3.Select(m.dom, x), z3.Select(m1.val, x) == z3.Select(m.val, x))), 'post:nothing-is-added')
        e.check(z3.Implies(z3.And(z3.Select(m.dom, x), z3.Not(drop(x))), z3.Select(m1.dom, x)), 'post:analyses-that-do-not-match-are-kept')
        e.check(z3.Implies(z3.And(z3.Select(m1.dom, x), z3.Select(m1.dom, y)), z3.Or(x == y, z3.Not(drop(x)))), 'post:analyses-that-match-are-dropped-unless-alone')
        e.check(z3.Implies(e.map_size(m) > 0, e.map_size(m1) > 0), 'post:an-analysis-is-left')
    e.verify(f, setup, post)

def similar(e, name):
    """tagger_utils::find_similar_ambiguity_class: the class an unseen set of tags is given; the tagger's data does not change"""
    f = [g for g in e.byname[name] if e.has_body(g)][0]
    Z, B = z3.IntSort(), z3.BoolSort()
    I32 = ('int', 32, True)
    D = z3.ArraySort(Z, B)
    cls = z3.Const('classes', z3.SeqSort(Z))
    dom = z3.Function('class_tags', Z, D)
    c = z3.Const('c', D)
    opn = z3.Const('open', D)
    S = lambda d: MapV(I32, None, d, None)
    model(e, 'class_size')(lambda e, n, args: e.map_size(S(dom(e.as_int(e.rv(args[0]))))))
    model(e, 'open_size')(lambda e, n, args: e.map_size(S(opn)))
    model(e, 'class_includes')(lambda e, n, args: z3.IsSubset(c, dom(e.as_int(e.rv(args[0])))))
    model(e, 'includes')(lambda e, n, args: z3.IsSubset(e.read(e.rv(args[2]).lv).dom, e.read(e.rv(args[0]).lv).dom))
    sp = SeqSpec(e, 'SimilarClass', cls, bits=None)
    def index(e, n, obj, args):
        i = e.as_int(e.rv(args[0]))
        e.check(z3.And(i >= 0, i < z3.Length(cls)), 'class-index-in-range')
        e.on_index(None, cls, i)
        e.add(cls[i] >= 0)
        return e.new_cell(S(dom(cls[i])), ('set', I32), None)
    e.contracts['Collection::operator[]'] = index
    e.contracts['Collection::size'] = lambda e, n, obj, args: z3.Length(cls)
    e.contracts['Collection::has_not'] = lambda e, n, obj, args: new
    new = z3.Bool('new')
    def setup(e, ctx):
        td = this_object(e, 'TaggerData', f, {'open_class': S(opn), 'output': Rec('Collection', {})})
        e.add(z3.Length(cls) < 2 ** 31)
        ctx['td'] = e.new_cell(td, ('cls', 'TaggerData'), 'td')
        ctx['c'] = e.new_cell(S(c), ('set', I32), 'c')
        sp.start(e.construct(('cls', 'SimilarClass'), [], None))
        return [ctx['td'], ctx['c']]
    def cands(e, st, mods, L):
        C = []
        mine = lambda s: [v for k, v in s.env.items() if isinstance(v, Lval) and s.cname.get(v.cell) == 'ret']
        best = sp.fn[('best',)]
        for z in [l for l in L if l[1] == Z and l[4] and not l[0].startswith('S.')]:
            C.append((('ret', z[0]), lambda s, z=z[3]: z3.And([e_dom(s, lv) == z3.If(best(z(s)) < 0, opn, dom(best(z(s)))) for lv in mine(s)])))
        return C
    def e_dom(s, lv):
        v = s.cells[lv.cell]
        for p in lv.path: v = v.f[p[1]]
        return v.dom
    e.user_cands.append(cands)
    def post(e, kind, v, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind != 'return': return
        v = e.read(v) if isinstance(v, Lval) else v
        best = sp.leaf(e.st, ('best',), sp.N)
        found = z3.If(best < 0, opn, dom(best))
        e.check(v.dom == (z3.If(new, found, c) if name.startswith('req') else found), 'post:the-smallest-class-that-includes-the-tags')
        e.check(z3.And(e.read(ctx['td']).f['open_class'].dom == opn, e.read(ctx['c']).dom == c), 'post:the-data-does-not-change')
    e.verify(f, setup, post)

def known_class(e, np):
    """tagger_utils::require_similar_ambiguity_class: a known set of tags is its own class; over the contract of find_similar_ambiguity_class"""
    f = [g for g in e.byname['require_similar_ambiguity_class'] if e.has_body(g) and len(params(g)) == np][0]
    I32 = ('int', 32, True)
    D = z3.ArraySort(z3.IntSort(), z3.BoolSort())
    c, found, new = z3.Const('c', D), z3.Const('found', D), z3.Bool('new')
    S = lambda d: MapV(I32, None, d, None)
    e.contracts['Collection::has_not'] = lambda e, n, obj, args: new
    def find(e, n, obj, args):
        e.check(e.rv(args[1]).dom == c, 'post:the-class-of-these-tags')
        return S(found)
    e.contracts['find_similar_ambiguity_class'] = find
    e.contracts['_warn_absent_ambiguity_class'] = lambda e, n, obj, args: None
    def setup(e, ctx):
        td = this_object(e, 'TaggerData', f, {'open_class': S(z3.Const('open', D)), 'output': Rec('Collection', {})})
        w = Rec('TaggerWord', {n: e.fresh(t, n) for n, t, _ in e.allfields('TaggerWord') if n == 'superficial_form'})
        ctx['td'], ctx['c'] = e.new_cell(td, ('cls', 'TaggerData'), 'td'), e.new_cell(S(c), ('set', I32), 'c')
        return [ctx['td'], ctx['c'], e.new_cell(w, ('cls', 'TaggerWord'), 'word'), z3.Bool('warn')][:np]
    def post(e, kind, v, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        if kind != 'return': return
        v = e.read(v) if isinstance(v, Lval) else v
        e.check(v.dom == z3.If(new, found, c), 'post:a-known-class-is-kept')
        e.check(z3.And(e.read(ctx['td']).f['open_class'].dom == z3.Const('open', D), e.read(ctx['c']).dom == c), 'post:the-data-does-not-change')
    e.verify(f, setup, post)

def copying(e, how):
    """copies of the tagger's data are complete"""
    f = [g for fs in e.byname.values() for g in fs if e.cls_of(g) == 'TaggerData' and e.has_body(g) and (g['name'] == how or how == 'TaggerData' and g['kind'] == 'CXXConstructorDecl') and len(params(g)) == 1][0]
    def setup(e, ctx):
        mk = lambda nm: Rec('TaggerData', {n: e.fresh(t, nm + n) for n, t, _ in e.allfields('TaggerData')})
        ctx['o'], o = mk('o_'), mk('m_')
        ctx['this'] = e.new_cell(o, ('cls', 'TaggerData'), 'this')
        return [e.new_cell(ctx['o'], ('cls', 'TaggerData'), 'o')]
    def post(e, kind, v, ctx):
        e.check(z3.BoolVal(kind == 'return'), 'post:returns')
        for n, t, _ in e.allfields('TaggerData'):
            e.check(e.eqv(e.read(ctx['this']).f[n], ctx['o'].f[n]), 'post:%s-is-copied' % n)
    e.verify(f, setup, post)

T = lambda n: '/repo/apertium/%s.cc' % n
S = 'specs/hmm_spec.h'
B = (False, True)
units = [Unit('TaggerWord::get_lexical_form', [T('tagger_word'), S], lexical_form,
              [dict(eof=eof, cut=c, prev=p, mark=m, sup=s, shown=True) for eof in B for c in B for p in B for m in B for s in B if not eof or not (c or p or m or s)])]
units += [Unit('TaggerWord::get_all_chosen_tag_first', [T('tagger_word'), S], all_forms, [dict(mark=m, cut=c, prev=p) for m in B for c in B for p in B]),
          Unit('TaggerWord::add_tag', [T('tagger_word'), S], add_tag),
          Unit('TaggerWord::discardOnAmbiguity', [T('tagger_word'), S], discard)]
units += [Unit('tagger_utils::' + n, [T('tagger_utils'), T('tagger_data'), S], (lambda e, n=n: similar(e, n))) for n in ('find_similar_ambiguity_class',)]
units += [Unit('tagger_utils::require_similar_ambiguity_class', [T('tagger_utils'), T('tagger_data'), S], known_class, [dict(np=2), dict(np=4)])]
units += [Unit('TaggerData::' + n, [T('tagger_data')], (lambda e, n=n: copying(e, n))) for n in ('copy', 'operator=')]
LIBT = ['hmm', 'file_tagger', 'file_morpho_stream', 'tagger_word', 'tagger_data', 'tagger_data_hmm', 'tagger_utils', 'tsx_reader', 'xml_reader', 'collection', 'constant_manager', 'apertium_re', 'tagger_flags', 'endian_double_util', 'exception_type', 'morpho_stream']
searches = [Search('hmm', 'hmm.cc', '', [], sources=['apertium/%s.cc' % f for f in LIBT])]
