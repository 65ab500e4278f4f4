#!/usr/bin/env python3
"""Runs the check of one property:  check.py ID quick|thorough

1. proof: the obligations of every unit of the property are generated from the
   sources as they are now and discharged (vc/engine.py);
2. search: the same sources are compiled natively next to the property's
   specification and inputs are tried (bounded; it produces the failing input
   of a failed obligation, cross-checks the trusted models, and stands in,
   labelled bounded, for a unit the verifier cannot process).
"""
import importlib, json, multiprocessing as mp, os, re, signal, subprocess, sys, tempfile, time, traceback, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, 'props'))
REPO = os.environ.get('VC_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
ASTDUMP = os.path.join(BUILD, 'astdump')
CLANGFLAGS = ['-std=c++23', '-I' + REPO, '-I' + REPO + '/apertium', '-I/usr/include/libxml2', '-I' + ROOT + '/specs', '-resource-dir=/usr/lib/llvm-18/lib/clang/18']
CXX = ['g++', '-std=c++23', '-g', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr', '-I' + REPO, '-I' + REPO + '/apertium', '-I/usr/include/libxml2', '-I' + ROOT + '/native', '-I' + ROOT + '/specs']
LIBS = ['-llttoolbox', '-lxml2', '-licuio', '-licui18n', '-licuuc', '-licudata', '-lpthread']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=2500:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0:abort_on_error=1', LC_ALL='C.UTF-8', LANG='C.UTF-8')

def setup():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, 'astdump.cc')
    if os.path.exists(ASTDUMP) and os.path.getmtime(ASTDUMP) >= os.path.getmtime(src): return
    tmp = ASTDUMP + '.%d' % os.getpid()
    subprocess.run(['clang++', '-std=c++17', '-fno-rtti', '-O1', src, '-o', tmp, '-I/usr/lib/llvm-18/include', '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18'], check=True)
    os.rename(tmp, ASTDUMP)

class Unit:
    """one proof: fn(engine, **cfg) discharges the obligations of functions of the translation unit tu"""
    def __init__(self, name, tu, fn, cfgs=({},), extra=()):
        self.name, self.tu, self.fn, self.cfgs, self.extra = name, tu, fn, list(cfgs), list(extra)

def make_tu(tu, tmp, name):
    """the translation unit: the sources of /repo themselves, then the specification"""
    path = os.path.join(tmp, re.sub(r'\W', '_', name) + '.cc')
    lines = []
    for f in tu:
        lines.append('#include "%s"' % (REPO + '/' + f[6:] if f.startswith('/repo/') else os.path.join(ROOT, f)))
    open(path, 'w').write('\n'.join(lines) + '\n')
    return path

def run_unit(unit, cfg, tmp, deadline, q, zseed=0):
    import resource
    name = unit.name + (''.join('[%s=%s]' % kv for kv in sorted(cfg.items())) if cfg else '')
    res = dict(name=name, status='?', obligations=[], stats={}, functions=[], trusted=[], assumed=[])
    t0 = time.time()
    log = []
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        import engine
        if zseed:
            import z3
            z3.set_param('smt.random_seed', zseed)
        e = engine.Engine(make_tu(unit.tu, tmp, name), (REPO + '/', ROOT + '/'), CLANGFLAGS + unit.extra, ASTDUMP,
                          log=(lambda *a: log.append(' '.join(map(str, a)))))
        e.deadline = deadline
        try:
            unit.fn(e, **cfg)
            res['status'] = 'done'
        finally:
            for o in e.obls.values():
                res['obligations'].append(dict(name=o.name, where=str(o.where), status=o.status, n=o.n, backend=o.backend, time=round(o.time, 3), model=o.model))
            res['stats'] = e.stats
            res['functions'] = sorted(e.contracted)
            res['inlined'] = sorted(e.inlined)
            res['trusted'] = sorted(e.trusted)
            res['assumed'] = sorted(e.assumed)
    except BaseException as x:
        res['status'] = 'undecided'
        res['reason'] = '%s: %s' % (type(x).__name__, str(x)[:400])
        res['tb'] = traceback.format_exc()[-1500:]
    res['wall'] = round(time.time() - t0, 2)
    res['log'] = log
    q.put(res)

def prove(prop, budget, jobs, tmp, verbose):
    """all units; those that fail are tried once more, with another seed (the solvers' time limits make them depend on the machine's load)"""
    t0 = time.time()
    cases = [(u, c) for u in prop.units for c in u.cfgs]
    results = prove_units(cases, budget, jobs, tmp, verbose, 0)
    ok = lambda r: r['status'] == 'done' and all(o['status'] == 'discharged' for o in r['obligations'])
    again = [i for i, r in enumerate(results) if not ok(r) and not r.get('reason', '').startswith('Unsupported')]
    left = min(budget - (time.time() - t0), 120)
    if again and left > 20:
        for i, r in zip(again, prove_units([cases[i] for i in again], left, jobs, tmp, verbose, 11)):
            if ok(r): results[i] = r
    return results

def prove_units(cases, budget, jobs, tmp, verbose, zseed):
    """all units, in parallel processes"""
    deadline = time.time() + budget
    pend = list(enumerate(cases))
    ctx = mp.get_context('fork')
    running, results = [], [None] * len(cases)
    import queue as Q
    while pend or running:
        while pend and len(running) < jobs:
            i, (u, c) = pend.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=run_unit, args=(u, c, tmp, deadline, q, zseed), daemon=True)
            p.start()
            running.append((p, q, u, c, i))
        for r in list(running):
            p, q, u, c, i = r
            got = None
            try: got = q.get(timeout=0.05)
            except Q.Empty:
                if not p.is_alive():
                    try: got = q.get(timeout=0.5)
                    except Q.Empty: got = dict(name=u.name, status='undecided', reason='the verifier process died', obligations=[], stats={}, functions=[], trusted=[], assumed=[], wall=0, log=[])
                elif time.time() > deadline + 15:
                    p.kill(); got = dict(name=u.name, status='undecided', reason='time limit', obligations=[], stats={}, functions=[], trusted=[], assumed=[], wall=0, log=[])
            if got is not None:
                running.remove(r); results[i] = got
                p.join(1)
                if p.is_alive(): p.kill()
                if verbose:
                    print('\n'.join(got['log']))
                    print(got['name'], got['status'], got.get('reason', ''), got['wall'], 's', len(got['obligations']), 'obligations')
                    if verbose > 1: print(got.get('tb', ''))
                    for o in got['obligations']:
                        if o['status'] != 'discharged': print('   ', o['status'], o['name'], o['where'], o['n'], (o['model'] or {}) if verbose > 1 else '')
    return results

def compile_native(src, out, flags=()):
    cmd = CXX + list(flags) + [src, '-o', out] + LIBS
    p = subprocess.run(cmd, capture_output=True, text=True)
    return p.returncode == 0, p.stderr[-3000:]

def compile_all(srcs, tmp, tag):
    """objects of these sources of /repo, compiled in parallel"""
    from concurrent.futures import ThreadPoolExecutor
    objs = [os.path.join(tmp, '%s_%d.o' % (tag, i)) for i in range(len(srcs))]
    with ThreadPoolExecutor(8) as ex:
        ps = list(ex.map(lambda a: subprocess.run(CXX + ['-c', REPO + '/' + a[0], '-o', a[1]], capture_output=True, text=True), zip(srcs, objs)))
    bad = [p.stderr for p in ps if p.returncode]
    return objs, (bad[0][-1500:] if bad else '')

def build_real(src, out, flags=(), san=True):
    """the real program, from the current sources"""
    cxx = [c for c in CXX if san or not c.startswith('-f')]
    srcs = [REPO + '/' + s for s in ([src] if isinstance(src, str) else src)]
    p = subprocess.run(cxx + list(flags) + srcs + ['-o', out] + LIBS, capture_output=True, text=True)
    return p.returncode == 0, p.stderr[-3000:]

def write_tokens(path, alpha, tokens):
    with open(path, 'w') as f:
        f.write('A ' + ' '.join(str(ord(c)) for c in dict.fromkeys(alpha)) + '\n')
        for t in tokens:
            w, s = t if isinstance(t, tuple) else (3, t)
            f.write('T %d %s\n' % (w, ' '.join(str(ord(c)) for c in s)))

def source_chars(files):
    """characters and short strings the current sources mention (extra alphabet for the search)"""
    chars, strs = [], []
    for fn in files:
        try: s = open(REPO + '/' + fn, errors='replace').read()
        except OSError: continue
        s = re.sub(r'//[^\n]*|/\*.*?\*/', '', s, flags=re.S)
        for m in re.finditer(r"'((?:\\.|[^'\\\n]){1,8})'", s):
            c = m.group(1)
            try: c = c.encode().decode('unicode_escape') if c.startswith('\\') else c
            except Exception: continue
            if len(c) == 1 and ord(c) != 0xFFFF and c not in chars: chars.append(c)
        for m in re.finditer(r'"((?:\\.|[^"\\\n]){1,12})"', s):
            t = m.group(1)
            try: t = t.encode().decode('unicode_escape')
            except Exception: continue
            if t and t not in strs and not any(0xD800 <= ord(x) < 0xE000 or ord(x) == 0xFFFF for x in t): strs.append(t)
    return chars, strs[:60]

class Search:
    """native harness: src (in native/), alphabet for the exhaustive part, tokens for the random part"""
    def __init__(self, name, src, alpha, tokens, files=(), flags=(), extra_strings=False, share=1.0, binaries=(), mains=(), sources=()):
        self.name, self.src, self.alpha, self.tokens, self.files, self.flags, self.extra_strings, self.share = name, src, alpha, tokens, files, list(flags), extra_strings, share
        self.binaries = binaries
        self.sources = sources  # sources of /repo compiled and linked in
        self.mains = mains      # sources whose main becomes real_main (called in process)

def run_search(s, secs, seed, jobs, tmp):
    """returns dict(status=ok|failed|unavailable, ...)"""
    exe = os.path.join(tmp, 'h_' + s.name)
    flags = list(s.flags)
    for i, b in enumerate(s.binaries):
        out = os.path.join(tmp, 'bin_%s_%d' % (s.name, i))
        ok, err = build_real(b['src'], out, b.get('flags', ()), b.get('san', True))
        if not ok: return dict(status='unavailable', reason='the program does not compile: ' + err[-600:])
        flags.append('-D%s="%s"' % (b['macro'], out))
    flags.append('-DTMPDIR_="%s"' % tmp)
    flags.append('-DREPO_="%s"' % REPO)
    if s.sources:
        objs, err = compile_all(s.sources, tmp, 'src_' + s.name)
        if err: return dict(status='unavailable', reason='the sources do not compile: ' + err[-600:])
        flags += objs
    for i, m in enumerate(s.mains):
        o = os.path.join(tmp, 'main_%s_%d.o' % (s.name, i))
        p = subprocess.run(CXX + ['-include', ROOT + '/native/as_main.h', '-c', REPO + '/' + m, '-o', o], capture_output=True, text=True)
        if p.returncode: return dict(status='unavailable', reason='the program does not compile: ' + p.stderr[-600:])
        subprocess.run(['objcopy', '--redefine-sym', 'main=real_main%s' % (i or ''), o], check=True)
        flags.append(o)
    ok, err = compile_native(os.path.join(ROOT, 'native', s.src), exe, flags)
    if not ok: return dict(status='unavailable', reason='the harness does not compile against the current sources: ' + err[-600:])
    chars, strs = source_chars(s.files)
    tok = os.path.join(tmp, 'tok_' + s.name)
    toks = list(s.tokens) + [(1, c) for c in chars]
    if s.extra_strings: toks += [(1, t) for t in strs]
    write_tokens(tok, s.alpha, toks)
    fail = os.path.join(tmp, 'fail_' + s.name)
    try:
        p = subprocess.run([exe, str(secs), str(seed), str(jobs), tok, fail], capture_output=True, text=True, env=ENV, timeout=secs * 2 + 150, cwd=tmp, errors='replace')
    except subprocess.TimeoutExpired:
        return dict(status='unavailable', reason='search timed out')
    r = dict(status='ok' if p.returncode == 0 else 'failed', tokens=len(toks), alphabet=len(set(s.alpha)))
    for m in re.finditer(r'(\w+) (-?\d+)$', p.stdout, re.M): r[m.group(1)] = int(m.group(2))
    if p.returncode != 0:
        if os.path.exists(fail): r['case'] = open(fail, errors='replace').read()
        else: return dict(status='unavailable', reason='harness ended with %d: %s' % (p.returncode, p.stderr[-300:]))
    return r

def known_findings(pid):
    fn = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(fn): return []
    return [k for k in json.load(open(fn)) if k['property'] == pid]

def main():
    if '--setup' in sys.argv: setup(); return
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    verbose = 0
    for a in sys.argv[3:]:
        if a == '-v': verbose += 1
    only = [a[2:] for a in sys.argv[3:] if a.startswith('-u')]
    nosearch = '-nosearch' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    setup()
    prop = importlib.import_module(pid.lower())
    if only: prop.units = [u for u in prop.units if u.name in only]
    jobs = max(2, min(8, os.cpu_count() or 4))
    tmp = tempfile.mkdtemp(prefix='vc_%s_' % pid)
    os.environ['VC_TMP'] = tmp
    try: rc = check(prop, pid, tier, seed, jobs, tmp, verbose, t0, nosearch)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def check(prop, pid, tier, seed, jobs, tmp, verbose, t0, nosearch):
    thorough = tier == 'thorough'
    results = prove(prop, 1500 if thorough else getattr(prop, 'proof_budget', 330), jobs, tmp, verbose)
    obls = [o for r in results for o in r['obligations']]
    failed = [(r, o) for r in results for o in r['obligations'] if o['status'] == 'failed']
    unknown = [(r, o) for r in results for o in r['obligations'] if o['status'] == 'unknown']
    undecided = [r for r in results if r['status'] != 'done']
    proved = not failed and not unknown and not undecided
    if verbose: print('proof: %s, %.1fs' % ('proved' if proved else 'not proved', time.time() - t0))
    # a failed obligation of a unit that was not completed may only reflect the missing part
    hard = [(r, o) for r, o in failed if r['status'] == 'done']
    searches = []
    bad = None
    if not nosearch:
        base = 240 if thorough else (12 if proved else 60)
        for s in prop.searches:
            r = run_search(s, base * s.share, seed, jobs, tmp)
            r['name'] = s.name
            searches.append(r)
            if verbose: print('search', s.name, {k: v for k, v in r.items() if k != 'case'}, r.get('case', ''))
            if r['status'] == 'failed' and not is_known(pid, r):
                bad = r; break
    for k in known_findings(pid):
        if k.get('kind') == 'finding': print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    violations = 0
    lines = []
    if bad or hard:
        violations = 1
        rd = os.path.join(ROOT, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, pid + '.json')
        d = dict(property=pid, failed_obligations=[dict(unit=r['name'], **{k: o[k] for k in ('name', 'where', 'status', 'model')}) for r, o in (hard + unknown)[:12]],
                 undecided_units=[dict(unit=r['name'], reason=r.get('reason')) for r in undecided])
        if bad:
            d['failing_case'] = bad['case']; d['harness'] = bad['name']
            d['how'] = 'the case was run on the real code compiled from %s by the harness %s; "input" lists code points, "opt" the option combination, "why" the judge' % (REPO, bad['name'])
        json.dump(d, open(path, 'w'), indent=1, default=str)
        if bad:
            why = [l for l in bad['case'].split('\n') if l.startswith('why ')]
            print('failing input: ' + (why[0][4:] if why else bad['case'])[:600])
        for r, o in hard[:6]: print('failed obligation: %s at %s (%s)' % (o['name'], o['where'], r['name']))
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, path, '' if bad else ' no-failing-input-found'))
    evidence(prop, pid, tier, seed, results, searches, proved, undecided, violations, time.time() - t0)
    for r in undecided: print('note: %s not decided by the verifier (%s); bounded search only' % (r['name'], r.get('reason', '')[:200]))
    print('%s %s: %d obligations, %d discharged, %d units, %d bounded runs, %.1fs' % (pid, 'proved' if proved else 'NOT proved', len(obls), sum(o['status'] == 'discharged' for o in obls), len(results), sum(s.get('evals', 0) for s in searches), time.time() - t0))
    for l in lines: print(l)
    return 1 if violations else 0

def is_known(pid, r):
    for k in known_findings(pid):
        if k.get('kind') == 'finding' and k.get('match') and re.search(k['match'], r.get('case', ''), re.S): return True
    return False

BASE_ASSUMPTIONS = [
    'text is modelled as a sequence of code points: UString += UChar32 (lttoolbox) appends one element; UTF-16 surrogate splitting is not modelled',
    'machine integers are mathematical integers, except that conversion to an unsigned type of a negative difference is modelled as wrap-around',
    'input characters are valid code points other than U+FFFF (the code itself uses U+FFFF as end of file)',
    'the models of the library functions listed in trusted_base (assumed contracts on lttoolbox, ICU and the C++ library)',
    'memory allocation succeeds; no other thread touches the data',
    'clang -ast-dump gives the program g++ compiles (same macros and flags)',
]

def evidence(prop, pid, tier, seed, results, searches, proved, undecided, violations, wall):
    obls = [o for r in results for o in r['obligations']]
    back = {}
    for o in obls:
        for b, n in o['backend'].items(): back[b] = back.get(b, 0) + n
    fns = sorted({f for r in results for f in r['functions']})
    inl = sorted({f for r in results for f in r.get('inlined', [])} - set(fns))
    cov = dict(
        obligations=len(obls), discharged=sum(o['status'] == 'discharged' for o in obls),
        obligation_instances=sum(o['n'] for o in obls),
        checker_cmd='python3-vt vc/check.py %s %s (vc/engine.py; z3 python API, /usr/bin/cvc5)' % (pid, tier),
        trusted_base=sorted({t for r in results for t in r['trusted']}) + ['clang 18 (parser)', 'z3', 'cvc5', 'vc/engine.py, vc/stdmodel.py'],
        functions_under_contract=fns, functions_inlined_into_them=inl,
        by_backend=back, solver_seconds=round(sum(r['stats'].get('time', 0) for r in results), 2),
        solver_queries=sum(r['stats'].get('queries', 0) for r in results),
        loops=sum(r['stats'].get('loops', 0) for r in results), loop_invariants=sum(r['stats'].get('invariants', 0) for r in results),
        paths=sum(r['stats'].get('paths', 0) for r in results),
        units=[dict(name=r['name'], status=r['status'], reason=r.get('reason'), wall_s=r['wall'], obligations=len(r['obligations'])) for r in results],
        not_discharged=[dict(name=o['name'], where=o['where'], status=o['status']) for o in obls if o['status'] != 'discharged'],
        bounded=[dict(label='bounded, not counted as proved', **{k: v for k, v in s.items() if k != 'case'}) for s in searches])
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(prop, 'level', 'proof'), coverage=cov,
              assumptions=BASE_ASSUMPTIONS + list(getattr(prop, 'assumptions', [])) + sorted({a for r in results for a in r['assumed']}),
              wall_s=round(wall, 2), violations=violations)
    if getattr(prop, 'level', 'proof') != 'proof':
        cov['evaluations'] = sum(s.get('evals', 0) for s in searches)
        cov['distinct_nontrivial'] = sum(s.get('nontrivial', 0) for s in searches)
    d = os.path.join(ROOT, 'evidence'); os.makedirs(d, exist_ok=True)
    tmpf = os.path.join(d, '.%s.%d' % (pid, os.getpid()))
    json.dump(ev, open(tmpf, 'w'), indent=1, default=str)
    os.rename(tmpf, os.path.join(d, pid + '.json'))

if __name__ == '__main__': main()
