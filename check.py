#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of the real code (see DESIGN.md).

  check.py C02 [--tier quick|thorough]     run a check
  check.py --replay FILE                   run a recorded counterexample against the real code
  check.py --setup                         build the engine and the harness ahead of time

Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Anything else: no answer.
"""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(HERE, '.build')
EVID = os.path.join(HERE, 'evidence')
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import plan

T0 = time.time()
LIMIT = dict(quick=720, thorough=40000)     # seconds for all runs of a check together
NOANSWER = 2


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def die(msg):
    log('NO ANSWER:', msg)
    sys.exit(NOANSWER)


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors='replace', start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


# ---- what a build depends on ---------------------------------------------------------------------
def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
            for f in sorted(fs):
                if f.endswith(('.rs', '.toml', '.lock', '.cpp', '.h')):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def engine():
    src = os.path.join(HERE, 'engine')
    out = os.path.join(BUILD, 'symex-' + tree_hash([src]))
    with Lock('engine'):
        if not os.path.exists(out):
            for old in glob.glob(os.path.join(BUILD, 'symex-*')):
                os.unlink(old)
            rc, o = sh(['g++', '-O2', '-std=c++17', '-o', out + '.tmp', 'parse.cpp', 'main.cpp', '-lz3'], cwd=src)
            if rc != 0:
                die('engine build failed\n' + o[-3000:])
            os.rename(out + '.tmp', out)
    return out


IR_FLAGS = '--emit=llvm-ir -Ccodegen-units=1 -Copt-level=0 -Cdebuginfo=0 -Zshare-generics=no -Awarnings'
REL = ' -Cdebug-assertions=off -Coverflow-checks=off'
# hooks are off unless a check asks for them; each is one module of /repo/arche_tape/src/lib.rs
HOOKCFG = {'bits': ' --cfg arche_verif="bits"', 'ents': ' --cfg arche_verif="entities"'}


def hook_of(kind):
    return next((h for h in HOOKCFG if kind.endswith('_' + h)), None)


def flags_of(kind):
    return (REL if kind.startswith('rel') else '') + (HOOKCFG[hook_of(kind)] if hook_of(kind) else '')


def kind_args(kind):
    return IR_FLAGS + flags_of(kind), ['build'] + (['--features', hook_of(kind)] if hook_of(kind) else [])


KINDS = ['dbg', 'dbg_bits', 'dbg_ents', 'rel']
NAT = '-Cdebuginfo=0 -Awarnings'


def native_feats(kind):
    return 'native' + (',' + hook_of(kind) if hook_of(kind) else '')


def native_kind(kind, san):
    fl = NAT + flags_of(kind)
    if san == 'asan':
        return fl + ' -Zsanitizer=address', ['build', '--features', native_feats(kind), '--target', 'x86_64-unknown-linux-gnu']
    return fl, ['build', '--features', native_feats(kind)]


_hash = None


def src_hash():
    global _hash
    if _hash is None:
        _hash = tree_hash([REPO, os.path.join(HERE, 'harness')])
    return _hash


def crate_copy(kind):
    """A private copy of the harness crate, so that cargo writes nothing into /verif's tracked files."""
    d = os.path.join(BUILD, '%s-%s' % (kind, src_hash()))
    c = os.path.join(d, 'crate')
    if not os.path.exists(c):
        for old in glob.glob(os.path.join(BUILD, kind + '-*')):
            if old != d and os.path.isdir(old):
                shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        shutil.copytree(os.path.join(HERE, 'harness'), c + '.tmp', ignore=shutil.ignore_patterns('target'))
        os.rename(c + '.tmp', c)
    return d, c


def cargo(kind, flags, args, done):
    d, c = crate_copy(kind)
    stamp = os.path.join(d, 'done')
    if not os.path.exists(stamp):
        shutil.rmtree(os.path.join(d, 'target'), ignore_errors=True)
        rc, o = sh(['cargo'] + args + ['-q', '--offline'], cwd=c, timeout=600, env={
            'RUSTUP_TOOLCHAIN': 'nightly', 'RUSTFLAGS': flags, 'CARGO_INCREMENTAL': '0', 'CARGO_TARGET_DIR': os.path.join(d, 'target'),
            'CARGO_ENCODED_RUSTFLAGS': '\x1f'.join(flags.split())})
        if rc != 0:
            return None, o
        open(stamp, 'w').close()
    return done(d), ''


def build_ir(kind):
    with Lock(kind):
        r, o = cargo(kind, *kind_args(kind), lambda d: sorted(glob.glob(os.path.join(d, 'target', '**', '*.ll'), recursive=True)))
    return r, o


def std_ir():
    """The IR of the standard library's core and alloc, for code that calls into their precompiled functions."""
    outs = []
    with Lock('core'):
        for name in ('core', 'alloc'):
            out = os.path.join(BUILD, name + '.ll')
            if not os.path.exists(out):
                env = {'RUSTUP_TOOLCHAIN': 'nightly'}
                rc, o = sh(['rustc', '--print', 'sysroot'], env=env)
                src = os.path.join(o.strip(), 'lib/rustlib/src/rust/library/%s/src/lib.rs' % name)
                rc, o = sh(['rustc', '--edition', '2024', '--crate-name', name, '--crate-type', 'rlib', src, '--emit=llvm-ir', '-Copt-level=0',
                            '-Cdebug-assertions=off', '-Ccodegen-units=1', '-Cdebuginfo=0', '-Zforce-unstable-if-unmarked', '-Awarnings', '-Cpanic=unwind',
                            '-o', out + '.tmp'], env=env, timeout=400)
                if rc != 0:
                    return None, o
                os.rename(out + '.tmp', out)
            outs.append(out)
    return outs, ''


def std_for(irs, d):
    """Gives the copies the crate names that the harness' IR calls them by; returns engine arguments, or nothing where that is impossible."""
    texts = [open(f).read() for f in irs]
    args = []
    for name, mark in (('core', '3fmt'), ('alloc', '5alloc')):
        pat = r'Cs[0-9A-Za-z]+_%d%s(?=%s)' % (len(name), name, mark)
        want = set(x for t in texts for x in re.findall(pat, t))
        text = open(os.path.join(BUILD, name + '.ll')).read()
        defs = '\n'.join(l for l in text.splitlines() if l.startswith('define'))
        have = set(re.findall(pat, defs))
        if len(have) > 1 and len(want) == 1:
            have -= want
        # references inside a mangled name count characters, so the names have to have one length
        if len(want) != 1 or len(have) != 1 or len(list(want)[0]) != len(list(have)[0]):
            log('cannot tell what %s is called: %s %s' % (name, want, have))
            continue
        out = os.path.join(d, name + '.ll')
        with open(out, 'w') as f:
            f.write(text.replace(have.pop(), want.pop()))
        args += ['--lib', out]
    return args


def build_native(kind, san=''):
    name = 'native_' + kind + ('_' + san if san else '')
    flags, args = native_kind(kind, san)
    with Lock(name):
        r, o = cargo(name, flags, args, lambda d: glob.glob(os.path.join(d, 'target', '**', 'debug', 'replay'), recursive=True))
    return (r[0] if r else None), o


# ---- replay against the real code --------------------------------------------------------------
def write_input(path, v, params):
    with open(path, 'w') as f:
        f.write('%d %s\n' % (len(params), ' '.join(map(str, params))))
        for k, n, x in v['inputs']:
            f.write('%s %s\n' % (k, x))


def run_native(exe, entry, inp, timeout=30, env=None):
    rc, o = sh([exe, entry, inp], timeout=timeout, env=env)
    res = re.findall(r'^RESULT (\S+)', o, re.M)
    tr = re.findall(r'^TRACE(.*)$', o, re.M)
    return rc, (res[-1] if res else ('timeout' if rc is None else 'died(%s)' % rc)), (tr[-1].split() if tr else []), o


def run_miri(kind, entry, inp):
    name = 'miri_' + kind
    flags, feats = NAT + flags_of(kind), native_feats(kind)
    with Lock(name):
        d, c = crate_copy(name)
        rc, o = sh(['cargo', 'miri', 'run', '-q', '--offline', '--features', feats, '--bin', 'replay', '--', entry, inp], cwd=c, timeout=400, env={
            'RUSTUP_TOOLCHAIN': 'nightly', 'RUSTFLAGS': flags, 'CARGO_TARGET_DIR': os.path.join(d, 'target'),
            'MIRIFLAGS': '-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-permissive-provenance'})
    return rc, o


def confirm(kind, v, inp):
    """Does the recorded input fail on the natively compiled real code? Returns (how, output) or None."""
    outs = []
    exe, o = build_native(kind)
    if not exe:
        return None, 'native build failed\n' + o[-2000:]
    rc, res, _, o = run_native(exe, v['entry'], inp)
    outs.append('native: %s\n%s' % (res, o[-1500:]))
    if res not in ('ok', 'input-mismatch', 'input-exhausted', 'assumed-out') and not (res == 'blocked' and v['kind'] != 'assert'):
        return 'native run: ' + res, '\n'.join(outs)
    if v['kind'] in ('deadlock', 'hang') and res == 'blocked':
        return 'native run: blocked', '\n'.join(outs)
    if v['kind'] in ('memory', 'ub', 'uninit', 'leak', 'abort'):
        exe, o = build_native(kind, 'asan')
        if exe:
            rc, res, _, o = run_native(exe, v['entry'], inp, timeout=60, env={'ASAN_OPTIONS': 'detect_leaks=0'})
            outs.append('address sanitizer: %s\n%s' % (res, o[-3000:]))
            if 'AddressSanitizer' in o:
                return 'address sanitizer report', '\n'.join(outs)
        rc, o = run_miri(kind, v['entry'], inp)
        outs.append('miri: %s\n%s' % (rc, o[-3000:]))
        if 'Undefined Behavior' in o:
            return 'miri: undefined behaviour', '\n'.join(outs)
    return None, '\n'.join(outs)


# ---- known findings ---------------------------------------------------------------------------------
def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r'known: property=(\S+) entry=(\S+) kind=(\S+) code=(\S+) what=(.*)', line.strip())
        if m and m.group(1) == prop:
            out.append(m.groups())
    return out


def demangle(names):
    if not names:
        return {}
    p = subprocess.run(['c++filt'], input='\n'.join(names) + '\n', text=True, capture_output=True)
    out = p.stdout.splitlines()
    return dict(zip(names, out)) if len(out) == len(names) else {n: n for n in names}


def entry_line(code, cache={}):
    """FILE*10000+line -> harness source position"""
    f, l = divmod(code, 10000)
    if not cache:
        for p in glob.glob(os.path.join(HERE, 'harness', 'src', '*.rs')):
            m = re.search(r'const FILE: u32 = (\d+)', open(p).read())
            if m:
                cache[int(m.group(1))] = os.path.basename(p)
    name = cache.get(f, '?')
    try:
        txt = open(os.path.join(HERE, 'harness', 'src', name)).read().splitlines()[l - 1].strip()
    except Exception:
        txt = ''
    return '%s:%d: %s' % (name, l, txt)


def run_check(prop, tier):
    spec = plan.CHECKS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    runs = spec[tier]
    sx = engine()
    log('engine ready')
    kinds = []
    for r in runs:
        if r['build'] not in kinds:
            kinds.append(r['build'])
    irs, degraded = {}, []
    # the native build is needed in every case (samples); start all builds together
    with cf.ThreadPoolExecutor(8) as ex:
        fi = {k: ex.submit(build_ir, k) for k in kinds}
        fn = {k: ex.submit(build_native, k) for k in kinds}
        fc = ex.submit(std_ir) if any(r.get('core') for r in runs) else None
        for k in kinds:
            irs[k], o = fi[k].result()
            if irs[k] is None:
                if hook_of(k):
                    degraded.append('%s did not build; its entries were not run: %s' % (k, o[-400:]))
                    log('hooks build failed; continuing with the public interface only\n' + o[-1500:])
                else:
                    die('harness build (%s) failed\n%s' % (k, o[-4000:]))
        natives = {k: fn[k].result() for k in kinds}
        if fc and not fc.result()[0]:
            die('core did not build\n' + fc.result()[1][-3000:])
    log('harness built:', ', '.join(kinds))
    tmp = os.path.join(BUILD, 'out-%s-%d' % (prop, os.getpid()))
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    cov = dict(states=0, transitions=0, paths=0, queries=0, unsat=0, sat=0, solver_s=0.0, asserts=0, obligations=0,
               assert_queries=0, instructions=0, blocked=0, assumed_out=0, concretised=0)
    per_entry, funcs, samples, problems, viols, cand = {}, {}, [], [], [], []
    ran = 0
    cut = []            # paths longer than the instruction bound, runs longer than their budget: outside what was decided
    todo = [dict(r) for r in runs]
    ri = -1
    while todo:
        r = todo.pop(0)
        ri += 1
        k = r['build']
        if irs[k] is None:
            continue
        left = LIMIT[tier] - (time.time() - T0)
        if left < 5:
            cut.append('%s: not run, the time of the whole check was used up' % ','.join(r['entries']))
            continue
        budget = int(min(r['budget'], left))
        out = os.path.join(tmp, 'r%d' % ri)
        os.makedirs(out)
        params = r['params']
        cmd = [sx, '--entry', ','.join(r['entries']), '--out', out, '--params', ','.join(map(str, params)), '--budget', str(budget),
               '--seed', str(seed), '--samples', str(r.get('samples', 12)), '--jobs', '8'] + irs[k]
        if r.get('core'):
            cmd += std_for(irs[k], tmp)
        if 'max_ins' in r:
            cmd += ['--max-ins', str(r['max_ins'])]
        rc, o = sh(cmd, timeout=budget + 120)
        if '--lib' not in cmd and any('without body' in open(f).read() for f in glob.glob(out + '/error_*.json')) and std_ir()[0]:
            # the code calls precompiled parts of the standard library: once more with their IR
            log('again, with the IR of the standard library')
            shutil.rmtree(out)
            os.makedirs(out)
            rc, o = sh(cmd + std_for(irs[k], tmp), timeout=budget + 120)
        found = [json.load(open(f)) for f in sorted(glob.glob(out + '/viol_*.json'))]
        if found and all(v['kind'] == 'hang' for v in found):
            # endless, or merely longer than the bound? The real code tells
            slow = []
            for n, v in enumerate(found[:2]):
                inp = os.path.join(tmp, 'hang%d_%d.in' % (ri, n))
                write_input(inp, v, v['params'])
                if natives[k][0] and run_native(natives[k][0], v['entry'], inp, 60)[1] == 'ok':
                    slow.append(v)
            if len(slow) == len(found[:2]):
                names_ = {v['entry'] for v in slow}
                cut.append('%s: a path is longer than the bound on instructions; the real code completes it without a failure' % ','.join(sorted(names_)))
                log('longer than the bound, not endless:', *names_)
                rest = [e for e in r['entries'] if e not in names_]
                if rest:
                    todo.insert(0, dict(r, entries=rest))
                continue
        rj = os.path.join(out, 'result.json')
        if not os.path.exists(rj):
            die('engine failed (rc %s)\n%s' % (rc, o[-3000:]))
        d = json.load(open(rj))
        ran += 1
        for e, x in d['entries'].items():
            name = '%s [%s; %s]' % (e, k, ','.join(map(str, params)))
            per_entry[name] = {q: x[q] for q in ('paths', 'states', 'forks', 'queries', 'unsat', 'solver_s', 'asserts', 'obligations', 'instructions', 'reach')}
            for q in cov:
                if q == 'transitions':
                    cov[q] += x['forks'] + x['paths']
                else:
                    cov[q] += x[q] if q != 'states' else (x['states'] or x['paths'])
            if x['errors']:
                problems.append('%s: engine error' % e)
            if x['unknown']:
                problems.append('%s: solver gave no answer to %d queries' % (e, x['unknown']))
            if not x['violations'] and not d['violations'] and not d['timed_out']:
                for want in plan.REACH.get(e, [1]):
                    if str(want) not in x['reach']:
                        problems.append('%s: never reached point %d (vacuous)' % (e, want))
        for f in sorted(glob.glob(out + '/error_*.json')):
            v = json.load(open(f))
            problems.append('engine error in %s: %s' % (v.get('entry'), v.get('msg')))
        if d['timed_out']:
            cut.append('%s: budget of %ss exhausted' % (','.join(r['entries']), budget))
        if d['crashed']:
            problems.append('engine process crashed')
        for n, ex_, tot in d['functions']:
            a = funcs.get(n, [0, tot])
            funcs[n] = [max(a[0], ex_), tot]
        for f in sorted(glob.glob(out + '/viol_*.json')):
            v = json.load(open(f))
            v['build'] = k
            cand.append(v)
        for f in sorted(glob.glob(out + '/sample_*.json')):
            v = json.load(open(f))
            v['build'], v['params'] = k, params
            samples.append(v)
        log('%s %s: %s paths, %s violations, %.1fs' % (k, ','.join(r['entries']), sum(x['paths'] for x in d['entries'].values()), d['violations'], d['wall_s']))
        if cand:
            break
    # ---- counterexamples: replay against the real code
    known = known_findings(prop)
    seen_known = set()
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    for f in glob.glob(os.path.join(EVID, 'replay', prop + '_*')):
        os.unlink(f)
    for i, v in enumerate(cand[:4]):
        hit = None
        for kf in known:
            if kf[1] == v['entry'] and kf[2] == v['kind'] and str(kf[3]) == str(v['code']):
                hit = kf
        if hit:
            seen_known.add(hit)
            continue
        inp = os.path.join(EVID, 'replay', '%s_%d.in' % (prop, i))
        write_input(inp, v, v['params'])
        how, text = confirm(v['build'], v, inp)
        v['confirmed_by'], v['replay_output'], v['input_file'] = how, text[-4000:], inp
        if v['kind'] == 'assert':
            v['assertion'] = entry_line(v['code'])
        v['stack'] = list(demangle([str(s) for s in v.get('stack') or []]).values())
        rp = os.path.join(EVID, 'replay', '%s_%d.json' % (prop, i))
        json.dump(v, open(rp, 'w'), indent=1)
        if how:
            viols.append((rp, v))
            break
        problems.append('counterexample in %s (%s %s %s %s) does not reproduce natively' % (v['entry'], v['kind'], v['code'], v['msg'], v['panic']))
        log('not reproduced:', json.dumps(v)[:1500])
    # ---- sampled paths: the engine's prediction against the real code
    validated = 0
    if not viols:
        jobs = []
        for i, v in enumerate(samples):
            exe = natives[v['build']][0]
            if not exe:
                problems.append('native build failed: ' + natives[v['build']][1][-500:])
                break
            inp = os.path.join(tmp, 's%d.in' % i)
            write_input(inp, v, v['params'])
            jobs.append((v, exe, inp))
        with cf.ThreadPoolExecutor(8) as ex:
            for v, (rc, res, tr, o) in zip([j[0] for j in jobs], ex.map(lambda j: run_native(j[1], j[0]['entry'], j[2], 120), jobs)):
                want = 'blocked' if v['blocked'] else 'ok'
                if res != want or tr != v['trace']:
                    problems.append('engine and real code disagree on a path of %s: predicted %s, got %s' % (v['entry'], want, res))
                    log('disagreement', v['entry'], res, json.dumps(v)[:800], o[-500:])
                else:
                    validated += 1
        log('%d of %d sampled paths agree with the real code' % (validated, len(jobs)))
    names = demangle(list(funcs))
    mine = sorted((names[n], *funcs[n]) for n in funcs if re.match(r'^(<\W*)?(<)?(arche_tape|untyped_vec)|.* as (arche_tape|untyped_vec)', names[n]) or 'arche_tape' in names[n].split('::<')[0] or 'untyped_vec' in names[n].split('::<')[0])
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': cov['states'], 'transitions': cov['transitions'], 'traces_validated_against_impl': validated,
            'samples': [{q: s[q] for q in ('entry', 'build', 'params', 'inputs', 'blocked')} for s in samples[:6]],
            'paths': cov['paths'], 'solver_queries': cov['queries'], 'queries_unsat': cov['unsat'], 'queries_sat': cov['sat'],
            'solver_seconds': round(cov['solver_s'], 2), 'assertions_evaluated': cov['asserts'],
            'assertion_queries_discharged': cov['assert_queries'], 'symbolic_obligations': cov['obligations'],
            'instructions_executed': cov['instructions'], 'paths_expected_to_block': cov['blocked'], 'paths_assumed_out': cov['assumed_out'],
            'addresses_and_sizes_concretised': cov['concretised'],
            'bounds': spec['bounds'], 'outside_the_bounds': spec.get('outside', ''),
            'entries': per_entry,
            'functions_encoded': [{'function': a, 'blocks_executed': b, 'blocks': c} for a, b, c in mine],
            'functions_encoded_total_including_std': len(funcs),
            'explanation': 'states: points at which the whole world was compared with the model (or end-of-path verdicts where an entry has none); transitions: path forks decided by the solver plus completed paths.',
            'exhaustive': not problems and not viols and not cut,
        },
        'assumptions': plan.ASSUMPTIONS + degraded,
        'wall_s': round(time.time() - T0, 2), 'violations': len(viols),
    }
    if problems:
        ev['coverage']['problems'] = problems
    if cut:
        ev['coverage']['cut_short'] = cut
        for c in cut:
            log('cut short:', c)
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    for kf in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (prop, kf[4]))
    if viols:
        rp, v = viols[0]
        log('entry %s: %s %s %s' % (v['entry'], v['kind'], v.get('assertion', v['msg']), v['panic']))
        log('reproduced by', v['confirmed_by'])
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(rp, HERE)))
        sys.exit(1)
    if problems or not ran:
        for p in problems[:10]:
            log('problem:', p)
        die('%d problem(s)' % max(1, len(problems)))
    log('property %s held: %d paths, %d obligations, %d queries, solver %.1fs' % (prop, cov['paths'], cov['obligations'], cov['queries'], cov['solver_s']))
    sys.exit(0)


def replay(path):
    v = json.load(open(path))
    inp = os.path.join(BUILD, 'replay-%d.in' % os.getpid())
    os.makedirs(BUILD, exist_ok=True)
    write_input(inp, v, v['params'])
    how, text = confirm(v['build'], v, inp)
    os.unlink(inp)
    print(text)
    print('entry %s, %s' % (v['entry'], v.get('assertion', v['kind'])))
    print('reproduced by ' + how if how else 'not reproduced')
    sys.exit(1 if how else 0)


def main():
    a = sys.argv[1:]
    if a[0] == '--setup':
        engine()
        with cf.ThreadPoolExecutor(4) as ex:
            for k, (r, o) in zip(KINDS, ex.map(build_ir, KINDS)):
                log(k, 'ok' if r else 'failed: ' + o[-500:])
        return
    if a[0] == '--replay':
        return replay(a[1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    run_check(a[0], tier)


if __name__ == '__main__':
    main()
