#!/usr/bin/env python3
"""vf.py -- contract verification driver.

  vf.py check <PROPERTY> [--tier quick|thorough]   run every contract of a property
  vf.py run <unit.c> [proof ...]                   run single contracts (development)
  vf.py replay <replay file>                       replay a recorded counterexample

See DESIGN.md for the method.  Every run compiles the units in props/<ID>/ against
/repo's current working tree (nothing is cached), discharges the obligations with
cbmc, replays counterexamples natively and rewrites evidence/<ID>.json.
"""
import sys, os, re, json, subprocess, shutil, tempfile, time, glob, resource, signal
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
OUT = os.path.join(ROOT, 'out')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = int(os.environ.get('VF_JOBS', '8'))
BUDGET = float(os.environ.get('VF_BUDGET', '780'))
T0 = time.time()

def include_dirs():
    base = os.path.join(REPO, 'amelie')
    dirs = []
    for top in ('runtime', 'server', 'db', 'sync', 'vm', 'compiler', 'system', 'main'):
        p = os.path.join(base, top)
        if not os.path.isdir(p):
            continue
        dirs.append(p)
        for d in sorted(os.listdir(p)):
            if os.path.isdir(os.path.join(p, d)):
                dirs.append(os.path.join(p, d))
    return ['-I' + d for d in dirs] + ['-I' + REPO, '-I' + os.path.join(ROOT, 'lib')]

def run(cmd, timeout=None, mem_gb=None, env=None, cwd=None):
    def pre():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=pre, env=env, cwd=cwd, stdin=subprocess.DEVNULL)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return -9, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), True

# ---------------------------------------------------------------- units

def parse_unit(path):
    unit = {'path': path, 'name': os.path.splitext(os.path.basename(path))[0],
            'rewrite': [], 'loopinv': [], 'loopmiss': False, 'flags': [], 'nflags': [], 'link': [], 'assume': [], 'proofs': [], 'repo': []}
    text = open(path).read()
    for m in re.finditer(r'^//@(\w+)[ \t]+(.*)$', text, re.M):
        k, v = m.group(1), m.group(2).strip()
        if k == 'flags':
            unit['flags'] += v.split()
        elif k == 'nflags':
            unit['nflags'] += v.split()
        elif k == 'link':
            unit['link'] += v.split()
        elif k == 'assume':
            unit['assume'].append(v)
        elif k == 'rewrite':
            unit['rewrite'].append([x.strip() for x in v.split('==>')])
        elif k == 'loopinv':
            unit['loopinv'].append([x.strip() for x in v.split('==>', 1)])
        elif k == 'repo':
            unit['repo'] += v.split()
        elif k == 'proof':
            parts = v.split()
            p = {'name': parts[0], 'kind': 'proof', 'unwind': '1', 'timeout': '120',
                 'checks': 'mem', 'fuzz': '20000', 'tier': 'quick', 'covers': '',
                 'mem': '8', 'unit': unit}
            for kv in parts[1:]:
                a, b = kv.split('=', 1)
                p[a] = b
            unit['proofs'].append(p)
    return unit

CHECKS = {
    'mem': ['--bounds-check', '--pointer-check'],
    'none': [],
    'arith': ['--bounds-check', '--pointer-check', '--signed-overflow-check', '--div-by-zero-check',
              '--undefined-shift-check'],
    'div': ['--bounds-check', '--pointer-check', '--div-by-zero-check'],
}

def build_cbmc(unit, work, extra):
    """preprocess with gcc, normalise the one construct goto-cc cannot type
    (__auto_type initialised from an array lvalue: made the equivalent explicit
    decay &(E)[0]), compile to a goto binary."""
    if all(p['kind'] == 'native' for p in unit['proofs']):
        return None, ''
    i = os.path.join(work, unit['name'] + '.i')
    gb = os.path.join(work, unit['name'] + '.gb')
    cmd = ['gcc', '-E', '-D_GNU_SOURCE', '-DVF_CBMC', '-D__NO_CTYPE', '-U__OPTIMIZE__',
           '-include', os.path.join(ROOT, 'lib', 'vf_pre.h')] + \
        unit['flags'] + extra + include_dirs() + [unit['path'], '-o', i]
    rc, o, e, _ = run(cmd, 60)
    if rc != 0:
        return None, 'preprocess failed: ' + e[-2000:]
    if unit['rewrite']:
        # declared type-level rewrites (a flexible array member given the fixed
        # capacity the harness allocates); recorded in the evidence
        t = open(i, errors='replace').read()
        for a, b in unit['rewrite']:
            t, n = re.subn(a, b, t)
            if n == 0:
                return None, 'rewrite does not apply: ' + a
        open(i, 'w').write(t)
    # "auto e = error_catch(...)" declares a bool; goto-cc evaluates the statement
    # expression twice when it has to infer that
    t = open(i, errors='replace').read()
    t = re.sub(r'\b(?:auto|__auto_type)(\s+\w+\s*=\s*\(\{\s*Exception\b)', r'_Bool\1', t)
    open(i, 'w').write(t)
    if unit['loopinv']:
        # loop contracts are annotated in place; a loop that is not found any more
        # only makes the loops=1 proofs fall back to their bounded companion
        t = open(i, errors='replace').read()
        for a, b in unit['loopinv']:
            t, n = re.subn(a, b, t)
            if n != 1:
                unit['loopmiss'] = True
        if not unit['loopmiss']:
            plain = open(i, errors='replace').read()
            open(i, 'w').write(t)
            rc, o, e, _ = run(['goto-cc', i, '-o', gb], 240)
            if rc != 0 and 'invalid array initializer' not in o + e:
                unit['loopmiss'] = True
                open(i, 'w').write(plain)
    for attempt in range(12):
        rc, o, e, _ = run(['goto-cc', i, '-o', gb], 240)
        if rc == 0 and os.path.exists(gb):
            return gb, ''
        out = o + e
        m = re.search(r'^(\S+?):(\d+):\d+: error: invalid array initializer', out, re.M)
        if 'invalid array initializer' not in out or not m:
            return None, 'goto-cc failed: ' + out[-2500:]
        if not patch_decay(i, m.group(1), int(m.group(2))):
            return None, 'goto-cc failed: ' + out[-2500:]
    return None, 'goto-cc failed'

def patch_decay(ifile, fname, line):
    lines = open(ifile, errors='replace').read().split('\n')
    cur_f, cur_l = None, 0
    hit = False
    for n, t in enumerate(lines):
        m = re.match(r'# (\d+) "([^"]*)"', t)
        if m:
            cur_l, cur_f = int(m.group(1)), m.group(2)
            continue
        if cur_f and os.path.basename(cur_f) == os.path.basename(fname) and cur_l == line:
            new = re.sub(r'__auto_type\s+(\w+)\s*=\s*([^;{}]+);', r'__auto_type \1 = &(\2)[0];', t)
            if new != t:
                lines[n] = new
                hit = True
        cur_l += 1
    if hit:
        open(ifile, 'w').write('\n'.join(lines))
    return hit

def build_native(unit, work, extra):
    tab = os.path.join(work, unit['name'] + '_tab')
    os.makedirs(tab, exist_ok=True)
    names = [p['name'] for p in unit['proofs']]
    with open(os.path.join(tab, 'vf_table.inc'), 'w') as f:
        for n in names:
            f.write('void h_%s(void);\n' % n)
        f.write('static VfEntry vf_table[] = {\n')
        for n in names:
            f.write('{"%s", h_%s},\n' % (n, n))
        f.write('};\n')
    exe = os.path.join(work, unit['name'] + '.exe')
    cmd = ['clang', '-D_GNU_SOURCE', '-DVF_NATIVE', '-g', '-O1', '-w', '-fno-omit-frame-pointer',
           '-fsanitize=address,bounds', '-fno-sanitize-recover=bounds'] + \
        unit['flags'] + unit['nflags'] + extra + \
        include_dirs() + ['-I' + tab, unit['path'], '-o', exe] + unit['link'] + \
        ['-lm', '-lpthread', '-Wl,--unresolved-symbols=ignore-all']
    rc, o, e, _ = run(cmd, 240)
    if rc != 0:
        return None, 'native build failed: ' + e[-2500:]
    return exe, ''

NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=4:allocator_may_return_null=1:detect_stack_use_after_return=0',
            UBSAN_OPTIONS='print_stacktrace=1')

def native_replay(exe, proof, rfile, timeout=20):
    rc, o, e, to = run([exe, proof['name'], 'replay', rfile], timeout, env=dict(NENV, VF_SCRATCH=os.path.dirname(exe)))
    txt = (o + e)[-6000:]
    if to:
        return 'hang', txt
    if rc == 0 or rc == 9:
        return ('skip' if rc == 9 or 'precondition not met' in txt else 'held'), txt
    return 'failed', txt

def native_fuzz(exe, proof, iters, seed, work, timeout):
    logf = os.path.join(work, '%s.%s.log' % (proof['unit']['name'], proof['name']))
    rc, o, e, to = run([exe, proof['name'], 'fuzz', str(iters), str(seed), logf], timeout, env=dict(NENV, VF_SCRATCH=work))
    txt = (o + e)[-6000:]
    vals = []
    try:
        import struct
        data = open(logf, 'rb').read()
        n = struct.unpack_from('<Q', data, 0)[0]
        vals = list(struct.unpack_from('<%dQ' % n, data, 8))
    except Exception:
        pass
    try:
        os.unlink(logf)
    except OSError:
        pass
    return rc, txt, to, vals

LOOPS = {}

def loop_bounds(proof, gb, scale):
    """unwindfn=f:3,g:5 -- a bound for every loop of the named functions."""
    if 'unwindfn' not in proof:
        return ''
    if gb not in LOOPS:
        rc, o, e, to = run(['cbmc', gb, '--show-loops'], 60)
        LOOPS[gb] = re.findall(r'^Loop (\S+?)\.(\d+):', o, re.M)
    want = dict(x.split(':') for x in proof['unwindfn'].split(','))
    return ','.join('%s.%s:%d' % (f, n, int(want[f]) * scale + (scale - 1)) for f, n in LOOPS[gb] if f in want)

def cbmc_cmd(proof, gb, unwind, trace_prop=None, unwind_assert=True, scale=1):
    cmd = ['cbmc', gb, '--function', 'h_' + proof['name'], '--no-standard-checks',
           '--drop-unused-functions', '--no-malloc-may-fail',
           '--unwind', str(unwind), '--json-ui', '--object-bits', proof.get('objbits', '10')]
    cmd += CHECKS[proof['checks']]
    cmd += ['--unwinding-assertions'] if unwind_assert else ['--no-unwinding-assertions']
    us = loop_bounds(proof, gb, scale)
    if us:
        cmd += ['--unwindset', us]
    if proof.get('slice', '0') == '1':
        cmd += ['--slice-formula']
    if 'solver' in proof and proof['solver'] != 'sat':
        cmd += ['--' + proof['solver']]
    else:
        cmd += ['--sat-solver', proof.get('sat', 'cadical')]
    if trace_prop:
        cmd += ['--trace', '--property', trace_prop]
    return cmd

def dfcc_build(proof, gb, work):
    """contract instrumentation: --enforce-contract / --replace-call-with-contract /
    --apply-loop-contracts, when the proof asks for it."""
    out = os.path.join(work, '%s.%s.dfcc.gb' % (proof['unit']['name'], proof['name']))
    a = os.path.join(work, '%s.%s.fn.gb' % (proof['unit']['name'], proof['name']))
    rc, o, e, _ = run(['goto-cc', gb, '--function', 'h_' + proof['name'], '-o', a], 120)
    if rc != 0:
        return None, o + e
    cmd = ['goto-instrument', '--dfcc', 'h_' + proof['name']]
    for f in [x for x in proof.get('enforce', '').split(',') if x]:
        cmd += ['--enforce-contract', f]
    for f in [x for x in proof.get('replace', '').split(',') if x]:
        cmd += ['--replace-call-with-contract', f]
    if proof.get('loops') == '1':
        cmd += ['--apply-loop-contracts']
    if 'loopfile' in proof:
        cmd += ['--apply-loop-contracts', '--loop-contracts-file', os.path.join(os.path.dirname(proof['unit']['path']), proof['loopfile'])]
    cmd += [a, out]
    rc, o, e, to = run(cmd, 240)
    if rc != 0 or not os.path.exists(out):
        return None, (o + e)[-3000:]
    return out, ''

def parse_cbmc(o):
    res, status, err = [], None, ''
    solver = 0.0
    try:
        data = json.loads(o)
    except Exception:
        return None, 'unparsable cbmc output: ' + o[-500:], 0.0
    for m in data:
        if 'result' in m:
            res = m['result']
        if 'cProverStatus' in m:
            status = m['cProverStatus']
        if m.get('messageType') == 'ERROR':
            err += m.get('messageText', '') + '\n'
        t = m.get('messageText', '')
        mm = re.search(r'Runtime (?:decision procedure|Solver): ([0-9.e+-]+)s', t) if t else None
        if mm and 'decision' in t:
            solver += float(mm.group(1))
    if status is None:
        return None, err or 'no status', solver
    return res, err, solver

def is_unwind(r):
    return 'VF-CAPACITY' in r.get('description', '') or '.unwind.' in r['property'] or 'unwinding assertion' in r.get('description', '') or \
        'recursion unwinding' in r.get('description', '')

def is_reach(r):
    return r.get('description', '').startswith('REACH:')

def trace_inputs(res):
    vals = []
    for r in res:
        for st in r.get('trace', []):
            if st.get('stepType') == 'input' and st.get('inputID') == 'vf':
                v = st['values'][0]
                if 'binary' in v:
                    vals.append(int(v['binary'], 2))
                else:
                    vals.append(int(re.sub(r'[ul]+$', '', v.get('data', '0'))) & ((1 << 64) - 1))
    return vals

def verify(proof, gb, exe, work, tier):
    """returns a record"""
    rec = {'unit': proof['unit']['name'], 'proof': proof['name'], 'kind': proof['kind'],
           'obligations': 0, 'discharged': 0, 'reach': 0, 'reached': 0, 'status': 'undecided',
           'covers': [x for x in proof['covers'].split(',') if x], 'note': '', 'solver_s': 0.0,
           'bound': proof.get('bound', '').replace('_', ' '), 'fails': []}
    t0 = time.time()
    target = gb
    unwind = int(proof.get('tunwind', proof['unwind']) if tier == 'thorough' else proof['unwind'])
    timeout = float(proof.get('ttimeout', proof['timeout']) if tier == 'thorough' else proof['timeout'])
    if gb and ('enforce' in proof or 'replace' in proof or 'loops' in proof or 'loopfile' in proof):
        target, err = dfcc_build(proof, gb, work) if not (proof.get('loops') == '1' and proof['unit']['loopmiss']) else (None, 'loop not found')
        if target is None:
            rec['note'] = 'contract instrumentation did not apply: ' + err[-300:]
            target = None
    res = None
    if target:
        bounded_retry = False
        scale = 1
        for attempt in range(4):
            left = BUDGET - (time.time() - T0)
            if left < 20:
                rec['note'] = 'time budget used up'
                break
            rc, o, e, to = run(cbmc_cmd(proof, target, unwind, None, not bounded_retry, scale),
                               min(timeout, left), float(proof['mem']))
            if to:
                rec['note'] = 'verifier timeout'
                res = None
                break
            res, err, s = parse_cbmc(o)
            rec['solver_s'] += s
            if res is None:
                rec['note'] = 'verifier error: ' + (e[-300:] + ' ' + err[-200:])
                break
            bad = [r for r in res if r['status'] == 'FAILURE' and not is_reach(r)]
            hard = [r for r in bad if not is_unwind(r)]
            if bad and not hard and not bounded_retry:
                # loop bound no longer sufficient: raise it, then settle for bounded
                if attempt < 2:
                    unwind = unwind * 2 + 1
                    scale *= 2
                else:
                    bounded_retry = True
                    unwind = int(proof['unwind'])
                    scale = 1
                    rec['kind'] = 'bounded'
                    rec['note'] = 'loop bound not provable: bounded to %d iterations' % unwind
                continue
            break
    if res is not None:
        ob = [r for r in res if not is_reach(r)]
        rec['obligations'] = len(ob)
        rec['discharged'] = sum(1 for r in ob if r['status'] == 'SUCCESS')
        rec['reach'] = sum(1 for r in res if is_reach(r))
        rec['reached'] = sum(1 for r in res if is_reach(r) and r['status'] == 'FAILURE')
        hard = [r for r in ob if r['status'] == 'FAILURE' and not is_unwind(r)]
        if hard and 'fallback' in proof and not exe:
            rec['note'] = 'loop contract not inductive for this code'
        elif hard:
            rec['status'] = 'failed'
            hard.sort(key=lambda r: 0 if r.get('description', '').startswith('VF:') else 1)
            for r in hard[:4]:
                f = {'obligation': r['property'], 'description': r.get('description', ''),
                     'where': '%s:%s' % (r.get('sourceLocation', {}).get('file', '?'), r.get('sourceLocation', {}).get('line', '?')),
                     'inputs': None, 'replay': 'none', 'output': ''}
                left = max(30, BUDGET - (time.time() - T0))
                rc, o, e, to = run(cbmc_cmd(proof, target, unwind, r['property'], False, scale), min(timeout * 2, left), float(proof['mem']))
                if not to:
                    tres, err, s = parse_cbmc(o)
                    if tres:
                        f['inputs'] = trace_inputs(tres)
                if f['inputs'] is not None and exe:
                    rf = os.path.join(work, 'r.%s.%s.txt' % (proof['unit']['name'], proof['name']))
                    with open(rf, 'w') as fh:
                        for v in f['inputs']:
                            fh.write('in 0x%x\n' % v)
                    f['replay'], f['output'] = native_replay(exe, proof, rf)
                rec['fails'].append(f)
                if f['replay'] in ('failed', 'hang'):
                    break
        elif rec['discharged'] == rec['obligations'] and rec['obligations'] > 0:
            if rec['reach'] == 0 or rec['reached'] < rec['reach']:
                rec['status'] = 'vacuous'
                rec['note'] += ' unreached: ' + '; '.join(r['description'] for r in res if is_reach(r) and r['status'] != 'FAILURE')
            else:
                rec['status'] = 'held'
        else:
            rec['note'] += ' some obligations without an answer'
    rec['wall_s'] = round(time.time() - t0, 2)
    return rec

def counterexample_search(proof, exe, rec, work, tier):
    """look for a concrete failing input natively (real code, same contract)."""
    if not exe:
        return
    iters = int(proof['fuzz'])
    if iters == 0:
        return
    if tier == 'thorough':
        iters *= 20
    left = max(20, BUDGET + 60 - (time.time() - T0))
    cap = 120 if tier == 'thorough' else 40
    rc, txt, to, vals = native_fuzz(exe, proof, iters, SEED, work, min(cap, left))
    m = re.search(r'VF-FUZZ: iters=(\d+) skipped=(\d+) nontrivial=(\d+)', txt)
    if m:
        rec['native_runs'] = int(m.group(1)) - int(m.group(2))
        rec['native_nontrivial'] = int(m.group(3))
        return
    rf = os.path.join(work, 'f.%s.%s.txt' % (proof['unit']['name'], proof['name']))
    with open(rf, 'w') as fh:
        for v in vals:
            fh.write('in 0x%x\n' % v)
    st, out = native_replay(exe, proof, rf)
    if st in ('failed', 'hang'):
        rec['fails'].insert(0, {'obligation': 'h_%s' % proof['name'],
                                'description': (re.search(r'VF-FAILED: (.*)', out) or re.search(r'(ERROR: AddressSanitizer.*)', out) or [None, 'the call does not return' if st == 'hang' else 'crash'])[1],
                                'where': proof['unit']['name'], 'inputs': vals, 'replay': st, 'output': out})
        rec['status'] = 'failed'
    elif not to and re.search(r'VF-FAILED: |ERROR: AddressSanitizer|runtime error: ', txt):
        # the failure depends on the cases which ran before it: the search itself is the evidence
        rec['fails'].insert(0, {'obligation': 'h_%s' % proof['name'],
                                'description': (re.search(r'VF-FAILED: (.*)', txt) or re.search(r'(ERROR: AddressSanitizer.*)', txt) or [None, 'crash'])[1],
                                'where': proof['unit']['name'], 'inputs': vals, 'replay': 'failed', 'output': txt[-3000:]})
        rec['status'] = 'failed'
    else:
        rec['native_note'] = 'native search stopped (%s)' % ('time limit' if to else 'rc=%d' % rc)

def settle(proof, rec):
    """a loop contract names the loop it belongs to, so rewriting the loop can make it
    fail although the function is right: such a failure is only believed with a concrete
    failing input; otherwise the bounded companion (fallback=) decides the property."""
    if 'fallback' in proof and rec['status'] in ('failed', 'undecided') and \
            not any(f['replay'] in ('failed', 'hang') for f in rec['fails']):
        rec['note'] = ('loop contract does not carry over to this code; decided by bounded contract %s. ' % proof['fallback']) + rec['note']
        rec['status'] = 'undecided'
        rec['fails'] = []
    return rec

# ---------------------------------------------------------------- check

def load_known():
    known = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) proof=(\S+) what="([^"]*)" (.*)$', l.strip())
            if m:
                known.append({'property': m.group(1), 'proof': m.group(2), 'what': m.group(3), 'text': m.group(4)})
    return known

def check(prop, tier):
    work = tempfile.mkdtemp(prefix='vf.', dir=os.environ.get('VF_TMP', '/tmp'))
    try:
        return check_in(prop, tier, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def check_in(prop, tier, work):
    meta = json.load(open(os.path.join(ROOT, 'props', prop, 'check.json')))
    units = [parse_unit(p) for p in sorted(glob.glob(os.path.join(ROOT, 'props', prop, '*.c')))]
    extra = ['-DVF_TIER_THOROUGH=1'] if tier == 'thorough' else []
    recs, notes = [], []
    with ThreadPoolExecutor(JOBS) as ex:
        fb = {u['name']: ex.submit(build_cbmc, u, work, extra) for u in units}
        fn = {u['name']: ex.submit(build_native, u, work, extra) for u in units}
        built = {u['name']: (fb[u['name']].result(), fn[u['name']].result()) for u in units}
    todo = []
    for u in units:
        (gb, e1), (exe, e2) = built[u['name']]
        if e1:
            notes.append('%s: %s' % (u['name'], e1))
        if e2:
            notes.append('%s: %s' % (u['name'], e2))
        for p in u['proofs']:
            if p['tier'] == 'thorough' and tier != 'thorough':
                continue
            if p.get('qkind') and tier != 'thorough':
                p = dict(p, kind=p['qkind'])
            todo.append((p, gb, exe))
    todo.sort(key=lambda t: -float(t[0]['timeout']))
    first = os.environ.get('VF_FIRST')   # development: native contracts first, stop at the first failure
    stop = []
    if first:
        todo.sort(key=lambda t: t[0]['kind'] != 'native')

    def one(t):
        p, gb, exe = t
        rec = None
        if p['kind'] == 'native' or stop:
            rec = {'unit': p['unit']['name'], 'proof': p['name'], 'kind': 'native', 'obligations': 0,
                   'discharged': 0, 'reach': 0, 'reached': 0, 'status': 'held' if exe else 'undecided',
                   'covers': [x for x in p['covers'].split(',') if x], 'note': '', 'solver_s': 0.0,
                   'bound': p.get('bound', '').replace('_', ' '), 'fails': [], 'wall_s': 0}
        else:
            rec = verify(p, gb, exe, work, tier)
        if stop:
            return rec
        if not any(f['replay'] in ('failed', 'hang') for f in rec['fails']):
            counterexample_search(p, exe, rec, work, tier)
        rec = settle(p, rec)
        if first and rec['status'] == 'failed':
            stop.append(1)
        return rec
    with ThreadPoolExecutor(JOBS) as ex:
        recs = list(ex.map(one, todo))

    # verdict
    known = load_known()
    violations = 0
    lines = []
    rdir = os.path.join(OUT, 'replay', prop)
    shutil.rmtree(rdir, ignore_errors=True)
    for r in recs:
        if r['status'] != 'failed':
            continue
        f = next((x for x in r['fails'] if x['replay'] in ('failed', 'hang')), None) or r['fails'][0]
        kn = next((k for k in known if k['property'] == prop and k['proof'] == r['unit'] + '.' + r['proof'] and
                   k['what'] in f['description']), None)
        if kn:
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, kn['text']))
            continue
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s.%s.txt' % (r['unit'], r['proof']))
        with open(path, 'w') as fh:
            fh.write('property %s\nunit props/%s/%s.c\nproof %s\nobligation %s\nwhat %s\nwhere %s\nnative-replay %s\n' %
                     (prop, prop, r['unit'], r['proof'], f['obligation'], f['description'], f['where'], f['replay']))
            fh.write('# replay: python3 vf.py replay <this file>\n')
            for v in f['inputs'] or []:
                fh.write('in 0x%x\n' % v)
            for x in r['fails']:
                fh.write('# failed obligation %s: %s at %s (native replay: %s)\n' % (x['obligation'], x['description'], x['where'], x['replay']))
            fh.write('# output\n' + ''.join('# ' + l + '\n' for l in f['output'].split('\n')[:60]))
        ok = f['replay'] in ('failed', 'hang')
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, path, '' if ok else ' no-failing-input-found'))
        violations += 1

    und = [r for r in recs if r['status'] in ('undecided', 'vacuous')]
    held = [r for r in recs if r['status'] == 'held']
    prv = [r for r in recs if r['kind'] == 'proof']
    bnd = [r for r in recs if r['kind'] == 'bounded']
    nat = [r for r in recs if r['kind'] == 'native']
    assume = list(meta.get('assumptions', []))
    for u in units:
        assume += u['assume']
        assume += ['%s: cbmc sees "%s" as "%s"' % (u['name'], a, b) for a, b in u['rewrite']]
    cov = {
        'obligations': sum(r['obligations'] for r in prv),
        'discharged': sum(r['discharged'] for r in prv if r['status'] == 'held'),
        'obligations_bounded': sum(r['obligations'] for r in bnd),
        'discharged_bounded': sum(r['discharged'] for r in bnd if r['status'] == 'held'),
        'checker_cmd': 'python3 vf.py check %s --tier %s  (goto-cc; cbmc 6.11 / MiniSat unless a proof names another solver)' % (prop, tier),
        'trusted_base': [
            'cbmc 6.11.0 (C front end, symbolic execution, library models) and its SAT/SMT back end',
            'gcc preprocessor; rewrite of "auto x = <array>;" to the explicit decay "&(<array>)[0]" before goto-cc',
            'lib/vf_env.h: environment stubs (report/report_error/report_panic, task and coroutine context)',
        ] + meta.get('trusted', []),
        'functions_under_contract': sorted({c for r in prv for c in r['covers']}),
        'functions_bounded_only': sorted({c for r in bnd + nat for c in r['covers']} - {c for r in prv for c in r['covers']}),
        'solver_s': round(sum(r['solver_s'] for r in recs), 2),
        'vacuity_covers': sum(r['reach'] for r in recs),
        'vacuity_covers_reached': sum(r['reached'] for r in recs),
        'native_contract_executions': sum(r.get('native_runs', 0) for r in recs),
        'native_nontrivial': sum(r.get('native_nontrivial', 0) for r in recs),
        'contracts': [{k: r.get(k) for k in ('unit', 'proof', 'kind', 'status', 'obligations', 'discharged', 'bound', 'covers', 'note', 'solver_s', 'wall_s', 'native_runs')} for r in recs],
        'undecided': ['%s.%s: %s %s' % (r['unit'], r['proof'], r['status'], r['note']) for r in und] + notes,
    }
    if meta['level'] == 'other':
        cov['explanation'] = meta.get('explanation', '') or 'Bounded contract checks; see contracts[] for the bound of each.'
    if meta['level'] == 'model_checking':
        pass
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': meta['level'], 'coverage': cov,
          'assumptions': assume + [
              'memory allocation succeeds',
              'deferred cleanup handlers (defer/errdefer) are not executed inside cbmc runs; they are executed in native runs',
          ],
          'wall_s': round(time.time() - T0, 2), 'violations': violations}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for r in recs:
        print('%-9s %-8s %s.%s  %d/%d obligations  %.1fs %s' % (r['status'], r['kind'], r['unit'], r['proof'], r['discharged'], r['obligations'], r['wall_s'], r['note'][:600]))
    for n in notes:
        print('NOTE', n)
    for l in lines:
        print(l)
    if violations:
        return 1
    if not held and not any(r['status'] == 'failed' for r in recs):
        print('no contract could be decided')
        return 2
    return 0

# ---------------------------------------------------------------- main

def cmd_run(args):
    tier = 'quick'
    if '--thorough' in args:
        args.remove('--thorough')
        tier = 'thorough'
    unit = parse_unit(os.path.abspath(args[0]))
    names = args[1:]
    work = tempfile.mkdtemp(prefix='vf.')
    try:
        extra = ['-DVF_TIER_THOROUGH=1'] if tier == 'thorough' else []
        gb, e1 = build_cbmc(unit, work, extra)
        exe, e2 = build_native(unit, work, extra)
        print('build', e1, e2, round(time.time() - T0, 1))

        def one(p):
            if p['kind'] == 'native':
                r = {'unit': unit['name'], 'proof': p['name'], 'kind': 'native', 'obligations': 0, 'discharged': 0,
                     'status': 'held' if exe else 'undecided', 'note': '', 'fails': [], 'solver_s': 0}
            else:
                r = verify(p, gb, exe, work, tier) if gb else {'unit': unit['name'], 'proof': p['name'], 'kind': p['kind'], 'status': 'undecided', 'fails': [], 'note': ''}
            t0 = time.time()
            if not any(f['replay'] in ('failed', 'hang') for f in r['fails']):
                counterexample_search(p, exe, r, work, tier)
            r['fuzz_s'] = round(time.time() - t0, 1)
            return settle(p, r)
        ps = [p for p in unit['proofs'] if not names or p['name'] in names]
        with ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(one, ps):
                print(json.dumps({k: v for k, v in r.items() if k != 'fails'}))
                for f in r['fails']:
                    print('   FAIL', f['obligation'], '|', f['description'], '|', f['where'], '|', f['replay'], f['inputs'] and [hex(x) for x in f['inputs'][:40]])
                    if f['output']:
                        print('     ' + f['output'][:1500].replace('\n', '\n     '))
    finally:
        if not os.environ.get('VF_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print(work)

def cmd_replay(path):
    h = {}
    for l in open(path):
        m = re.match(r'(property|unit|proof) (\S+)', l)
        if m and m.group(1) not in h:
            h[m.group(1)] = m.group(2)
    unit = parse_unit(os.path.join(ROOT, h['unit']))
    work = tempfile.mkdtemp(prefix='vf.')
    try:
        exe, e = build_native(unit, work, [])
        if not exe:
            print(e)
            return 2
        st, out = native_replay(exe, {'name': h['proof']}, path)
        print(out)
        print('replay:', st)
        return 1 if st in ('failed', 'hang') else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        sys.exit(check(a[1], tier))
    elif a[0] == 'run':
        cmd_run(a[1:])
    elif a[0] == 'replay':
        sys.exit(cmd_replay(a[1]))
    elif a[0] == 'setup':
        miss = [t for t in ('gcc', 'clang', 'goto-cc', 'cbmc', 'goto-instrument') if not shutil.which(t)]
        print('missing tools: ' + ' '.join(miss) if miss else 'ok')
        sys.exit(1 if miss else 0)
