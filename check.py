#!/usr/bin/env python3
"""Decides one property: ./check <property> quick|thorough   (see DESIGN.md)

1. proof      the units named below are regenerated from /repo's source by vx and handed to Verus;
2. falsifier  the real crate is searched for an input that breaks the property (replay file if there is one);
3. verdict    failing input -> VIOLATION; failed obligation without one -> VIOLATION ... no-failing-input-found;
              a function that left the verifier's reach -> the bounded search alone, labelled so in the evidence.
"""
import fcntl, glob, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
TARGET = os.path.join(V, 'target')
VX = os.path.join(TARGET, 'release', 'vx')
FALSIFY = os.path.join(TARGET, 'h', 'debug', 'falsify')
WORK = os.path.join(V, 'work')
CFG = json.load(open(os.path.join(V, 'checks.json')))
VERIF_MSGS = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
              'possible arithmetic', 'possible division', 'decreases not satisfied', 'could not prove termination', 'recommendation not met',
              'loop must have a decreases', 'possible truncation', 'requires not satisfied', 'index out of bounds', 'assertion not satisfied', 'failed this')
LIMIT_MSGS = ('resource limit', 'rlimit', 'timed out')


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def cargo(dir_, target, *extra):
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true')
    for k in ('RUSTFLAGS', 'RUSTUP_TOOLCHAIN'):
        env.pop(k, None)
    return sh(['cargo', 'build', '--offline', '--quiet'] + list(extra), cwd=os.path.join(V, dir_), env=env)


def build(log):
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(WORK, exist_ok=True)
    res = {}
    with open(os.path.join(TARGET, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        def a(): res['vx'] = cargo('vx', TARGET, '--release')
        def b(): res['h'] = cargo('harness', os.path.join(TARGET, 'h'))
        ts = [threading.Thread(target=f) for f in (a, b)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    if res['vx'].returncode:
        print('cannot build vx\n' + res['vx'].stderr[-2000:], file=sys.stderr)
        sys.exit(3)
    if res['h'].returncode:
        log.append('the search harness does not build against this tree: ' + res['h'].stderr[-600:])
        return False
    return True


# ------------------------------------------------------------------ proof
def verus(src, timeout, extra=()):
    """-> (results or None, diagnostics, exit code)"""
    try:
        p = sh(['verus', src, '--error-format=json', '--output-json', '--time-expanded', '--multiple-errors', '40'] + list(extra), timeout=timeout, cwd=WORK)
    except subprocess.TimeoutExpired:
        return None, [{'message': 'timed out', 'spans': [], 'rendered': 'timed out', 'level': 'error'}], 124
    diags = []
    for l in p.stderr.splitlines():
        if l.startswith('{'):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('level') in ('error', 'error: internal compiler error') and not d.get('message', '').startswith('aborting due'):
                diags.append(d)
        elif 'panicked' in l:
            diags.append({'message': 'internal error: ' + l, 'spans': [], 'rendered': l, 'level': 'error'})
    try:
        i = p.stdout.index('{')
        res = json.loads(p.stdout[i:])
    except ValueError:
        res = None
    return res, diags, p.returncode


def gen(unit, out, *extra):
    base = os.path.join(V, 'units', unit + '.base.json')
    a = [VX, 'gen', REPO, os.path.join(V, 'units', unit + '.vrs'), out] + (['--baseline', base] if os.path.exists(base) else []) + list(extra)
    p = sh(a)
    try:
        return json.loads(p.stdout)
    except ValueError:
        return {'status': 'lost', 'reason': 'vx failed: ' + (p.stderr or p.stdout)[-500:]}


def region(fns, line):
    for f in fns:
        if f['begin'] <= line <= f['end']:
            return f
    return None


def kind(d):
    m = d['message'].lower()
    if any(x in m for x in LIMIT_MSGS):
        return 'limit'
    if any(x in m for x in VERIF_MSGS):
        return 'verif'
    return 'compile'


def trusted(src):
    out, doc = [], []
    lines = open(src).read().split('\n')
    for i, l in enumerate(lines):
        t = l.strip()
        if t.startswith('///'):
            doc.append(t[3:].strip())
            continue
        hit = 'external_body' in t or re.search(r'\b(uninterp|axiom fn|assume_specification|admit\(|assume\()', t)
        if hit:
            j = i
            sig = t
            if 'external_body' in t:
                for j in range(i, min(i + 6, len(lines))):
                    if re.search(r'\b(fn|struct|enum)\b', lines[j]):
                        break
                sig = lines[j].strip()
            out.append((' '.join(doc) + ': ' if doc else '') + re.sub(r'\s+', ' ', re.sub(r'\{ *unimplemented.*', '', sig))[:200])
        if not t.startswith('#['):
            doc = []
    return list(dict.fromkeys(out))


def prove(unit, tier, pid):
    t0 = time.time()
    src = os.path.join(WORK, '%s-%s.rs' % (unit, pid))
    stubs, stub_why = set(), {}
    r = {'unit': unit, 'state': 'lost', 'reason': '', 'functions': [], 'errors': [], 'lost': {}, 'smt_ms': 0, 'queries': 0, 'trusted': [], 'vacuity': {}}
    deadline = t0 + (700 if tier == 'thorough' else 400)
    limit = 420 if tier == 'thorough' else 240
    g = None
    for _ in range(8):
        g = gen(unit, src, *(['--stub', ';'.join(sorted(stubs))] if stubs else []))
        if g['status'] != 'ok':
            r['reason'] = g['reason']
            return r
        left = deadline - time.time()
        if left < 10:
            r['reason'] = 'out of time'
            return r
        res, diags, code = verus(src, min(limit, left), ['--rlimit', '60'] if tier == 'thorough' else ['--rlimit', '30'])
        comp = [d for d in diags if kind(d) == 'compile']
        lim = [d for d in diags if kind(d) == 'limit']
        new = set()
        for d in comp + lim:
            for s in d['spans']:
                f = region(g['fns'], s['line_start'])
                if f and f['key'] not in stubs:
                    new.add(f['key'])
                    stub_why[f['key']] = d['message'].split('\n')[0][:300]
                    break
        # not proved without the annotations that have no place any more: lost, not failed
        for d in diags:
            for s in sorted(d['spans'], key=lambda s: not s.get('is_primary')):
                f = region(g['fns'], s['line_start'])
                if f and f.get('thin'):
                    new.add(f['key'])
                    stub_why.setdefault(f['key'], f['thin'][0][:300])
        if not comp and not lim and not new:
            break
        if not new:
            r['reason'] = 'the generated unit is not accepted: ' + (comp + lim)[0]['message'][:400]
            return r
        stubs |= new
    else:
        r['reason'] = 'the generated unit is not accepted'
        return r
    if res is None or (code != 0 and not diags):
        r['reason'] = 'the verifier gave no result (exit code %d)' % code
        return r
    lines = open(src).read().split('\n')
    fns = {f['key']: f for f in g['fns']}
    for k, f in fns.items():
        if f.get('stub'):
            r['lost'][k] = stub_why.get(k, f['stub'])
    changed = any(f.get('changed') or f.get('sig_changed') for f in g['fns'])
    for d in diags:
        at = [s for s in d['spans']]
        f = None
        for s in sorted(at, key=lambda s: not s.get('is_primary')):
            f = f or region(g['fns'], s['line_start'])
        tags = set()
        for s in at:
            if s['file_name'].endswith(os.path.basename(src)):
                for k in range(s['line_start'], s['line_end'] + 1):
                    m = re.search(r'//\s*\[((?:P\d+[ ,]*)+)\]', lines[k - 1]) if k <= len(lines) else None
                    if m and 'failed' in (s.get('label') or ''):
                        tags |= set(re.findall(r'P\d+', m.group(1)))
        r['errors'].append({'function': f['key'] if f else None, 'message': d['message'].split('\n')[0], 'tags': sorted(tags), 'rendered': d.get('rendered', '')[:3000],
                            'changed': bool(f and (f.get('changed') or f.get('sig_changed')))})
    if r['errors'] and not changed:
        r['reason'] = 'the solver did not repeat its proof of the recorded source: ' + r['errors'][0]['message']
        r['errors'] = []
        return r
    # one entry per function that went to the solver
    try:
        for m in res['times-ms']['smt']['smt-run-module-times']:
            for fb in m['function-breakdown']:
                r['queries'] += 1
                r['functions'].append({'function': fb['function'], 'mode': fb.get('mode:', ''), 'ms': fb['time'], 'ok': fb['success']})
        r['smt_ms'] = res['times-ms']['smt']['total']
    except KeyError:
        pass
    r['verified'] = res['verification-results'].get('verified', 0)
    r['failed'] = res['verification-results'].get('errors', 0)
    r['contract'] = [k for k, f in fns.items() if not f.get('item') and not f.get('stub')]
    r['items'] = [k[5:] for k, f in fns.items() if f.get('item')]
    r['changed'] = [k for k, f in fns.items() if f.get('changed')]
    r['trusted'] = trusted(src)
    r['state'] = 'failed' if r['errors'] else 'proved'
    # vacuity: with `assert(false)` put at the entry / in the loops, every function has to fail
    if r['state'] == 'proved':
        for mode in ('entry', 'loop'):
            left = deadline + 60 - time.time()
            if left < 20:
                break
            vs = src[:-3] + '-' + mode + '.rs'
            vg = gen(unit, vs, '--vacuity', mode, *(['--stub', ';'.join(sorted(stubs))] if stubs else []))
            vres, vd, vcode = verus(vs, min(limit, left))
            if vcode == 124:
                break
            hit = {}
            for d in vd:
                if d['message'].startswith('assertion failed'):
                    for s in d['spans']:
                        f = region(vg['fns'], s['line_start'])
                        if f:
                            hit[f['key']] = hit.get(f['key'], 0) + 1
                            break
            want = {f['key']: (1 if mode == 'entry' else f['loops']) for f in vg['fns'] if not f.get('item') and not f.get('stub')}
            miss = [k for k, n in want.items() if hit.get(k, 0) < n and k not in CFG.get('vacuity_exempt', {}).get(mode, {})]
            r['vacuity'][mode] = {'expected_failures': sum(want.values()), 'seen': sum(hit.values()), 'missing': miss}
    r['wall'] = time.time() - t0
    return r


# ------------------------------------------------------------------ falsifier
def falsify(pid, secs, seed, log):
    lits = os.path.join(WORK, 'lits-%s.json' % pid)
    open(lits, 'w').write(sh([VX, 'literals', REPO]).stdout)
    out = os.path.join(WORK, 'falsify-%s.json' % pid)
    if os.path.exists(out):
        os.unlink(out)
    def run(extra_env, s):
        try:
            return subprocess.run([FALSIFY, pid, str(s), str(seed), lits, out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=s + 90, env=dict(os.environ, **extra_env), cwd=WORK).returncode
        except subprocess.TimeoutExpired:
            return -1
    rc = run({}, secs)
    if os.path.exists(out):
        return json.load(open(out))
    # the process died (stack overflow, abort): find the case it died on
    tr = os.path.join(WORK, 'trace-' + pid)
    for f in glob.glob(tr + '.*'):
        os.unlink(f)
    for n in (8, 1):
        rc = run({'FALSIFY_TRACE': tr, 'FALSIFY_THREADS': str(n)}, secs)
        for f in sorted(glob.glob(tr + '.*')):
            try:
                case = json.load(open(f))
            except ValueError:
                continue
            rp = os.path.join(WORK, 'suspect-%s.json' % pid)
            json.dump(case, open(rp, 'w'))
            try:
                q = subprocess.run([FALSIFY, '--replay', rp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode
            except subprocess.TimeoutExpired:
                q = -1
            if q not in (0,):
                return {'property': pid, 'evaluations': 1, 'distinct': 1, 'samples': [], 'rule': '', 'violation': {'case': case['case'], 'message': 'the process died (exit code %s)' % q}}
    log.append('the search ended with code %s and no result' % rc)
    return None


# ------------------------------------------------------------------ verdict
def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    cfg = CFG['properties'][pid]
    log = []
    have_h = build(log)
    os.makedirs(os.path.join(V, 'evidence', 'replay'), exist_ok=True)
    proofs = {}
    secs = (300 if tier == 'thorough' else cfg.get('quick_s', 15))
    box = {}
    if have_h:
        th = threading.Thread(target=lambda: box.update(f=falsify(pid, secs, seed, log)))
        th.start()
    pt = [threading.Thread(target=lambda u=u: proofs.update({u: prove(u, tier, pid)})) for u in cfg['units']]
    [t.start() for t in pt]
    [t.join() for t in pt]
    if have_h:
        th.join()
    f = box.get('f')

    def mine(k):
        return k is None or any(re.search(x, k) for x in cfg.get('functions', ['.']))
    failed, lost, proved = [], {}, []
    for u in cfg['units']:
        r = proofs[u]
        if r['state'] == 'lost':
            lost['unit ' + u] = r['reason']
            continue
        for k, why in r['lost'].items():
            if mine(k):
                lost[k] = why
        for e in r['errors']:
            if u in cfg.get('tagged', []) and not e['tags']:
                # may belong to another property of this function: not a verdict about this one
                if mine(e['function']):
                    lost[e['function'] or u] = e['message']
                continue
            if mine(e['function']) and (not e['tags'] or pid in e['tags']):
                failed.append(dict(e, unit=u))
        proved += [k for k in r['contract'] if mine(k) and not any(e['function'] == k for e in r['errors'])]
    # lost or failed: the bounded search has to carry more
    if have_h and (failed or lost) and not (f and f.get('violation')) and tier == 'quick':
        g = falsify(pid, 90, seed + 7, log)
        if g:
            if f:
                g['evaluations'] += f['evaluations']
            f = g
    vio = f.get('violation') if f else None
    known = [k for k in CFG.get('known', []) if k['property'] == pid]
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if vio and any(re.search(k['match'], json.dumps(vio)) for k in known):
        vio = None
    replay = os.path.join(V, 'evidence', 'replay', pid + '.json')
    if os.path.exists(replay):
        os.unlink(replay)
    verdict = 'held'
    if vio:
        json.dump({'property': pid, 'case': vio['case'], 'message': vio['message'], 'how': 'target/h/debug/falsify --replay <this file> (after building /verif/harness)',
                   'failed_obligations': failed}, open(replay, 'w'), indent=1)
        verdict = 'violated'
    elif failed:
        json.dump({'property': pid, 'case': None, 'failed_obligations': failed, 'note': 'the verifier gives no counterexample; the search found no failing input'}, open(replay, 'w'), indent=1)
        verdict = 'violated'

    # evidence
    obl = sum(len([x for x in proofs[u]['functions']]) for u in cfg['units'])
    dis = sum(len([x for x in proofs[u]['functions'] if x['ok']]) for u in cfg['units'])
    vac_bad = [m for u in cfg['units'] for v in proofs[u]['vacuity'].values() for m in v['missing']]
    level = cfg.get('level', 'proof')
    if lost and level == 'proof':
        level = 'exploration'
    cov = {
        'obligations': obl, 'discharged': dis,
        'checker_cmd': 'vx gen /repo units/<unit>.vrs && verus (Z3 back end, no bound)', 'units': cfg['units'],
        'functions_under_contract': sorted(set(proved)),
        'outside_the_verifier_on_this_tree (bounded search only)': lost,
        'bounded_stand_ins': cfg.get('bounded', []),
        'failed_obligations': [{'function': e['function'], 'message': e['message']} for e in failed],
        'backend': 'Verus 0.2026.09.13 / Z3', 'solver_ms': {u: proofs[u]['smt_ms'] for u in cfg['units']},
        'slowest_queries': sorted(([x['function'], x['ms']] for u in cfg['units'] for x in proofs[u]['functions']), key=lambda x: -x[1])[:5],
        'vacuity_guards': {u: proofs[u]['vacuity'] for u in cfg['units']},
        'trusted_base': sorted(set(t for u in cfg['units'] for t in proofs[u]['trusted'])) + CFG['trusted_always'],
        'evaluations': f['evaluations'] if f else 0, 'distinct_nontrivial': f['distinct'] if f else 0, 'rule': f['rule'] if f else '', 'samples': f['samples'] if f else [],
        'small_scope_enumeration_finished': bool(f and f.get('small_scope_finished')),
        'extraction_drops': CFG['extraction'], 'log': log,
    }
    if level == 'other':
        cov['explanation'] = cfg.get('explanation', '')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': CFG['assumptions_always'] + cfg.get('assumptions', []),
          'wall_s': round(time.time() - t0, 1), 'violations': 0 if verdict == 'held' else 1}
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)

    print('%s: %d/%d solver obligations in %s, %d functions under contract, %d lost, search: %s cases; %.0f s' % (
        pid, dis, obl, ','.join(cfg['units']) or '-', len(set(proved)), len(lost), f['evaluations'] if f else 'no', time.time() - t0))
    for k, why in lost.items():
        print('  not provable as written now, searched only: %s (%s)' % (k, why[:200]))
    if vac_bad:
        print('  vacuous contract: ' + ', '.join(vac_bad))
    if verdict == 'violated':
        if vio:
            print('  ' + vio['message'][:600])
            print('VIOLATION property=%s replay=%s' % (pid, replay))
        else:
            for e in failed:
                print('  failed obligation in %s: %s' % (e['function'], e['message']))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
        sys.exit(1)
    if vac_bad:
        sys.exit(3)
    sys.exit(0)


main()
