#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current tree.  See DESIGN.md, "How a check decides".

1. expands the crate's macros, extracts the functions under contract into the property's Verus units
   and lets Verus discharge every obligation;  Kani harnesses over full input domains where listed;
2. runs the real crate on generated inputs against a reference (always a short run; a long one when an
   obligation failed or could not be decided), which supplies failing inputs.
"""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
B = os.path.join(V, '.build')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true')
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER'):
    ENV.pop(k, None)

sys.path.insert(0, V)
from plan import PROPS, TRUST  # noqa: E402

VERUS = ['verus', '--triggers-mode', 'silent', '--multiple-errors', '4', '--rlimit', '40']


def sh(cmd, timeout, **kw):
    """(exit code or None on timeout, stdout, stderr)"""
    env = dict(ENV, **kw.pop('env', {}))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, start_new_session=True, errors='replace', **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


class Undecided(Exception):
    pass


def build_extractor():
    r, o, e = sh(['cargo', 'build', '-q', '--release', '--offline', '--manifest-path', f'{V}/extract/Cargo.toml', '--target-dir', f'{B}/extract'], 600)
    if r != 0:
        sys.exit(f'cannot build the extractor:\n{e}')
    return f'{B}/extract/release/vx_extract'


def expand(out):
    """the crate's source after macro expansion and cfg selection, by the compiler itself"""
    for d in glob.glob(f'{B}/expand/debug/.fingerprint/graph_safe_compare-*'):
        shutil.rmtree(d, ignore_errors=True)
    r, o, e = sh(['cargo', 'rustc', '--manifest-path', f'{REPO}/Cargo.toml', '--lib', '--offline', '--locked', '--features', 'fastrand,oorandom',
                  '--target-dir', f'{B}/expand', '--', '-Zunpretty=expanded'], 400, env={'RUSTC_BOOTSTRAP': '1'})
    if r != 0 or 'mod generic' not in o:
        raise Undecided('macro expansion failed: ' + e[-2000:])
    with open(out, 'w') as f:
        f.write(o)


def verus_errors(err, path):
    """[(message, lines it points at, is it a compiler error)] of the errors in Verus' output"""
    out = []
    for l in err.split('\n'):
        m = re.match(r'(error|warning|note)(\[E\d+\])?: (.*)', l)
        if m:
            out.append((m.group(3), [], bool(m.group(2)), m.group(1)))
            continue
        m = re.match(r' *--> .*?:(\d+):\d+', l) or re.match(r' *(\d+) +\|', l)
        if m and out:
            out[-1][1].append(int(m.group(1)))
    return [x[:3] for x in out if x[3] == 'error']


def only_recursion(res, src):
    """for C17: of what the verifier says only recursion counts, and the absence of it only where nothing may recurse"""
    said = res['detail'] + res.get('output', '')
    m = re.search(r'recursive function must have a decreases clause|UNSUPPORTED: recursive helper .*|wired to the call stack.*', said)
    if m:
        at = [int(x) for x in re.findall(r'recursive function must have a decreases clause\n *--> .*?:(\d+):', said)]
        own = owners(src)
        res.update(status='failed', failed=[f'{own.get(l)}: recursive' for l in at] or [m.group(0)], detail='; '.join([f'{own.get(l)} is recursive' for l in at] or [m.group(0)]))
    elif res['status'] == 'failed':
        res.update(status='undecided', failed=[], detail='another obligation than that nothing recurses: ' + res['detail'])
    elif res['status'] == 'ok':
        for fn in re.findall(r'// @@BEGIN.*?// @@END', src, re.S):
            head = fn.split('\n{\n')[0]
            if 'decreases' in head or 'no_decreases' in fn:
                res.update(status='undecided', detail='recursion is not excluded in ' + fn[:80])
    return res


def owners(src):
    """line -> extracted function"""
    own, cur = {}, None
    for i, l in enumerate(src.split('\n'), 1):
        if l.startswith('// @@BEGIN '):
            cur = l[11:].strip()
        own[i] = cur
        if l.startswith('// @@END'):
            cur = None
    return own


def run_unit(extractor, expanded, work, unit, defs, norec):
    res, src = verify_unit(extractor, expanded, work, unit, defs)
    return only_recursion(res, src) if norec else res


def verify_unit(extractor, expanded, work, unit, defs):
    """extract and verify one unit"""
    src = ''
    name = unit + ''.join('-' + d.replace('=', '_') for d in defs)
    rs, meta = f'{work}/{re.sub("[^A-Za-z0-9_]", "_", name)}.rs', f'{work}/{name}.json'
    res = {'unit': name, 'status': 'ok', 'verified': 0, 'errors': 0, 'functions': [], 'failed': [], 'detail': '', 'time_s': 0.0, 'probes': 0, 'vacuous': []}
    d = [x for y in defs for x in ('-D', y)]
    t0 = time.time()
    r, o, e = sh([extractor, expanded, f'{V}/units/{unit}.vu', rs, meta] + d, 60)
    if r != 0:
        res.update(status='undecided', detail='extraction: ' + (e.strip() or o.strip())[-1500:])
        return res, src
    fns = json.load(open(meta))
    res['functions'] = [f['source'] for f in fns if 'fn' in f]
    res['inlined'] = sorted({g for f in fns for g in f.get('inlined', [])})
    src = open(rs).read()
    res['assumed'] = scan(src)
    own = owners(src)
    res['cmd'] = ' '.join(VERUS + ['--output-json', '--time', os.path.basename(rs)])

    def verify(path, extra=()):
        return sh(VERUS + ['--output-json', '--time', *extra, path], 700, cwd=work)
    probe = None
    with cf.ThreadPoolExecutor(2) as ex:
        main = ex.submit(verify, rs)
        vac = rs[:-3] + '_vacuity.rs'
        r, o, e = sh([extractor, expanded, f'{V}/units/{unit}.vu', vac, meta + '.v', '-D', 'VACUITY=1'] + d, 60)
        if r == 0:
            probe = ex.submit(verify, vac)
        r, o, e = main.result()
        pr = probe.result() if probe else None
    res['time_s'] = round(time.time() - t0, 2)
    res['output'] = e[-20000:]
    if r is None:
        res.update(status='undecided', detail='the verifier ran out of time')
        return res, src
    try:
        js = json.loads(o)
        vr = js['verification-results']
        res['verified'], res['errors'] = vr.get('verified', 0), vr.get('errors', 0)
        res['smt_ms'] = js.get('times-ms', {}).get('smt', {}).get('total', js.get('times-ms', {}).get('smt', {}).get('smt-run', 0))
        res['solver'] = js.get('verus', {}).get('version', '')
    except (ValueError, KeyError):
        res.update(status='undecided', detail='no result from the verifier: ' + e[-1500:])
        return res, src
    errs = verus_errors(e, rs)
    if vr.get('encountered-vir-error') or any(x[2] for x in errs) or (not vr.get('success') and res['errors'] == 0):
        res.update(status='undecided', detail='outside what the verifier accepts: ' + e[:1500])
        return res, src
    if not vr.get('success'):
        fails = [(m, next((own[l] for l in ls if own.get(l)), None)) for m, ls, _ in errs if 'resource limit' not in m.lower() and not m.startswith('aborting')]
        res['failed'] = sorted({f'{o or "lemma"}: {m}' for m, o in fails})
        resigned = [f['fn'] for f in fns if f.get('resigned')]
        if res['failed'] and resigned:
            # a contract written for a private function with other parameters may not be what its callers rely on
            res.update(status='undecided', detail=f'the private function {", ".join(resigned)} has another signature: ' + '; '.join(res['failed']), failed=[])
        elif res['failed']:
            res.update(status='failed', detail='; '.join(res['failed']))
        else:
            res.update(status='undecided', detail='the solver gave up: ' + e[:800])
        return res, src
    if res['verified'] == 0 or not res['functions']:
        res.update(status='undecided', detail='no obligations were generated')
        return res, src
    # every contract must leave the function's start reachable: assert(false) there has to fail
    if pr and pr[0] is not None:
        vown = owners(open(vac).read())
        hit = {vown.get(l) for m, ls, _ in verus_errors(pr[2], vac) for l in ls}
        keys = [f['fn'] for f in json.load(open(meta + '.v')) if 'fn' in f and not f.get('nobody')]
        res['probes'] = len(keys)
        res['vacuous'] = [k for k in keys if k not in hit]
    if res['vacuous']:
        res.update(status='undecided', detail='vacuous contracts: ' + ', '.join(res['vacuous']))
    return res, src


def scan(src):
    """what is assumed in the verified text"""
    out = []
    for pat, what in ((r'#\[verifier::external_body\]\s*(?:pub )?(?:broadcast )?(?:proof )?(?:fn|struct) (\w+)', 'external_body'), (r'assume_specification[^\[]*\[ *([^\]]+?) *\]', 'assumed specification'),
                      (r'\b(assume)\(', 'assume'), (r'\b(admit)\(', 'admit'), (r'axiom fn (\w+)', 'axiom'), (r'exec_allows_no_decreases_clause\](?:\s*#\[[^\]]*\])*\s*(?:pub )?fn (\w+)', 'termination not shown here'),
                      (r'uninterp spec fn (\w+)', 'uninterpreted')):
        for m in re.finditer(pat, src):
            out.append(f'{what}: {m.group(1)}')
    return sorted(set(out))


def run_kani(harnesses, timeout):
    t0 = time.time()
    res = {'harnesses': harnesses, 'status': 'ok', 'checks': 0, 'failed': [], 'detail': '', 'covers': 0}
    args = [x for h in harnesses for x in ('--harness', h)]
    r, o, e = sh(['cargo', 'kani', '-j', '4', '--output-format', 'terse', '-Z', 'unstable-options', *args, '--target-dir', f'{B}/kani'], timeout, cwd=f'{V}/kani')
    res['time_s'] = round(time.time() - t0, 2)
    res['output'] = (o + e)[-12000:]
    if r is None:
        res.update(status='undecided', detail='ran out of time')
        return res
    m = re.search(r'Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total', o)
    if not m:
        res.update(status='undecided', detail='no result: ' + (o + e)[-1500:])
        return res
    res['checks'] = sum(int(x) for x in re.findall(r'\*\* \d+ of (\d+) failed', o))
    res['failed'] = re.findall(r'Verification failed for - (\S+)', o)
    cov = re.findall(r'\*\* (\d+) of (\d+) cover properties satisfied', o)
    res['covers'] = sum(int(a) for a, _ in cov)
    if res['failed']:
        res.update(status='failed', detail='; '.join(res['failed']) + ': ' + '; '.join(sorted(set(re.findall(r'Failed Checks: (.*)', o)))))
    elif int(m.group(1)) < len(harnesses):
        res.update(status='undecided', detail='a harness was not found')
    elif any(a != b for a, b in cov):
        res.update(status='undecided', detail='a cover property is unreachable')
    return res


def build_oracle(prof='release'):
    """C17 looks at the stack in the development profile, in which no frame is optimised away"""
    r, o, e = sh(['cargo', 'build', '-q', '--profile', prof, '--offline', '--manifest-path', f'{V}/oracle/Cargo.toml', '--target-dir', f'{B}/oracle'], 600)
    return (f'{B}/oracle/{prof if prof == "release" else "debug"}/oracle', '') if r == 0 else (None, e[-1500:])


def run_oracle(exe, prop, seed, secs, work):
    case = f'{work}/case-{prop}-{seed}'
    r, o, e = sh([exe, prop, str(seed), str(secs), case], secs + 240)
    last = o.strip().split('\n')[-1] if o.strip() else ''
    if r == 0 and last.startswith('OK\t'):
        return {'seed': seed, 'found': None, **json.loads(last[3:])}
    if r == 1 and '\t' in last:
        kind, case, what = (last.split('\t') + ['', ''])[:3]
        return {'seed': seed, 'found': f'input: {case}\nobserved: {what}'}
    if r is None:
        return {'seed': seed, 'found': None, 'evaluations': 0, 'distinct': 0, 'nontrivial': 0, 'samples': [], 'note': 'ran out of time'}
    cur = open(case).read() if os.path.exists(case) else ''
    if r is not None and r < 0 and r != -9:  # died by a signal: stack overflow or the like
        return {'seed': seed, 'found': f'input: {cur}\nobserved: the process died by signal {-r}'}
    return {'seed': seed, 'found': None, 'evaluations': 0, 'distinct': 0, 'nontrivial': 0, 'samples': [], 'note': f'oracle ended with {r}: {(o + e)[-500:]}'}


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = PROPS[prop]
    os.makedirs(B, exist_ok=True)
    os.makedirs(f'{V}/evidence', exist_ok=True)
    os.makedirs(f'{V}/replays', exist_ok=True)
    work = f'{B}/work-{prop}-{os.getpid()}'
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        code = decide(prop, tier, seed, t0, P, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, t0, P, work):
    units = [(u, list(d)) for u, *d in P.get('units', [])]
    kani = P.get('kani', [])
    short = P.get('search_s', 12) if tier == 'quick' else 90
    lock = open(f'{B}/lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    ures, kres, ores, note = [], None, [], []
    with cf.ThreadPoolExecutor(4) as ex:
        fo = ex.submit(build_oracle, P.get('profile', 'release'))
        fx = ex.submit(build_extractor) if units else None
        expanded = f'{work}/expanded.rs'
        try:
            fe = ex.submit(expand, expanded) if units else None
            extractor = fx.result() if fx else None
            if fe:
                fe.result()
        except Undecided as x:
            note.append(str(x))
            ures = [{'unit': u, 'status': 'undecided', 'detail': str(x), 'verified': 0, 'errors': 0, 'functions': [], 'failed': [], 'time_s': 0, 'probes': 0, 'vacuous': [], 'assumed': []} for u, _ in units]
        exe, oerr = fo.result()
    fcntl.flock(lock, fcntl.LOCK_UN)
    if not exe and any('macro expansion failed' in n for n in note):
        print('the crate does not build:\n' + oerr)
        return 2
    with cf.ThreadPoolExecutor(4) as ex:
        fk = ex.submit(run_kani, kani, 600) if kani else None
        fs = ex.submit(run_oracle, exe, prop, seed, short, work) if exe else None
        if not ures:
            futs = [ex.submit(run_unit, extractor, expanded, work, u, d, P.get('no_recursion')) for u, d in units]
            ures = [f.result() for f in futs]
        kres = fk.result() if fk else None
        if fs:
            ores.append(fs.result())
    parts = ures + ([kres] if kres else [])
    failed = [p for p in parts if p['status'] == 'failed']
    undecided = [p for p in parts if p['status'] == 'undecided']
    found = next((o['found'] for o in ores if o['found']), None)
    if not found and (failed or undecided or tier == 'thorough') and exe:
        secs = 100 if tier == 'quick' else 240
        if failed or undecided:
            with cf.ThreadPoolExecutor(5) as ex:
                more = list(ex.map(lambda k: run_oracle(exe, prop, seed * 1000 + k, secs, work), range(5)))
            ores += more
            found = next((o['found'] for o in more if o['found']), None)
    for l in known():
        print(l) if f'property={prop} ' in l and l.startswith('KNOWN-FINDING') else None
    viol = 0
    if found or failed:
        text = f'property {prop}: {P["title"]}\n'
        if found:
            text += f'\nfailing input, on the real crate (rerun: {exe} {prop} <seed> <seconds> /tmp/case; seeds tried {[o["seed"] for o in ores]}):\n{found}\n'
        for p in failed:
            text += f'\nfailed obligations ({p.get("unit", "kani")}):\n{p["detail"]}\n\n{p.get("output", "")}\n'
        if not found:
            text += '\nThe search on the real crate found no failing input.\n'
        path = f'{V}/replays/{prop}-{hashlib.sha1(text.encode()).hexdigest()[:10]}.txt'
        with open(path, 'w') as f:
            f.write(text)
        for p in failed:
            print(f'failed obligation: {p.get("unit", "kani")}: {p["detail"]}')
        if found:
            print(found)
        print(f'VIOLATION property={prop} replay={path}' + ('' if found else ' no-failing-input-found'))
        viol = 1
    for p in undecided:
        print(f'not decided by proof: {p.get("unit", "kani")}: {p["detail"][:600]}')
    evidence(prop, tier, seed, t0, P, ures, kres, ores, undecided, viol, oerr)
    if not viol:
        n = sum(p['verified'] for p in ures) + (kres['checks'] if kres else 0)
        print(f'{prop} holds: {n} obligations discharged' + (' (UNDECIDED parts fell back to the bounded search)' if undecided else '') + f', {sum(o.get("evaluations", 0) for o in ores)} runs of the real crate agree')
    return viol


def known():
    p = f'{V}/known_findings.txt'
    return [l.strip() for l in open(p)] if os.path.exists(p) else []


def evidence(prop, tier, seed, t0, P, ures, kres, ores, undecided, viol, oerr):
    obl = sum(p['verified'] + p['errors'] for p in ures) + (kres['checks'] if kres else 0)
    dis = sum(p['verified'] for p in ures) + ((kres['checks'] - len(kres['failed'])) if kres else 0)
    fns = sorted({f for p in ures for f in p['functions']})
    assumed = sorted({a for p in ures for a in p.get('assumed', [])})
    cov = {
        'obligations': obl, 'discharged': dis,
        'checker_cmd': '; '.join([p.get('cmd', '') for p in ures if p.get('cmd')] + (['cargo kani --harness ' + ' --harness '.join(kres['harnesses'])] if kres else [])),
        'trusted_base': TRUST + P.get('trust', []),
        'functions_under_contract': fns,
        'units': [{k: p.get(k) for k in ('unit', 'status', 'verified', 'errors', 'time_s', 'smt_ms', 'probes', 'detail')} for p in ures],
        'assumed_in_units': assumed,
        'inlined_helpers': sorted({g for p in ures for g in p.get('inlined', [])}),
        'evaluations': sum(o.get('evaluations', 0) for o in ores),
        'distinct_nontrivial': sum(min(o.get('nontrivial', 0), o.get('distinct', 0)) for o in ores),
        'rule': 'inputs generated from the seed, run on the real crate and compared with a reference (oracle/src); non-trivial: more than the roots is compared',
        'samples': [s for o in ores for s in o.get('samples', [])][:3],
        'back_ends': {'verus/z3': sum(p['verified'] for p in ures), 'kani/cbmc (loop-free, full input domain)': kres['checks'] if kres else 0},
    }
    if kres:
        cov['kani'] = {k: kres[k] for k in ('harnesses', 'status', 'checks', 'covers', 'time_s', 'detail') if k in kres}
    if undecided:
        cov['undecided'] = [f'{p.get("unit", "kani")}: {p["detail"][:500]}' for p in undecided]
        cov['explanation'] = 'the parts listed under undecided were NOT proved on this tree; only the bounded search stands in for them'
    if oerr:
        cov['search_not_run'] = oerr
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof' if not undecided else 'exploration', 'coverage': cov,
          'assumptions': P.get('assume', []), 'wall_s': round(time.time() - t0, 2), 'violations': viol}
    tmp = f'{V}/evidence/{prop}.json.tmp'
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, f'{V}/evidence/{prop}.json')


if __name__ == '__main__':
    main()
