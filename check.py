#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current working tree.

1. Every unit of contracts/<property>.py: the real functions are parsed from /repo now, and all obligations
   (pre/post/invariant/frame) are sent to z3, then cvc5.
2. Meanwhile the same contracts, in executable form (concrete/<property>.py), are evaluated on the real code on
   generated inputs: this is the replay side (it looks for an input showing a failed obligation on the real code)
   and the labelled bounded stand-in for functions the verifier could not decide.
Exit 0: nothing failed.  Exit 1 + VIOLATION line: a contract fails on the real code (replay = the input), or the
solver refuted an obligation (replay = obligation + solver output, line ends with no-failing-input-found)."""
import sys, os, json, time, subprocess, tempfile, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
VT = 'python3-vt'
RUNPY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', MPLBACKEND='Agg',
           MPLCONFIGDIR='/opt/venv/mplconfig')


def list_units(prop):
    r = subprocess.run([VT, '-c', "import sys,json;sys.path.insert(0,%r);import importlib\n"
                        "try:\n importlib.import_module('contracts.%s')\nexcept ModuleNotFoundError as e:\n"
                        " if 'contracts' not in str(e): raise\n"
                        "from pyded.verify import REG\n"
                        "print(json.dumps([[u.name,u.budget,u.targets,u.doc,u.tier] for u in REG.get('%s',[])]))" % (HERE, prop, prop)],
                       capture_output=True, text=True, env=ENV)
    if r.returncode:
        print(r.stderr)
        sys.exit(3)
    return json.loads(r.stdout.strip().split('\n')[-1])


def concrete(prop, seconds, seed, out, extra=()):
    return subprocess.Popen([RUNPY, os.path.join(HERE, 'concrete', 'run.py'), prop, str(seconds), str(seed), out] + list(extra),
                            env=ENV, stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'), start_new_session=True)


def finish(p, timeout):
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()


def run_units(prop, units, tmp, tier, total):
    t0 = time.time()
    pend, running, res = list(units), [], {}
    pend.sort(key=lambda u: -u[1])
    while pend or running:
        while pend and len(running) < 7:
            u = pend.pop(0)
            o = os.path.join(tmp, 'u_%s.json' % u[0])
            p = subprocess.Popen([VT, os.path.join(HERE, 'unit_worker.py'), prop, u[0], o, tier], env=ENV,
                                 stdout=subprocess.DEVNULL, stderr=open(o + '.err', 'w'), start_new_session=True)
            running.append((u, p, o, time.time()))
        still = []
        for u, p, o, ts in running:
            lim = min(u[1] * (3 if tier == 'thorough' else 1) + 40, max(20, total - (time.time() - t0) + (time.time() - ts)))
            if p.poll() is None and time.time() - ts > lim:
                finish(p, 0)
            if p.poll() is None:
                still.append((u, p, o, ts))
                continue
            if os.path.exists(o):
                with open(o) as f:
                    res[u[0]] = json.load(f)
            else:
                err = open(o + '.err').read()[-400:]
                res[u[0]] = {'unit': u[0], 'functions': u[2], 'doc': u[3], 'status': 'undecided', 'obligations': [], 'inlined': [],
                             'assumed': [], 'solver_s': 0, 'queries': 0, 'wall_s': round(time.time() - ts, 1),
                             'error': 'no result (time limit or crash) ' + err}
        running = still
        time.sleep(0.05)
    return [res[u[0]] for u in units]


def load(o):
    try:
        with open(o) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    budget_search = {'quick': 25, 'thorough': 240}[tier]
    budget_proof = {'quick': 420, 'thorough': 2400}[tier]
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    try:
        cp = concrete(prop, budget_search, seed, os.path.join(tmp, 'c.json'))
        units = [u for u in list_units(prop) if tier == 'thorough' or u[4] == 'quick']
        results = run_units(prop, units, tmp, tier, budget_proof)
        finish(cp, budget_search + 90)
        conc = load(os.path.join(tmp, 'c.json'))
        if conc is None:
            conc = {'violations': [], 'checks': {}, 'skipped': [], 'known': [], 'error': 'search produced no result: ' +
                    open(os.path.join(tmp, 'c.json.err')).read()[-1500:]}
        refuted = [r for r in results if r['status'] == 'refuted']
        if refuted and not conc['violations'] and tier == 'quick':
            # an obligation failed: look harder for an input that shows it on the real code
            procs = [concrete(prop, 60, seed + 1000 + k, os.path.join(tmp, 'x%d.json' % k)) for k in range(6)]
            for k, p in enumerate(procs):
                finish(p, 120)
                c2 = load(os.path.join(tmp, 'x%d.json' % k))
                if c2:
                    conc['violations'] += c2['violations']
                    for n, m in c2['checks'].items():
                        conc['checks'].setdefault(n, {'evaluations': 0, 'nontrivial': 0})
                        conc['checks'][n]['evaluations'] += m['evaluations']
                        conc['checks'][n]['nontrivial'] += m['nontrivial']
        code = decide(prop, tier, seed, results, conc, refuted, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, results, conc, refuted, t0):
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    kset = {(k['property'], k['key']): k for k in known.get('findings', [])}
    lines, viol = [], []
    seen = set()
    for v in conc['violations']:
        k = kset.get((prop, v.get('key')))
        if k:
            if v['key'] not in seen:
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
                seen.add(v['key'])
            continue
        viol.append(v)
    code = 0
    if viol:
        v = viol[0]
        path = os.path.join(HERE, 'replay', '%s-input.json' % prop)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'kind': 'input', 'violations': viol[:5],
                       'failed_obligations': [o for r in refuted for o in r['obligations'] if o['status'] == 'refuted'][:5],
                       'replay_cmd': '%s %s/concrete/run.py %s --replay %s' % (RUNPY, HERE, prop, path)}, f, indent=1, default=str)
        print('contract violated on the real code: %s: %s' % (v['check'], v['message'][:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        code = 1
    elif refuted:
        path = os.path.join(HERE, 'replay', '%s-obligation.json' % prop)
        obs = [dict(o, unit=r['unit'], functions=r['functions']) for r in refuted for o in r['obligations'] if o['status'] == 'refuted']
        with open(path, 'w') as f:
            json.dump({'property': prop, 'kind': 'obligation', 'failed_obligations': obs,
                       'search': {n: m for n, m in conc['checks'].items()}}, f, indent=1, default=str)
        for o in obs[:5]:
            print('obligation refuted by the solver: [%s] %s (%s)' % (o['unit'], o['name'], ', '.join(o['functions'])))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        code = 1
    nob = sum(len(r['obligations']) for r in results)
    nok = sum(1 for r in results for o in r['obligations'] if o['status'] == 'proved' and r['status'] == 'proved')
    und = [r for r in results if r['status'] == 'undecided']
    ok = [r for r in results if r['status'] == 'proved']
    for r in und:
        print('undecided (bounded stand-in only): %s: %s' % (r['unit'], (r['error'] or '')[:300]))
    if conc.get('error'):
        print('search problem:', conc['error'][-600:])
    ev_total = sum(m['evaluations'] for m in conc['checks'].values())
    nt_total = sum(m['nontrivial'] for m in conc['checks'].values())
    meta = load(os.path.join(HERE, 'contracts', 'meta.json')) or {}
    assumptions = sorted({a for r in results for a in r['assumed']} | set(meta.get('all', [])) | set(meta.get(prop, [])))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': nob, 'discharged': nok,
            'checker_cmd': 'python3-vt %s/unit_worker.py %s <unit> out.json' % (HERE, prop),
            'trusted_base': ['/verif/pyded (extraction + verification-condition generator)', 'z3 (python3-vt binding)', 'cvc5 1.1.2 binary',
                             'the contracts in /verif/contracts/%s.py state the property' % prop],
            'functions_under_contract': sorted({f for r in ok for f in r['functions']}),
            'functions_inlined_from_source': sorted({f for r in ok for f in r['inlined']}),
            'back_ends': count_backends(ok), 'solver_seconds': round(sum(r['solver_s'] for r in results), 2),
            'solver_queries': sum(r['queries'] for r in results),
            'units': [{'unit': r['unit'], 'functions': r['functions'], 'status': r['status'], 'contract': r['doc'],
                       'obligations': len(r['obligations']), 'proved': sum(o['status'] == 'proved' for o in r['obligations']),
                       'loop_invariants': r.get('invariants', []), 'return_paths': r.get('return_paths'), 'wall_s': r['wall_s'],
                       'error': r['error']} for r in results],
            'bounded_standins': [{'unit': r['unit'], 'functions': r['functions'], 'why': r['error'],
                                  'bound': 'generated inputs only, see runtime_contracts'} for r in und],
            'runtime_contracts': {'rule': 'contracts evaluated on the real code on generated inputs; bounded, never counted as proved',
                                  'evaluations': ev_total, 'distinct_nontrivial': nt_total, 'checks': conc['checks'],
                                  'skipped': conc['skipped'], 'samples': conc.get('samples', [])[:6]},
        },
        'assumptions': assumptions,
        'violations': len(viol) + (0 if viol else len(refuted)),
        'violation_messages': [v['message'][:400] for v in viol] + ([o['name'] for r in refuted for o in r['obligations'] if o['status'] == 'refuted'] if not viol else []),
        'wall_s': round(time.time() - t0, 2),
    }
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d/%d units proved, %d/%d obligations discharged, %d runtime evaluations, %.1fs' % (
        prop, len(ok), len(results), nok, nob, ev_total, time.time() - t0))
    return code


def count_backends(rs):
    c = {}
    for r in rs:
        for o in r['obligations']:
            c[o['backend']] = c.get(o['backend'], 0) + 1
    return c


main()
