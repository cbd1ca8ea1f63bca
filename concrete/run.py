"""Executable side of the contracts: evaluates them on the real code in /repo on generated inputs.
usage: run.py <property> <seconds> <seed> <out.json>   |   run.py <property> --replay <file>"""
import sys, os, json, time, random, signal, traceback, importlib, warnings, io, contextlib
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [HERE, REPO + '/src/python', REPO + '/src']
warnings.filterwarnings('ignore')
sys.dont_write_bytecode = True
from base import Violation, Skip, CHECKS, nontrivial_flag, Timeout
import base


def on_alarm(*a):
    raise Timeout()


signal.signal(signal.SIGALRM, on_alarm)


def in_repo(tb):
    last = None
    for f, _ in traceback.walk_tb(tb):
        fn = f.f_code.co_filename
        if (REPO + '/') in fn:
            last = 'repo'
        elif fn.startswith(HERE):
            last = 'harness'
    return last == 'repo'


def run_one(chk, seed, it, more=1):
    """-> (violation dict or None, nontrivial, 'ok'|'skip'|'error')"""
    rng = random.Random('%s/%s/%s' % (seed, chk.name, it))
    base.note.clear()
    base.NT[0] = False
    signal.setitimer(signal.ITIMER_REAL, chk.limit * more)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            chk.fn(rng)
        return None, base.NT[0], 'ok', None
    except Violation as v:
        return {'check': chk.name, 'seed': seed, 'iteration': it, 'message': str(v), 'input': dict(base.note), 'key': v.key}, True, 'ok', None
    except Skip as s:
        return None, False, 'skip', str(s)
    except Timeout:
        if chk.terminates and more == 1:
            pass        # the first call also loads modules: once more with more time
        elif chk.terminates:
            return {'check': chk.name, 'seed': seed, 'iteration': it, 'message': 'no result after %gs (does not terminate)' % (chk.limit * more),
                    'input': dict(base.note), 'key': chk.name + '/timeout'}, True, 'ok', None
        else:
            return None, False, 'skip', 'time limit'
    except Exception as e:
        tb = e.__traceback__
        if in_repo(tb) and not chk.may_raise:
            loc = [f for f in traceback.extract_tb(tb) if (REPO + '/') in f.filename][-1]
            return {'check': chk.name, 'seed': seed, 'iteration': it,
                    'message': 'the code raised %s: %s at %s:%d' % (type(e).__name__, str(e)[:200], loc.filename, loc.lineno),
                    'input': dict(base.note), 'key': chk.name + '/' + type(e).__name__}, True, 'ok', None
        if not chk.may_raise and (isinstance(e, (KeyError, IndexError)) or 'NoneType' in str(e)) and not in_repo(tb):
            # the oracle could not even read the result
            return {'check': chk.name, 'seed': seed, 'iteration': it, 'message': 'the result lacks something that must be there: %s: %s' % (type(e).__name__, str(e)[:200]),
                    'input': dict(base.note), 'key': chk.name + '/shape'}, True, 'ok', None
        return None, False, 'error', ''.join(traceback.format_exception(e))[-1200:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return run_one(chk, seed, it, 2)


def main():
    prop = sys.argv[1]
    try:
        importlib.import_module(prop)
    except ModuleNotFoundError as e:
        if e.name == prop:
            json.dump({'violations': [], 'checks': {}, 'skipped': ['no executable contracts'], 'error': None}, open(sys.argv[4], 'w'))
            return
        raise
    if sys.argv[2] == '--replay':
        d = json.load(open(sys.argv[3]))
        for v in d['violations']:
            chk = [c for c in CHECKS if c.name == v['check']][0]
            r = run_one(chk, v['seed'], v['iteration'])
            print('REPRODUCED' if r[0] else 'not reproduced', v['check'], r[0]['message'] if r[0] else '')
        return
    seconds, seed, out = float(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    only = sys.argv[5:] 
    t_end = time.time() + seconds
    stats = {c.name: {'evaluations': 0, 'nontrivial': 0} for c in CHECKS}
    viol, skipped, errors, samples = [], {}, {}, []
    dead = set()
    it = 0
    while time.time() < t_end and it < 4000:
        live = 0
        for c in CHECKS:
            if c.name in dead or it >= c.max_iter or (only and c.name not in only):
                continue
            live += 1
            if time.time() > t_end and it >= c.min_iter:
                continue
            v, nt, kind, info = run_one(c, seed, it)
            if kind == 'skip':
                skipped[c.name] = info
                if it >= 20 and stats[c.name]['evaluations'] == 0:
                    dead.add(c.name)
                continue
            if kind == 'error':
                errors[c.name] = info
                dead.add(c.name)
                continue
            stats[c.name]['evaluations'] += 1
            stats[c.name]['nontrivial'] += bool(nt)
            if len(samples) < 6 and nt and it > 2 and base.note:
                samples.append({'check': c.name, 'input': {k: str(x)[:300] for k, x in base.note.items()}})
            if v is not None:
                v['input'] = {k: str(x)[:3000] for k, x in v['input'].items()}
                viol.append(v)
                dead.add(c.name)
                if os.environ.get('VERIF_FIRST') and 'class-hash-collision' not in str(v.get('key')):
                    t_end = 0
        if live == 0:
            break
        it += 1
    json.dump({'violations': viol, 'checks': stats, 'skipped': ['%s: %s' % kv for kv in skipped.items()],
               'error': '\n'.join('%s: %s' % kv for kv in errors.items()) or None, 'samples': samples}, open(out, 'w'), default=str)


main()
