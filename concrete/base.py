"""Helpers for the executable contracts: generators, snapshots, deep comparison."""
import importlib, datetime


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    pass


class Timeout(BaseException):
    pass


class Check:
    def __init__(self, fn, name, limit, terminates, may_raise, max_iter, min_iter):
        self.fn, self.name, self.limit, self.terminates, self.may_raise, self.max_iter, self.min_iter = fn, name, limit, terminates, may_raise, max_iter, min_iter


CHECKS = []
note = {}
NT = [False]


def nontrivial_flag(b=True):
    NT[0] = NT[0] or bool(b)


nt = nontrivial_flag


def check(name=None, limit=12.0, terminates=True, may_raise=False, max_iter=100000, min_iter=1):
    def d(fn):
        CHECKS.append(Check(fn, name or fn.__name__, limit, terminates, may_raise, max_iter, min_iter))
        return fn
    return d


def expect(cond, msg, key=None):
    if not cond:
        raise Violation(msg, key)


def eq(a, b, what, key=None):
    if a != b or type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        raise Violation('%s: got %s, expected %s' % (what, short(a), short(b)), key)


def short(x):
    s = repr(x)
    return s if len(s) < 700 else s[:700] + '...'


def mod(name):
    return importlib.import_module('python.ficus.' + name)


def api(modname, name):
    """a function/class of the real code; Skip when it no longer exists (renamed by a refactoring)"""
    m = mod(modname)
    if not hasattr(m, name):
        raise Skip('%s.%s does not exist' % (modname, name))
    return getattr(m, name)


CN = 'concept:name'
TS = 'time:timestamp'
LCT = 'lifecycle:transition'
T0 = datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc)


def EL():
    return mod('legacy.log.event_log')


def mk_event(name, **payload):
    d = {CN: name}
    d.update(payload)
    return EL().MyEvent(d)


def rand_payload(rng, rich):
    p = {}
    if not rich:
        return p
    for k in ('org:resource', LCT, 'cost', 'flag', 'ratio', 'note', 'k\u00e9y'):
        if rng.random() < 0.35:
            p[k] = {'org:resource': rng.choice(['bob', 'alice', '']), LCT: rng.choice(['start', 'complete']), 'cost': rng.randint(-5, 10 ** 12),
                    'flag': rng.random() < 0.5, 'ratio': rng.choice([0.5, -1.25, 3.0]), 'note': rng.choice(['a b', '<x>&"\'', 'True', '1']),
                    'k\u00e9y': '\u017e'}[k]
    return p


def rand_names(rng, alphabet=None, n=None):
    if n is None:
        n = rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 8, 12])
    k = len(alphabet)
    style = rng.random()
    if style < 0.25 and n:   # repetitive
        unit = [rng.choice(alphabet) for _ in range(rng.randint(1, max(1, min(4, n))))]
        out = (unit * (n // len(unit) + 1))[:n]
        if out and rng.random() < 0.5:
            out[rng.randrange(len(out))] = rng.choice(alphabet)
        return out
    return [rng.choice(alphabet) for _ in range(n)]


ALPH = ['A', 'B', 'C', 'D', 'E']
NAMEPOOL = ['A', 'B', 'C', 'D', 'Register request', 'a', 'AB', 'A B', 'z', 'Z', '', '\u017e']


def rand_alphabet(rng, pool=None, kmax=6):
    pool = list(pool or NAMEPOOL)
    rng.shuffle(pool)
    return pool[:rng.randint(1, min(kmax, len(pool)))]


def rand_log(rng, alphabet=None, rich=False, max_traces=6, times=False, min_len=0, n_traces=None, attrs=False, max_len=None):
    e = EL()
    alphabet = alphabet or rand_alphabet(rng)
    log = e.MyEventLog()
    n = rng.randint(0, max_traces) if n_traces is None else n_traces
    base = []
    for _ in range(n):
        if base and rng.random() < 0.35:
            names = list(rng.choice(base))
        else:
            names = rand_names(rng, alphabet)
        while len(names) < min_len:
            names.append(rng.choice(alphabet))
        if max_len is not None:
            names = names[:max_len]
        base.append(names)
        tr = e.MyTrace()
        t = T0 + datetime.timedelta(seconds=rng.randint(0, 1000))
        for nm in names:
            ev = mk_event(nm, **rand_payload(rng, rich))
            if times:
                ev[TS] = t
                t = t + datetime.timedelta(seconds=rng.choice([0, 0, 1, 5, 60]))
            tr.append(ev)
        if attrs:
            tr.attributes = {CN: 'case%d' % rng.randint(0, 99)}
        log.append(tr)
    if attrs:
        log.attributes = {'source': 'gen'}
    return log


def log_of(*names_lists):
    e = EL()
    log = e.MyEventLog()
    for ns in names_lists:
        tr = e.MyTrace()
        for n in ns:
            tr.append(mk_event(n))
        log.append(tr)
    return log


def names(log):
    return [[ev[CN] for ev in tr] for tr in log]


def snap(log):
    """identity + content snapshot of a log: detects any change of structure, identity or payload"""
    return (id(log.traces), [(id(t), id(t.raw_events), [id(x) for x in t.raw_events], [payload(x) for x in t.raw_events], dict(t.attributes)) for t in log.traces],
            dict(log.attributes), dict(log.extensions), dict(log.classifiers), dict(log.properties), dict(log.global_values))


def payload(ev):
    return list(ev.payload.items())


def show(log):
    return [[dict(e.payload) for e in t] for t in log]


def same_snap(log, s, what='input log', key=None):
    expect(snap(log) == s, '%s was modified' % what, key)


def ctx(**kw):
    PR = api('legacy.pipelines.contexts.part_results', 'PipelinePartResult')
    r = PR()
    for k, v in kw.items():
        r.values[k] = v
    return r
