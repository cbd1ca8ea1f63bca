from base import *
import tempfile, os, datetime as dt, math

FN = 'legacy.log.functions'
TEXT = ['a', '', 'A B', '<x>&"\'', 'True', 'False', '1', '1.5', '\u017elu\u0165', 'tab\there', 'new\nline', ' lead', 'a,b', '2020-01-01', '}brace', '\U0001F600']
KEYS = ['org:resource', 'k', 'key', 'value', 'cost', 'a b', '<&>', 'k\u00e9y', 'lifecycle:transition', 'string', '}x']
TZ = [None, dt.timezone.utc, dt.timezone(dt.timedelta(hours=2)), dt.timezone(-dt.timedelta(hours=5, minutes=30))]


def val(rng, odd=True):
    k = rng.randint(0, 6 if odd else 5)
    if k == 0:
        return rng.choice(TEXT)
    if k == 1:
        return rng.choice([0, 1, -7, 10 ** 30, rng.randint(-99, 99)])
    if k == 2:
        return rng.choice([0.0, 1.0, -2.5, 0.1, 1e300, 1e-9, float('inf')])
    if k == 3:
        return rng.random() < 0.5
    if k in (4, 5):
        return dt.datetime(rng.choice([1999, 2020, 2024]), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59),
                           rng.choice([0, 0, 1, 500000, 999999]), tzinfo=rng.choice(TZ))
    return rng.choice([None, [1, 2], {'a': 1}, (1,), b'x', EL().MyTrace()])


def carried(v):
    return type(v) in (str, int, float, bool, dt.datetime)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dt.datetime):
        return a == b and a.utcoffset() == b.utcoffset()
    return a == b


def dsame(a, b, what):
    eq(sorted(a), sorted(b), what + ': keys')
    for k in b:
        expect(same(a[k], b[k]), '%s: %r is %r (%s), expected %r (%s)' % (what, k, a[k], type(a[k]).__name__, b[k], type(b[k]).__name__))


def roundtrip(log, beautiful=False):
    d = tempfile.mkdtemp(prefix='verif_xes_')
    try:
        p = os.path.join(d, 'sub', 'log.xes')
        api(FN, 'save_event_log_to_xes')(log, p)
        note['xes'] = open(p).read()[:1500]
        return api(FN, 'read_log_from_xes')(p)
    finally:
        import shutil
        shutil.rmtree(d)


def strip(d):
    return {k: v for k, v in d.items() if carried(v)}


def gen(rng, globs):
    E = EL()
    log = E.MyEventLog()
    for _ in range(rng.randint(0, 4)):
        t = E.MyTrace()
        t.attributes = {k: val(rng) for k in rng.sample(KEYS, rng.randint(0, 3))}
        for _ in range(rng.randint(0, 4)):
            ev = E.MyEvent({})
            ks = rng.sample(KEYS, rng.randint(0, 4))
            if rng.random() < 0.9:
                ks.insert(rng.randint(0, len(ks)), CN)
            for k in ks:
                ev[k] = rng.choice(TEXT) if k == CN else val(rng)
            t.append(ev)
        log.append(t)
    log.attributes = {k: rng.choice(TEXT) for k in rng.sample(['xes.version', 'openxes.version', 'a'], rng.randint(0, 2))}
    log.extensions = {rng.choice(['Concept', 'Time', 'X ext']): {'prefix': rng.choice(['concept', 'time']), 'uri': 'http://x/y?a=1&b=2'} for _ in range(rng.randint(0, 2))}
    log.classifiers = {n: rng.sample(['concept:name', 'org:resource', 'a', 'lifecycle:transition'], rng.randint(1, 3)) for n in rng.sample(['Activity', 'Res ource', 'c'], rng.randint(0, 2))}
    log.properties = {k: val(rng) for k in rng.sample(KEYS + [CN], rng.randint(0, 3))}
    if globs:
        for scope in ('event', 'trace'):
            if rng.random() < 0.8:
                g = {k: val(rng) for k in rng.sample(['g1', 'g2', 'flag', CN], rng.randint(0, 3))}
                log.global_values[scope] = g
                objs = [e.payload for t in log for e in t] if scope == 'event' else [t.attributes for t in log]
                for p in objs:
                    for k, d in g.items():
                        if rng.random() < 0.5:
                            p[k] = d
                        elif k not in p or not carried(p[k]):
                            p[k] = val(rng, odd=False)
        if rng.random() < 0.2:
            log.global_values['log'] = {'z': 'q'}
    note['log'] = (show(log), [t.attributes for t in log], log.attributes, log.extensions, log.classifiers, log.properties, log.global_values)
    return log


def verify(log, r, ordered):
    eq(len(r), len(log), 'number of traces')
    for t, q in zip(log, r):
        eq(len(q), len(t), 'number of events')
        dsame(dict(q.attributes), strip(t.attributes), 'trace attributes')
        if ordered:
            eq(list(q.attributes), list(strip(t.attributes)), 'order of trace attributes')
        for e, f in zip(t, q):
            dsame(dict(f.payload), strip(e.payload), 'event attributes')
            if ordered:
                eq(list(f.payload), list(strip(e.payload)), 'order of event attributes')
    eq(dict(r.attributes), dict(log.attributes), 'log attributes')
    eq(dict(r.extensions), dict(log.extensions), 'extensions')
    eq({k: list(v) for k, v in r.classifiers.items()}, {k: list(v) for k, v in log.classifiers.items()}, 'classifiers')
    eq(list(r.classifiers), list(log.classifiers), 'order of classifiers')
    dsame(dict(r.properties), strip(log.properties), 'log-level values')
    eq(sorted(r.global_values), sorted(log.global_values), 'global scopes')
    for sc in log.global_values:
        dsame(dict(r.global_values[sc]), strip(log.global_values[sc]), 'global defaults of ' + sc)


@check()
def xes_plain(rng):
    log = gen(rng, False)
    s = snap(log)
    verify(log, roundtrip(log), True)
    same_snap(log, s)
    nt(len(log) > 1)


@check()
def xes_globals(rng):
    log = gen(rng, True)
    s = snap(log)
    verify(log, roundtrip(log), False)
    same_snap(log, s)
    nt(len(log) > 1 and log.global_values)


@check()
def xes_twice(rng):
    """writing what was read gives the same text again; the string form equals the file"""
    log = gen(rng, rng.random() < 0.5)
    r = roundtrip(log)
    a = api(FN, 'serialize_log_to_xes')(r)
    b = api(FN, 'serialize_log_to_xes')(roundtrip(r))
    eq(b, a, 'second round trip')
    nt(len(log) > 1)


@check()
def xes_parts(rng):
    log = gen(rng, False)
    d = tempfile.mkdtemp(prefix='verif_xes_')
    try:
        p = os.path.join(d, 'l.xes')
        c = ctx(log=log)
        r = api('legacy.pipelines.serialization.pipeline_parts', 'SaveEventLogToXes')(lambda x: p).execute(c)
        expect(r.values['log'] is log, 'the log is passed on')
        q = api('legacy.pipelines.start.start_parts', 'ReadLogFromXes')().execute(p)
        verify(log, q.values['log'], True)
        cwd = os.getcwd()
        os.chdir(d)
        try:
            api(FN, 'save_event_log_to_xes')(log, 'flat.xes')
            verify(log, api(FN, 'read_log_from_xes')('flat.xes'), True)
        finally:
            os.chdir(cwd)
        try:
            api(FN, 'read_log_from_xes')(os.path.join(d, 'missing.xes'))
            raise Violation('reading a missing file does not fail')
        except FileNotFoundError:
            pass
    finally:
        import shutil
        shutil.rmtree(d)


@check()
def xes_foreign(rng):
    """hand-written XES with name spaces, nested and unknown elements"""
    b = rng.choice(['true', 'false', 'True', 'False'])
    n = rng.randint(0, 3)
    evs = ''.join('<event><string key="concept:name" value="e%d"/><boolean key="f" value="%s"/><int key="i" value="%d"/><list key="l"><string key="in" value="x"/></list></event>' % (i, b, i) for i in range(n))
    x = '<?xml version="1.0" encoding="UTF-8"?><log xes.version="1.0" xmlns="http://www.xes-standard.org/"><global scope="event"><string key="g" value="d"/></global>' \
        '<string key="concept:name" value="L"/><trace><string key="concept:name" value="t"/>%s</trace></log>' % evs
    note['xes'] = x
    d = tempfile.mkdtemp(prefix='verif_xes_')
    try:
        p = os.path.join(d, 'l.xes')
        open(p, 'w').write(x)
        r = api(FN, 'read_log_from_xes')(p)
        eq([[dict(e.payload) for e in t] for t in r], [[{'g': 'd', CN: 'e%d' % i, 'f': b.lower() == 'true', 'i': i} for i in range(n)]], 'events')
        eq([dict(t.attributes) for t in r], [{CN: 't'}], 'trace attributes')
        eq(dict(r.properties), {CN: 'L'}, 'log values')
        eq(dict(r.global_values), {'event': {'g': 'd'}}, 'globals')
        eq(dict(r.attributes), {'xes.version': '1.0'}, 'attributes')
    finally:
        import shutil
        shutil.rmtree(d)


@check()
def text(rng):
    al = ['A', 'B', 'C', 'Register request', '\u017e', 'x;y', 'a\tb']
    log = rand_log(rng, rng.sample(al, rng.randint(1, 5)), min_len=1)
    s = snap(log)
    es, ts = rng.choice([(',', '\n'), ('|', '\n'), ('::', '##'), (', ', '\n')])
    note.update(log=names(log), sep=(es, ts))
    txt = api(FN, 'serialize_log')(log, ts, es)
    eq(txt, ts.join(es.join(t) for t in names(log)), 'separated names')
    if len(log):
        eq(names(api(FN, 'parse_log_from_strings')(txt.split(ts), es)), names(log), 'parsing each line back')
        r = api(FN, 'parse_trace_from_string')(es.join(names(log)[0]), es)
        eq([dict(e.payload) for e in r], [{CN: n} for n in names(log)[0]], 'one trace')
        eq(names(api(FN, 'parse_log_from_string')(es.join(names(log)[0]), es)), names(log)[:1], 'one-trace log')
    eq(api(FN, 'serialize_log')(log), '\n'.join(','.join(t) for t in names(log)), 'default separators')
    logs = [rand_log(rng, al[:3], min_len=1) for _ in range(rng.randint(0, 3))]
    eq(api(FN, 'serialize_logs')(logs), '\n\n'.join('\n'.join(','.join(t) for t in names(l)) for l in logs), 'several logs')
    ls = rng.choice(['@@', '\n\n', ';'])
    eq(api(FN, 'serialize_logs')(logs, ls, ts, es), ls.join(ts.join(es.join(t) for t in names(l)) for l in logs), 'several logs, own separators')
    eq(api(FN, 'serialize_logs')(logs, logs_separator=ls, traces_separator=ts, events_separator=es), ls.join(ts.join(es.join(t) for t in names(l)) for l in logs), 'several logs, own separators')
    same_snap(log, s)
    nt(len(log) > 1)
