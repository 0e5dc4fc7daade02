"""C19: dates (spec/Dates.tla)"""
from .core import cfg
from .amf import ASSUME
from .remoting import good

SUBST = """
  DateOk <- AnyDate
  DatePool <- WidePool
  Kinds3 <- More3
  Kinds0 <- More0
  Leaf3Kinds <- Few3
  Leaf0Kinds <- Few0
  BadKinds <- OnlyTime
"""
JUDGE = """CONSTANTS
  Cases <- DatedCases
  DateOk <- AnyDate
"""
LAST = 2932896           # 9999-12-31
FIRST = -719162          # 0001-01-01


def instants(run, n, margin):
    """days (not within margin days of the ends of time) and ms of the day"""
    r = run.rnd
    lo, hi = FIRST + margin, LAST - margin
    days = [lo, hi, 0, -1, 1, 11016, 10957, 24855, 49710, -25567, -141428,
            24836, 16 * 365, 10956, -719162 + 146097]
    out = []
    for i in range(n):
        k = r.randrange(4)
        d = r.choice(days) if k == 0 else r.randrange(lo, hi) if k == 1 else \
            r.randrange(-40000, 40000) if k == 2 else r.randrange(10000, 20000)
        ms = r.choice([0, 0, 1, 999, 1000, 43200000, 86399999, 86399000,
                       r.randrange(86400000), r.randrange(86400000)])
        out.append([d, ms])
    return out


def gen(run, v, enc, n, tz, head, length=200):
    margin = 3 if tz is not None else 0
    pool = instants(run, 500, margin)
    const = {'Strict': False, 'V': v, 'Enc': enc, 'CheckLex': True,
             'Break': False, 'Spoil': 0, 'Named': False}
    return run.generate('DateGen', cfg(['WellFormed', 'LexOK'], const,
                                       extra=SUBST),
                        run.tapes(n, length, head), data={'DATES': pool})


def conform(run, cs, module):
    for i, c in enumerate(cs):
        c['id'] = i + 1
    run.distinct_of(cs)
    obs = run.harness('dates.py', cs)
    run.sample(obs.get(1))
    l = []
    for c in cs:
        o = obs.get(c['id'])
        if o is None:
            continue
        for x in o.get('pair', [o]):
            x['id'] = len(l) + 1
            x['case'] = c['id']
            l.append(x)
    run.count('dates', sum(1 for x in l for n in x['nd'] if n['k'] == 'date'))
    run.judge(module, cfg(constants={'Strict': False}, extra=JUDGE), l,
              what=dict((x['id'], cs[x['case'] - 1]) for x in l))
    return l


OFFSETS = [None, 0, 3600000, -18000000, 19800000, 50400000, -43200000,
           86399000, -86399000, 1500, 123]


UNKNOWN = b'u.K'          # does not keep its class
SECONDS = [x for x in OFFSETS if x is None or x % 1000 == 0]


def request(v, n, data):
    """a call of the service `echo', for a gateway"""
    args = [10, 0, 0, 0, n] + ([17] if v == 3 else []) + data
    k = len(args)
    return [0, v, 0, 0, 0, 1, 0, 4] + list(b'echo') + [0, 2] + list(b'/1') + \
        [0, 0, k // 256, k % 256] + args


def c19(run):
    run.explore('DatesModel', cfg(
        ['Agree', 'Epoch', 'First', 'Last', 'Double', 'Order'],
        {'To': run.scale(800, 100000)}))
    short = lambda r: [r.choice([4, 8, 16, 30]), r.choice([1, 2, 4])]  # noqa
    plain, env = [], []
    nv = 4
    for some in (False, True):
        # without an offset dates may lie at the very ends of time
        n = run.scale(600 if some else 200, 6000 if some else 2000)

        def tz():
            return run.rnd.choice(OFFSETS) if some else None

        for v in (0, 3):
            for enc in (True, False):
                for c in gen(run, v, enc, n, some or None, short):
                    c.update(op='enc' if enc else 'dec', tz=tz(), env=False)
                    if not enc:
                        c['op'] = run.rnd.choice(['dec', 'feed'])
                        c['chunks'] = [run.rnd.choice([1, 3, 9, 20])
                                       for _ in range(60)]
                    elif v == 3 and run.rnd.randrange(3) == 0:
                        c.update(v=0, all3=True)
                    plain.append(c)
        build = run.generate('EnvelopeGen', cfg(
            ['Distinct'], {'Strict': False, 'Mode': '"build"', 'NVals': nv}),
            run.tapes(n, 110))
        g = {v: gen(run, v, True, n, some or None, lambda r: [
            r.choice([6, 12, 30]), nv]) for v in (0, 3)}
        for i, c in enumerate(build):
            x = g[c['v']][i]
            c.update(op='enc', out=x['out'], nd=x['nd'], env=True, tz=tz())
            env.append(c)
    conform(run, plain, 'DateCheck')
    wrote = conform(run, env, 'DateEnvCheck')
    again = []
    for o in wrote:
        if not o['err']:
            again.append({'op': 'dec', 'inp': o['inp'], 'env': True,
                          'tz': env[o['case'] - 1]['tz']})
    for v in (0, 3):
        for c in good(gen(run, v, False, run.scale(250, 2000), 0, lambda r: [
                r.choice([4, 8, 16, 30]), 2 if v == 0 else 1])):
            n = len(c['out'])
            if UNKNOWN in bytes(c['inp']) or (v == 0 and 17 in c['inp']):
                continue
            again.append({'op': 'gate', 'env': True, 'v': v,
                          'tz': run.rnd.choice(SECONDS),
                          'inp': request(v, n, c['inp'])})
    conform(run, again, 'DateEnvCheck')
    return ASSUME
