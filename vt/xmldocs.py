"""C20: documents (spec/Xml.tla)"""
import json

from .core import cfg
from .amf import ASSUME
from .dates import UNKNOWN, request

SUBST = """
  XmlRead <- AnyXml
  XmlPool <- WidePool
  Kinds3 <- More3
  Kinds0 <- More0
  Leaf3Kinds <- Few3
  Leaf0Kinds <- Few0
"""
JUDGE = """CONSTANTS
  XmlRead <- AnyXml
"""


def gen(run, docs, v, enc, n, dtd, ents, head, length=200):
    const = {'Strict': False, 'V': v, 'Enc': enc, 'CheckLex': not enc,
             'Break': False, 'Spoil': 0, 'Named': False,
             'ForbidDtd': dtd, 'ForbidEnts': ents}
    return run.generate('XmlAmfGen', cfg(['LexOK'], const, extra=SUBST),
                        run.tapes(n, length, head), data={'DOCS': docs})


def conform(run, cs, module, docs, some, dtd, ents):
    for i, c in enumerate(cs):
        c.update(id=i + 1, dtd=dtd, ents=ents)
    run.distinct_of(cs)
    path = run.path('docs.nd')
    with open(path, 'w') as f:
        for d in docs:
            f.write(json.dumps(d) + '\n')
    obs = run.harness('xmldoc.py', cs, args=[path])
    run.sample(obs.get(1))
    l = []
    for c in cs:
        o = obs.get(c['id'])
        if o is None:
            continue
        for x in o.get('pair', [o]):
            x['id'] = len(l) + 1
            x['case'] = c['id']
            l.append(x)
    run.count('documents', sum(1 for x in l for n in x['nd']
                               if n['k'] == 'xml'))
    run.count('refused', sum(1 for x in l if x['err'] not in ('', 'eos')))
    run.judge(module, cfg(constants={
        'Strict': False, 'ForbidDtd': dtd, 'ForbidEnts': ents}, extra=JUDGE),
        l, what=dict((x['id'], cs[x['case'] - 1]) for x in l), data={'DOCS': some})
    return l


def c20(run):
    docs = run.generate('XmlGen', cfg(['Found', 'Fixed', 'Monotone']),
                        run.tapes(run.scale(250, 1500), 120,
                                  lambda r: [r.choice([1, 3, 6, 10])]))
    plain = [d for d in docs if d['ok'] and not d['dtd']]
    declared = [d for d in docs if d['dtd']]
    flawed = [d for d in docs if not d['dtd'] and not d['ok']]

    def setting(dtd, ents):
        return lambda sub: permitted(sub, docs, plain, declared, flawed,
                                     dtd, ents)

    run.parallel([setting(d, e) for d in (True, False)
                  for e in (True, False)])
    return ASSUME


def permitted(run, docs, plain, declared, flawed, dtd, ents):
    short = lambda r: [r.choice([4, 8, 16, 30]), r.choice([1, 2, 4])]  # noqa
    nv = 4
    both = dtd and ents
    amf, env = [], []
    # most documents are fine, so that there are values behind them
    # and references to them
    some = plain + declared + flawed if not (dtd or ents) else \
        plain * 3 + declared + flawed
    n = run.scale(130, 2000)
    one = {}
    for v in (0, 3):
        for c in gen(run, some, v, False, n, dtd, ents, short):
            c.update(op=run.rnd.choice(['dec', 'feed']), env=False)
            c['chunks'] = [run.rnd.choice([1, 3, 9, 20, 60])
                           for _ in range(60)]
            amf.append(c)
        one[v] = gen(run, some, v, False, n, dtd, ents, lambda r: [
            r.choice([4, 8, 16]), 1])
        if both:
            for c in gen(run, plain, v, True, run.scale(200, 3000),
                         dtd, ents, short):
                c.update(op='enc', env=False)
                if v == 3 and run.rnd.randrange(3) == 0:
                    c.update(v=0, all3=True)
                amf.append(c)
    conform(run, amf, 'XmlCheck', plain, some, dtd, ents)
    # the same documents in headers and bodies
    keep = lambda l: [{'inp': x['inp'], 'out': x['out']}  # noqa
                      for x in l]
    known = [c for c in one[0] if UNKNOWN not in bytes(c['inp'])]
    lists = [c for c in one[3] if UNKNOWN not in bytes(c['inp']) and
             (c['err'] or (c['out'][0][0] == 'ref' and c['nd'][
                 c['out'][0][1] - 1]['k'] == 'list'))]
    fine = [c for c in known if not c['err']]
    for flaw in (False, True):
        pool = known if flaw else fine
        wire = run.generate('EnvelopeGen', cfg(
            [], {'Strict': False, 'Mode': '"wire"', 'NVals': nv}),
            run.tapes(run.scale(100, 2000), 80),
            data={'POOL': keep(pool), 'ARGS': keep(pool),
                  'LISTS': keep([c for c in lists
                                 if flaw or not c['err']])})
        env += [{'op': 'dec', 'inp': c['inp'], 'env': True}
                for c in wire]
    if both:
        build = run.generate('EnvelopeGen', cfg(
            ['Distinct'],
            {'Strict': False, 'Mode': '"build"', 'NVals': nv}),
            run.tapes(run.scale(120, 2000), 110))
        g = {v: gen(run, plain, v, True, len(build), dtd, ents,
                    lambda r: [r.choice([6, 12, 30]), nv])
             for v in (0, 3)}
        for i, c in enumerate(build):
            x = g[c['v']][i]
            c.update(op='enc', out=x['out'], nd=x['nd'], env=True)
            env.append(c)
        for v in (0, 3):
            for c in one[v]:
                if UNKNOWN in bytes(c['inp']) or \
                        (v == 0 and 17 in c['inp']):
                    continue
                env.append({'op': 'gate', 'env': True, 'v': v,
                            'inp': request(v, 1, c['inp'])})
    conform(run, env, 'XmlEnvCheck', plain, some, dtd, ents)
