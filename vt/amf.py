"""C01-C07: the wire formats (spec/AMF.tla, AMFGen.tla, AMFCheck.tla, Num.tla)"""
import copy

from .core import cfg

ASSUME = [
    'the Python interpreter is Jython 2.7, the pure Python codec (cpyamf is '
    'not built here)',
    'the Observer/Builder of harness/common.py translates faithfully between '
    'Python objects and abstract values',
]


def gen(run, v, enc, n, brk=False, spoil=0, strict=False, head=None,
        length=240, named=False):
    tapes = run.tapes(n, length, head or (
        lambda r: [r.choice([6, 20, 40, 60]), r.choice([1, 2, 3, 5])]))
    cases = run.generate('AMFGen', cfg(
        ['WellFormed', 'LexOK'],
        {'Strict': strict, 'V': v, 'Enc': enc, 'CheckLex': True,
         'Break': brk, 'Spoil': spoil, 'Named': named}), tapes)
    run.count('nodes_in_generated_graphs', sum(len(c['nd']) for c in cases))
    run.count('values_in_generated_graphs', sum(len(c['out']) for c in cases))
    return cases


def wide(run, v, enc, n, most=300, kinds=14):
    """large tables, counts and lengths (WideGen)"""
    kinds = [x for x in range(1, kinds + 1)]
    sizes = [x for x in (7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 126,
                         127, 128, 129, 130, 180, 256, 257, 300) if x <= most]
    state = [run.rnd.randrange(1000)]

    def head(r):
        k = kinds[state[0] % len(kinds)]
        state[0] += 1
        many = r.choice(sizes)
        if k in (4, 7):
            many = min(many, 199 if k == 7 else 150)
        return [r.choice([0, 20, 30]), r.choice([1, 5, 8, 10]), k, many,
                r.randrange(64)]

    cases = run.generate('WideGen', cfg(
        ['LexOK'],
        {'Strict': False, 'V': v, 'Enc': enc, 'CheckLex': True,
         'Break': False, 'Spoil': 0, 'Named': False}, spec='WSpec',
        extra='CONSTANTS\n  Ntop <- WNtop\n  Kinds3 <- WKinds3\n'
              '  BigKinds3 <- WKinds3\n  Kinds0 <- WKinds0\n'
              '  BigKinds0 <- WKinds0\n'),
        run.tapes(n, 120, head))
    run.count('values_in_generated_graphs', sum(len(c['out']) for c in cases))
    for c in cases:
        c['wide'] = True
    return cases


def conform(run, cases, strict=False):
    """ids are made unique; run them; judge them"""
    for i, c in enumerate(cases):
        c['id'] = i + 1
    run.distinct_of({k: c.get(k) for k in ('op', 'v', 'inp', 'out', 'nd',
                                           'chunks', 'all3')}
                    for c in cases)
    obs = run.harness('amf.py', cases)
    what = dict((c['id'], c) for c in cases)
    for c in cases:
        if c['id'] in obs:
            run.sample({'case': dict((k, c[k]) for k in c if k != 'nd'),
                        'observed': obs[c['id']]})
    l = [obs[c['id']] for c in cases if c['id'] in obs]
    big = set(c['id'] for c in cases if c.get('wide'))
    ver = run.judge('AMFCheck', cfg(['WellFormed'], {'Strict': strict}),
                    [o for o in l if o['id'] not in big], what=what)
    if big:
        ver.update(run.judge('AMFCheck', cfg([], {'Strict': strict}),
                             [o for o in l if o['id'] in big], what=what))
    nopen = sum(1 for x in ver.values() if x.endswith('(open)'))
    if nopen:
        run.count('inputs_without_specified_meaning', nopen)
    return ver


def op(cases, name, **kw):
    for c in cases:
        c['op'] = name
        c.update(kw)
        if name != 'enc':
            c.pop('out', None)
            c.pop('nd', None)
    return cases


def sideways(run, *parts):
    """generate, run and judge the parts side by side"""
    def job(part):
        return lambda sub: conform(sub, part(sub))
    run.parallel([job(p) for p in parts])
    return ASSUME


def c01(run):
    def plain(run):
        cs = op(gen(run, 3, True, run.scale(2000, 12000)), 'enc')
        cs += op(gen(run, 3, True, run.scale(200, 1500), spoil=1), 'enc')
        cs += op(gen(run, 3, True, run.scale(4, 30), spoil=4,
                     head=lambda r: [20, 2]), 'enc')
        # many values in one message: long tables of references
        return cs + op(gen(run, 3, True, run.scale(8, 60), length=1500,
                           head=lambda r: [400, 60]), 'enc')

    return sideways(run, plain, lambda run: op(wide(
        run, 3, True, run.scale(112, 600)), 'enc'))


def c02(run):
    def plain(run):
        cs = op(gen(run, 3, False, run.scale(2000, 12000)), 'dec')
        return cs + op(gen(run, 3, False, run.scale(8, 60), length=1500,
                           head=lambda r: [400, 60]), 'dec')

    return sideways(run, plain, lambda run: op(wide(
        run, 3, False, run.scale(112, 600)), 'dec'))


def c03(run):
    def plain(run):
        cs = op(gen(run, 0, True, run.scale(2000, 12000)), 'enc')
        for s in (2, 3, 4, 5):
            cs += op(gen(run, 0, True, run.scale(6, 40), spoil=s), 'enc')
        cs += op(gen(run, 0, True, run.scale(8, 60), length=1500,
                     head=lambda r: [400, 60]), 'enc')
        return cs + op(gen(run, 3, True, run.scale(300, 3000)), 'enc', v=0,
                       all3=True)

    return sideways(run, plain, lambda run: op(wide(
        run, 0, True, run.scale(112, 600)), 'enc'))


def c04(run):
    def plain(run):
        cs = op(gen(run, 0, False, run.scale(2000, 12000)), 'dec')
        return cs + op(gen(run, 0, False, run.scale(8, 60), length=1500,
                           head=lambda r: [400, 60]), 'dec')

    return sideways(run, plain, lambda run: op(wide(
        run, 0, False, run.scale(112, 600)), 'dec'))


def cuts(run, c, most):
    n = len(c['inp'])
    ks = list(range(n))
    if n > most:
        ks = sorted(run.rnd.sample(ks, most))
    for k in ks:
        yield {'v': c['v'], 'op': 'dec', 'inp': c['inp'][:k]}


def c06(run):
    cs = []
    for v in (0, 3):
        base = op(gen(run, v, False, run.scale(60, 400), head=lambda r: [
            r.choice([4, 8, 14, 30]), r.choice([1, 2, 3])]), 'dec')
        for c in base:
            cs += cuts(run, c, 40)
        more = op(gen(run, v, False, run.scale(300, 2500)), 'dec')
        for c in base + more:
            n = len(c['inp'])
            kind = run.rnd.randrange(4)
            if kind == 0:
                ch = [1] * n
            else:
                ch = []
                while sum(ch) < n:
                    ch.append(run.rnd.choice([0, 1, 1, 2, 3, 5, 8, 20]))
            if kind == 3 and c['ends']:
                # cut where the elements end
                e = [0] + c['ends']
                ch = [b - a for a, b in zip(e, e[1:])]
            cs.append({'v': v, 'op': 'feed', 'inp': c['inp'], 'chunks': ch})
    conform(run, cs)
    return ASSUME


def c07(run):
    cs = []
    junk = run.rnd
    for v in (0, 3):
        br = op(gen(run, v, False, run.scale(700, 6000), brk=True), 'dec')
        for c in br:
            if junk.randrange(2):
                c['inp'] = c['inp'] + [junk.randrange(256) for _ in range(30)]
        cs += br
        # arbitrary damage: whatever has a meaning must keep it
        for c in op(gen(run, v, False, run.scale(400, 4000)), 'dec'):
            c = copy.deepcopy(c)
            for _ in range(junk.choice([1, 1, 2])):
                if c['inp']:
                    i = junk.randrange(len(c['inp']))
                    c['inp'][i] = junk.choice(
                        [0, 1, 6, 9, 10, 17, c['inp'][i] ^ 1,
                         (c['inp'][i] + 2) % 256, junk.randrange(256)])
            cs.append(c)
    conform(run, cs)
    cs = []
    for v in (0, 3):
        cs += op(gen(run, v, False, run.scale(400, 3000)), 'dec', strict=True)
    conform(run, cs, strict=True)
    return ASSUME


def c05(run):
    k = run.scale(40, 200)
    n = run.scale(800, 3000)
    cs = run.generate('NumGen', cfg(['Inverse'], {'K': k}),
                      run.tapes(n, 4 * k + 4))
    run.distinct_of(cs)
    obs = run.harness('num.py', cs)
    run.count('numbers_written', sum(len(c['h']) for c in cs))
    run.sample(obs[cs[0]['id']] if cs[0]['id'] in obs else {})
    run.judge('NumCheck', cfg(), [obs[c['id']] for c in cs if c['id'] in obs],
              what=dict((c['id'], c) for c in cs))
    return ASSUME
