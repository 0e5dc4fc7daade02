"""C22, C23: streams of values (spec/Codec.tla, spec/Proc.tla)"""
from .core import cfg
from .amf import ASSUME, gen
from .remoting import good

NV = 6


def c23(run):
    n = run.scale(500, 4000)
    size = run.scale(40, 60)
    small = lambda r: [r.choice([3, 6, 12, 20]), r.choice([1, 1, 2, 3])]   # noqa
    cs = []
    for v in (0, 3):
        pool = gen(run, v, False, run.scale(200, 1500), head=small)
        # some that refer to what was in the message before them
        pool += [c for c in gen(run, v, False, run.scale(200, 1500), brk=True,
                                head=small) if c['err'] in ('ref', 'dec')]
        for bad in (0, NV):
            hs = run.generate(
                'CodecGen', cfg(['WellFormed', 'FifoOK'], {
                    'Strict': False, 'V': v, 'NV': NV, 'NOps': size,
                    'BadVal': bad}),
                run.tapes(n if not bad else n // 3, 3 + 5 * size),
                data={'POOL': pool})
            gs = good(gen(run, v, True, 2 * len(hs), head=lambda r: [
                r.choice([10, 20, 40]), NV], length=160))
            for h, g in zip(hs, gs):
                h.update(out=g['out'], nd=g['nd'], badval=bad, ev=v,
                         all3=False)
                if bad:
                    h['out'][bad - 1] = ['bad', run.rnd.choice(
                        ['class', 'function', 'time', 'builtin'])]
                if v == 3 and run.rnd.randrange(3) == 0:
                    h.update(ev=0, all3=True)
                cs.append(h)
    for i, c in enumerate(cs):
        c['id'] = i + 1
    run.distinct_of(cs)
    run.count('operations', sum(len(c['ops']) for c in cs))
    obs = run.harness('valuestream.py', cs)
    run.sample(obs.get(1))
    run.judge('CodecCheck', cfg(['WellFormed'], {'Strict': False}),
              [obs[c['id']] for c in cs if c['id'] in obs],
              what=dict((c['id'], c) for c in cs))
    return ASSUME


def c22(run):
    n = run.scale(700, 6000)
    size = run.scale(30, 45)
    np = 7
    cs = []
    for v in (0, 3):
        pool = gen(run, v, False, run.scale(400, 2500), head=lambda r: [
            r.choice([3, 6, 12, 20]), r.choice([1, 2, 3])])
        if v == 0:
            # what is behind an AMF3 marker is another protocol
            pool = [c for c in pool if 17 not in c['inp']]
        cs += run.generate(
            'ProcGen', cfg(['InOrder'], {
                'Strict': False, 'V': v, 'NP': np, 'NOps': size}),
            run.tapes(n, np + 2 + 3 * size), data={'POOL': pool})
    for i, c in enumerate(cs):
        c['id'] = i + 1
    run.distinct_of(cs)
    run.count('operations', sum(len(c['ops']) for c in cs))
    obs = run.harness('proc.py', cs)
    run.sample(obs.get(1))
    run.judge('ProcCheck', cfg(constants={'Strict': False}),
              [obs[c['id']] for c in cs if c['id'] in obs],
              what=dict((c['id'], c) for c in cs))
    return ASSUME
