"""C10: remoting envelopes (spec/Envelope.tla)"""
import json

from .core import cfg
from .amf import ASSUME, gen


def good(cases):
    return [c for c in cases if '"bad"' not in json.dumps(c)]


def judge_env(run, cs, strict):
    for i, c in enumerate(cs):
        c['id'] = i + 1
        c['strict'] = strict
    run.distinct_of(cs)
    obs = run.harness('envelope.py', cs)
    run.sample(obs.get(1))
    l = [obs[c['id']] for c in cs if c['id'] in obs]
    ver = run.judge('EnvelopeCheck', cfg(constants={'Strict': strict}), l,
                    what=dict((c['id'], c) for c in cs))
    run.count('messages_without_specified_meaning', sum(
        1 for x in ver.values() if x.endswith('(open)')))
    return l


def c10(run):
    nv = 6
    n = run.scale(500, 4000)
    short = lambda r: [r.choice([3, 6, 12, 20]), 1]          # noqa
    for strict in (False, True):
        # writing
        build = run.generate('EnvelopeGen', cfg(
            ['Distinct'], {'Strict': strict, 'Mode': '"build"', 'NVals': nv}),
            run.tapes(n, 110))
        g = {v: gen(run, v, True, n, head=lambda r: [
            r.choice([6, 12, 30]), nv], length=200) for v in (0, 3)}
        for i, c in enumerate(build):
            x = g[c['v']][i]
            c.update(op='enc', out=x['out'], nd=x['nd'])
        wrote = judge_env(run, build, strict)
        # what was written is read
        again = [{'op': 'dec', 'inp': o['inp']} for o in wrote if not o['err']]
        # what others write
        known = good(gen(run, 0, False, run.scale(300, 2000), head=short,
                         strict=False))
        args = good(gen(run, 0, False, run.scale(200, 1500), head=lambda r: [
            r.choice([3, 6, 12, 20]), r.choice([0, 1, 2, 3, 4])]))
        lists = [x for x in good(gen(run, 3, False, run.scale(300, 2000),
                                     head=short))
                 if x['out'][0][0] == 'ref' and
                 x['nd'][x['out'][0][1] - 1]['k'] == 'list']
        keep = lambda l: [{'inp': x['inp'], 'out': x['out']}  # noqa
                          for x in l]
        wire = run.generate('EnvelopeGen', cfg(
            ['ReadsBack'], {'Strict': strict, 'Mode': '"wire"', 'NVals': nv}),
            run.tapes(run.scale(900, 8000), 80),
            data={'POOL': keep(known), 'ARGS': keep(args),
                  'LISTS': keep(lists)})
        more = [{'op': 'dec', 'inp': c['inp']} for c in wire]
        # cut short, or damaged
        for c in run.rnd.sample(more, run.scale(60, 500)) + \
                run.rnd.sample(again, run.scale(20, 200)):
            k = len(c['inp'])
            for p in sorted(run.rnd.sample(range(k), min(k, 12))):
                again.append({'op': 'dec', 'inp': c['inp'][:p]})
        for c in run.rnd.sample(more, run.scale(150, 1500)):
            d = list(c['inp']) or [0]
            d[run.rnd.randrange(len(d))] = run.rnd.choice(
                [0, 1, 9, 10, 17, 255, run.rnd.randrange(256)])
            again.append({'op': 'dec', 'inp': d})
        judge_env(run, again + more, strict)
    return ASSUME


def c14(run):
    nops = 20
    cases = run.generate('ClientGen', cfg(['Once', 'Waits'], {'NOps': nops}),
                         run.tapes(run.scale(500, 4000), 8 + 48 * nops))
    for i, c in enumerate(cases):
        c['id'] = i + 1
    run.distinct_of(cases)
    obs = run.harness('client.py', cases)
    run.sample(obs.get(1))
    run.judge('ClientCheck', cfg(), [obs[c['id']] for c in cases
                                     if c['id'] in obs],
              what=dict((c['id'], c) for c in cases))
    run.count('requests_sent', sum(1 for o in obs.values()
                                   for r in o['res'] if r['req']['n']))
    return ['Jython 2.7 stands for CPython 2.7',
            'the messages are written and read by the library (C10 says what '
            'for)']
