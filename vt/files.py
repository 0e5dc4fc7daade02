"""C15: local shared objects (spec/Sol.tla)"""
from .core import cfg
from .amf import ASSUME, gen
from .remoting import good

NAMES = [[97], [], [104, 105], [195, 169], [110] * 200, [226, 130, 172],
         [0, 97], [32, 97, 10], [195, 169, 0], [92, 47, 46]]
LONG = [[110] * 65535, [110] * 65536, [195, 169] * 32767,
        [195, 169] * 32768]


def judge(run, cs):
    for i, c in enumerate(cs):
        c['id'] = i + 1
    run.distinct_of(cs)
    obs = run.harness('solfile.py', cs)
    run.sample(obs.get(1))
    l = [obs[c['id']] for c in cs if c['id'] in obs]
    ver = run.judge('SolCheck', cfg(constants={'Strict': False}), l,
                    what=dict((c['id'], c) for c in cs))
    run.count('files_without_specified_meaning', sum(
        1 for x in ver.values() if x.endswith('(open)')))
    return l


def c15(run):
    head = lambda r: [r.choice([6, 12, 30, 50]), r.choice([0, 2, 2, 4, 6])]  # noqa
    for v in (0, 3):
        cases = gen(run, v, True, run.scale(600, 5000), head=head, named=True)
        for c in cases:
            c.update(op='enc', name=run.rnd.choice(NAMES),
                     way=run.rnd.randrange(7), strict=run.rnd.random() < .85)
            del c['inp']
        # long names, and much content
        for c in run.rnd.sample(cases, run.scale(12, 60)):
            w = run.rnd.randrange(4)
            if w == 0:
                c['name'] = run.rnd.choice(LONG)
            elif w == 1:
                c['out'] = [['str', run.rnd.choice(LONG)], ['bool', True]] + \
                    c['out']
            else:
                c['out'] = c['out'][:len(c['out']) // 2 * 2] + [
                    ['str', [122, 122]], ['str', [97] * run.rnd.choice(
                        [65535 - 60, 65535, 65536, 70000, 140000])]]
        wrote = judge(run, cases)
        # what was written is read, whole, cut or damaged
        again = []
        for o in wrote:
            if o['err']:
                continue
            again.append({'op': 'dec', 'inp': o['inp'],
                          'strict': o['strict']})
        pool = good(gen(run, v, False, run.scale(300, 2500), head=head,
                        named=True))
        wire = run.generate('SolGen', cfg(['ReadsBack'], {'Strict': False}),
                            run.tapes(run.scale(900, 8000), 8),
                            data={'POOL': pool})
        more = [{'op': 'dec', 'inp': c['inp'], 'strict': c['strict']}
                for c in wire]
        for c in run.rnd.sample(again, run.scale(20, 200)):
            for p in range(min(len(c['inp']), 60)):
                more.append({'op': 'dec', 'inp': c['inp'][:p],
                             'strict': c['strict']})
        judge(run, again + more)
    return ASSUME
