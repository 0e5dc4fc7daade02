"""C21: type mappings (spec/Types.tla, TypesGen.tla, TypesCheck.tla)"""
from .core import cfg
from .amf import ASSUME


def c21(run):
    n = run.scale(400, 4000)
    size = run.scale(20, 40)
    cs = run.generate(
        'TypesGen', cfg(['Clear', 'Undo', 'Expanded'], {
            'Strict': False, 'NOps': size}), run.tapes(n, 70 * size + 80))
    for i, c in enumerate(cs):
        c['id'] = i + 1
    run.distinct_of(cs)
    run.count('operations', sum(len(c['ops']) for c in cs))
    obs = run.harness('typemap.py', cs)
    run.sample(obs.get(1))
    run.judge('TypesCheck', cfg(constants={'Strict': False}),
              [obs[c['id']] for c in cs if c['id'] in obs],
              what=dict((c['id'], c) for c in cs))
    return ASSUME
