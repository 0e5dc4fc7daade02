"""C18: import hooks (spec/Imports.tla, ImportsGen.tla, ImportsCheck.tla)"""
from .core import cfg


def c18(run):
    n = run.scale(600, 6000)
    size = run.scale(10, 16)
    cs = run.generate(
        'ImportsGen', cfg(['PropOnce', 'PropWaits', 'PropAccounted', 'PropOrder'], {
            'NOps': size, 'MaxSteps': 600}), run.tapes(n, 1100))
    run.distinct_of(cs)
    run.count('steps', sum(c['steps'] for c in cs))
    obs = run.harness('hooks.py', cs)
    run.sample(obs.get(1))
    run.count('events', sum(len(o['ev']) for o in obs.values()))
    run.judge('ImportsCheck', cfg(['PropOnce']),
              [obs[c['id']] for c in cs if c['id'] in obs],
              what=dict((c['id'], c) for c in cs))
    return []
