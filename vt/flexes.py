"""C17: Flex types (spec/Flex.tla, FlexGen.tla, FlexCheck.tla)"""
from .core import cfg
from .amf import ASSUME

EXTRA = "CONSTANTS\n  Registered <- FlexRegistered\n  DateOk <- AnyDate\n"


def c17(run):
    n = run.scale(900, 9000)
    cs = run.generate(
        'FlexGen', cfg(['Undo', 'Found'], {'Strict': False, 'NOps': run.scale(25, 60)}, extra=EXTRA),
        run.tapes(n, 1000))
    run.distinct_of(cs)
    run.count('operations', sum(len(c['ops']) for c in cs))
    run.count('graphs', sum(c['kind'] == 'graph' for c in cs))
    run.count('messages', sum(len(c['g']['msgs']) for c in cs if c['kind'] == 'msg'))
    obs = run.harness('flexes.py', cs)
    run.sample(obs.get(1))
    run.judge('FlexCheck', cfg(constants={'Strict': False}, extra=EXTRA),
              [obs[c['id']] for c in cs if c['id'] in obs],
              what=dict((c['id'], c) for c in cs))
    return ASSUME
