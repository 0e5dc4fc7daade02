"""C11, C12, C13: the gateways (spec/Gateway.tla)"""
from .core import cfg


def histories(run, what, n, nops, mix):
    cases = run.generate('GatewayGen', cfg(
        ['Rules'], {'NOps': nops, 'HttpMix': mix}),
        run.tapes(n, 8 + 60 * nops))
    for i, c in enumerate(cases):
        c['id'] = i + 1
    run.distinct_of(cases)
    obs = run.harness('gateway.py', cases)
    run.sample(obs.get(1))
    run.judge('GatewayCheck', cfg(constants={'What': '"%s"' % what}),
              [obs[c['id']] for c in cases if c['id'] in obs],
              what=dict((c['id'], c) for c in cases))
    for k in ('batch', 'add', 'rmname', 'rmsvc', 'method', 'broken'):
        run.count('operations_' + k, sum(
            1 for c in cases for o in c['ops'] if o['op'] == k))
    run.count('requests', sum(len(o['xs']) for c in cases for o in c['ops']
                              if o['op'] == 'batch'))


ASSUME = [
    'Jython 2.7 stands for CPython 2.7; Django 1.8 runs under it',
    'the messages are written and read by the library (C10 says what for)',
]


def c11(run):
    histories(run, 'C11', run.scale(700, 6000), 12, False)
    return ASSUME


def c12(run):
    histories(run, 'C12', run.scale(700, 6000), 12, False)
    return ASSUME


def c13(run):
    histories(run, 'C13', run.scale(700, 6000), 12, True)
    return ASSUME
