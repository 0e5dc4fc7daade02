"""C16, C24: byte streams (spec/Stream.tla, spec/ByteArray.tla)"""
from .core import cfg
from .amf import ASSUME


def c16(run):
    const = {'Mode': '"tape"', 'Max': run.scale(3, 4), 'NOps': 40}
    n = run.scale(1200, 12000)
    cs = run.generate('StreamGen', cfg(
        ['Rules'], const, extra='PROPERTY TapeRules\nVIEW View\n'),
        run.tapes(n, 170))
    small = run.generate('StreamGen', cfg(
        ['Rules'], dict(const, Mode='"all"'), extra='VIEW View\n'))
    run.note('states_with_every_operation_tried', len(small))
    run.note('operations_tried_in_them', sum(len(c['tails']) for c in small))
    cs = cs + small
    for i, c in enumerate(cs):
        c['id'] = i + 1
    run.distinct_of(cs)
    obs = run.harness('stream.py', cs, procs=6)
    run.sample(obs.get(1))
    run.judge('StreamCheck', cfg(),
              [obs[c['id']] for c in cs if c['id'] in obs],
              what=dict((c['id'], c) for c in cs))
    return ASSUME


def c24(run):
    from .amf import gen
    import json
    nobj = 12
    n = run.scale(900, 8000)
    pool = [g for g in gen(run, 3, True, run.scale(400, 3000),
                           head=lambda r: [r.choice([4, 8, 16]), 1])
            if '"bad"' not in json.dumps(g)]
    cs = run.generate('ByteArrayGen', cfg(
        ['Rules'], {'NOps': 40, 'NObj': nobj, 'Long': False}),
        run.tapes(n, 220))
    cs += run.generate('ByteArrayGen', cfg(
        ['Rules'], {'NOps': 14, 'NObj': nobj, 'Long': True}),
        run.tapes(run.scale(16, 60), 80))
    for i, c in enumerate(cs):
        c['id'] = i + 1
    for c in cs:
        c['objs'] = [{'nd': g['nd'], 'out': g['out']}
                     for g in run.rnd.sample(pool, nobj)]
    run.distinct_of(cs)
    for k in ('w', 'read', 'travel'):
        run.note('operations_' + k, sum(
            1 for c in cs for o in c['ops'] if o['op'] == k))
    obs = run.harness('bytearr.py', cs)
    run.sample(obs.get(1))
    run.judge('ByteArrayCheck', cfg(constants={'Strict': False}),
              [obs[c['id']] for c in cs if c['id'] in obs],
              what=dict((c['id'], c) for c in cs))
    # the operations inherited from byte streams
    const = {'Mode': '"tape"', 'Max': 3, 'NOps': 40}
    cs = run.generate('StreamGen', cfg(
        ['Rules'], const, extra='PROPERTY TapeRules\nVIEW View\n'),
        run.tapes(run.scale(300, 3000), 170))
    obs = run.harness('stream.py', cs, env={'STREAM_CLASS': 'ByteArray'})
    run.judge('StreamCheck', cfg(),
              [obs[c['id']] for c in cs if c['id'] in obs],
              what=dict((c['id'], c) for c in cs))
    return ASSUME
