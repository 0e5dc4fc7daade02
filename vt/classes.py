"""C08, C09: classes (spec/Attrs.tla, spec/Registry.tla)"""
from .core import cfg
from .amf import ASSUME


def c08(run):
    const = {'Strict': False, 'NC': 4, 'NOps': 8, 'Mode': '"tape"'}
    n = run.scale(1500, 12000)
    cs = run.generate('AttrsGen', cfg(['Rules'], const), run.tapes(n, 180))
    run.note('hierarchies_outside_the_domain',
             sum(1 for c in cs if 'skip' in c))
    cs = [c for c in cs if 'skip' not in c]
    small = run.generate('AttrsGen', cfg(['Rules'], dict(
        const, Mode='"all"')))
    run.note('all_ways_to_declare_a_name_in_a_class_and_its_base', len(small))
    small = [c for c in small if 'skip' not in c]
    cs = cs + small
    for i, c in enumerate(cs):
        c['id'] = i + 1
    run.distinct_of(cs)
    run.count('instances_sent', sum(
        len(o['is']) for c in cs for o in c['ops'] if o['op'] == 'enc'))
    run.count('instances_received', sum(
        len(o['is']) for c in cs for o in c['ops'] if o['op'] == 'dec'))
    obs = run.harness('attrs.py', cs)
    run.sample(obs.get(1))
    run.judge('AttrsCheck', cfg(constants={'Strict': False}),
              [obs[c['id']] for c in cs if c['id'] in obs],
              what=dict((c['id'], c) for c in cs))
    return ASSUME


def c09(run):
    const = {'Mode': '"tape"', 'Max': 0, 'NOps': 30}
    cs = run.generate('RegistryGen', cfg(
        ['Rules'], const, extra='PROPERTY TapeRules\nVIEW View\n'),
        run.tapes(run.scale(1500, 12000), 130))
    small = run.generate('RegistryGen', cfg(['Rules'], dict(
        const, Mode='"allA"', Max=run.scale(4, 6)), extra='VIEW View\n'))
    small += run.generate('RegistryGen', cfg(['Rules'], dict(
        const, Mode='"allB"', Max=run.scale(3, 5)), extra='VIEW View\n'))
    run.note('states_with_every_operation_tried', len(small))
    run.note('operations_tried_in_them', sum(len(c['tails']) for c in small))
    cs = cs + small
    for i, c in enumerate(cs):
        c['id'] = i + 1
    run.distinct_of(cs)
    obs = run.harness('registry.py', cs, procs=6)
    run.sample(obs.get(1))
    run.judge('RegistryCheck', cfg(),
              [obs[c['id']] for c in cs if c['id'] in obs],
              what=dict((c['id'], c) for c in cs))
    return ASSUME
