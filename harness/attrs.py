"""class hierarchies with attribute rules (spec/Attrs.tla)"""
from common import *
from pyamf.flex import ArrayCollection

ALIAS = ['t.A', 't.B', 't.C', 't.D']
NAMES = ['a', 'b', 'c', 'p', 'q', 's1', 's2', 's3', 'y', 'z']
store = {}
keep = []


def prop(n, rw):
    def get(self):
        return store.get((id(self), n), n + '!')

    def put(self, v):
        store[id(self), n] = v
    return property(get, put) if rw else property(get)


def build(case):
    rnd = seeded(case['id'])
    made = []
    for i, c in enumerate(case['cls']):
        d = {}
        m = {}
        for k, n in (('st', 'static'), ('ex', 'exclude'), ('ro', 'readonly')):
            if c[k]:
                m[n] = tuple([str(x) for x in c[k]])
                if rnd.randrange(2):
                    m[n] = list(m[n])
        if c['px']:
            m['proxy'] = [str(x) for x in c['px']]
        if c['amf3']:
            m['amf3'] = True
        if c['dyn']:
            m['dynamic'] = c['dyn'] == 'yes'
        if c['syn']:
            m['synonym'] = dict((str(a), str(b)) for a, b in c['syn'])
        if rnd.randrange(2):
            d['__amf__'] = m
        else:
            d['__amf__'] = type('__amf__', (object,), m)
        if c['has_slots']:
            d['__slots__'] = tuple([str(x) for x in c['slots']])
        for n in c['rw']:
            d[str(n)] = prop(str(n), True)
        for n in c['rd']:
            d[str(n)] = prop(str(n), False)
        bases = tuple([made[b - 1] for b in (c['p'], c['q']) if b])
        made.append(type('C%d' % (i + 1), bases or (object,), d))
    return made


def slots_of(klass):
    r = []
    for k in klass.__mro__:
        r.extend(k.__dict__.get('__slots__', ()))
    return r


def do_enc(made, o):
    e = pyamf.get_encoder(o['v'])
    for one in o['is']:
        klass = made[one['i'] - 1]
        x = klass()
        for n in slots_of(klass):
            setattr(x, n, unicode(n) + u'!')
        for n in one['have']:
            v = unicode(n) + u'!'
            setattr(x, str(n), [v] if n in o['kl'] else v)
        for n in o['kl']:
            if n in slots_of(klass):
                raise ValueError(n)
        e.writeElement(x)
        keep.append(x)
    return {'inp': b2l(e.stream.getvalue())}


def look(klass, x):
    got = {}
    if hasattr(x, '__dict__'):
        got.update(x.__dict__)
    for n in slots_of(klass):
        if hasattr(x, n):
            got[n] = getattr(x, n)
    for (i, n), v in store.items():
        if i == id(x):
            got[n] = v
    r = []
    for n in sorted(got):
        v = got[n]
        k = 'str'
        if isinstance(v, ArrayCollection):
            k = 'ac'
        elif type(v) is list:
            k = 'list'
        if k != 'str':
            v = v[0] if len(v) == 1 else None
        if isinstance(v, unicode):
            v = v.encode('utf-8')
        r.append([n, b2l(v) if isinstance(v, str) else [0], k])
    return r


def do_dec(made, o):
    klass = made[o['i'] - 1]
    d = pyamf.get_decoder(o['v'], l2b(o['inp']))
    r = []
    for one in o['is']:
        x = d.readElement()
        if type(x) is not klass:
            return {'err': 'another class'}
        keep.append(x)
        r.append(look(klass, x))
    return {'got': r}


def run(case):
    made = build(case)
    for k, c, a in zip(made, case['cls'], ALIAS):
        if c['reg']:
            pyamf.register_class(k, a)
    ops = []
    late = [i for i, c in enumerate(case['cls']) if not c['reg']]
    try:
        for o in case['ops']:
            o = dict(o, err='')
            o.setdefault('inp', [])
            o.setdefault('got', [])
            for i in ([x['i'] for x in o['is']] if o['op'] == 'enc'
                      else [o['i']]):
                if i - 1 in late:
                    # it becomes registered only now
                    try:
                        pyamf.unregister_class(made[i - 1])
                    except pyamf.UnknownClassAlias:
                        pass
                    pyamf.register_class(made[i - 1], ALIAS[i - 1])
            store.clear()
            del keep[:]
            try:
                o.update((do_enc if o['op'] == 'enc' else do_dec)(made, o))
            except:
                o['err'] = err_name(sys.exc_info()[1])
            ops.append(o)
    finally:
        for k in made:
            try:
                pyamf.unregister_class(k)
            except:
                pass
    return {'cls': case['cls'], 'ops': ops}


if __name__ == '__main__':
    main(run)
