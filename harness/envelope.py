"""
usage: envelope.py IN OUT.  Each line of IN is a case with an 'op':
  enc   build the envelope by the given operations and encode it
  dec   decode the bytes and observe the envelope
"""
from common import *
from pyamf import remoting


def utf8(s):
    if isinstance(s, unicode):
        s = s.encode('utf-8')
    return b2l(s)


class EnvObserver(Observer):
    """knows faults too"""

    def val(self, v):
        if type(v) in (remoting.ErrorFault, remoting.BaseFault):
            if id(v) not in self.ids:
                self.keep.append(v)
                n, i = self.node('obj', type(v).__name__[0])
                self.ids[id(v)] = i
                n['e'] = [[['k', b2l(k)], self.val(getattr(v, k))]
                          for k in ('code', 'type', 'details', 'description')]
            return ['ref', self.ids[id(v)]]
        return Observer.val(self, v)


def name(b, l):
    u = l2b(l).decode('utf-8')
    if max([0] + l) < 128 and b.flip(3):
        return str(u)
    return u


def decode(case):
    err = ''
    kw = {}
    if case.get('strict'):
        kw['strict'] = True
    data = l2b(case['inp'])
    try:
        env = remoting.decode(
            util.BufferedByteStream(data) if case['id'] % 2 else data, **kw)
    except:
        err = err_name(sys.exc_info()[1])
        env = remoting.Envelope(0)
    o = EnvObserver()
    hs = []
    bs = []
    for k in env.headers:
        hs.append({'name': utf8(k), 'req': bool(env.headers.is_required(k)),
                   'val': o.val(env.headers[k])})
    for k, m in env:
        q = isinstance(m, remoting.Request)
        bs.append({
            'id': utf8(k), 'kind': 'req' if q else 'res',
            'target': utf8(m.target) if q else [],
            'status': 0 if q else m.status,
            'vals': [o.val(x) for x in (m.body if q and isinstance(
                m.body, (list, tuple)) else [m.body])]})
        if m.envelope is not env:
            err = 'a body does not know its envelope'
    l = [k for k, m in env]
    if len(env) != len(l) or list(env.keys()) != l or \
            [k for k, m in env.items()] != l or \
            [k for k, m in env.iteritems()] != l or \
            [k for k in l if k not in env or env[k] is not dict(
                env.items())[k]] or \
            len(env.headers) != len(hs) or bool(env) != bool(l or hs):
        err = 'an envelope contradicts itself'
    return {'v': env.amfVersion, 'hs': hs, 'bs': bs, 'nd': o.nd, 'err': err}


def encode(case):
    rnd = seeded(case['id'])
    b = Builder(case['nd'], rnd)
    vals = [b.val(x) for x in case['out']]
    env = remoting.Envelope(case['v'])
    kw = {}
    if case.get('strict'):
        kw['strict'] = True
    for o in case['ops']:
        if o['op'] == 'head':
            env.headers[name(b, o['name'])] = vals[o['val'] - 1]
        elif o['op'] == 'req':
            k = l2b(o['name']).decode('utf-8')
            if k in env.headers:
                if o['on'] and rnd.randrange(2):
                    env.headers.set_required(k)
                else:
                    env.headers.set_required(k, o['on'])
        else:
            k = name(b, o['id'])
            v = [vals[i - 1] for i in o['vals']]
            if o['kind'] == 'req':
                m = remoting.Request(name(b, o['target']), body=tuple(v) if b.flip(4) else v)
            elif o['kind'] == 'res':
                m = remoting.Response(v[0], o['status'])
            else:
                m = remoting.Response(remoting.ErrorFault(
                    code=v[0], type=v[1], details=v[2], description=v[3]),
                    remoting.STATUS_ERROR)
            env[k] = m
    err = ''
    inp = []
    try:
        inp = b2l(remoting.encode(env, **kw).getvalue())
    except:
        err = err_name(sys.exc_info()[1])
    out = [['num', x[1]] if x[0] == 'num0' else x for x in case['out']]
    return {'v': case['v'], 'ops': case['ops'], 'out': out,
            'nd': spec_view(case['nd']), 'inp': inp, 'err': err}


def run(case):
    if case['op'] == 'enc':
        r = encode(case)
    else:
        r = decode(case)
        r['inp'] = case['inp']
    r['mode'] = case['op']
    return r


if __name__ == '__main__':
    register_pool()
    main(run)
