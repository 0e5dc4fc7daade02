"""numbers given to several encoders in turn (spec/Num.tla)"""
from common import *


def make(x):
    ty, v = x['ty'], x['v']
    f = v[1] if v[0] == 'int' else l2d(v[1])
    return {'int': int, 'long': long, 'float': float, 'bool': bool}[ty](f)


def show(v):
    if v is True or v is False:
        return {'ty': 'bool', 'v': ['int', int(v)]}
    if type(v) in (int, long):
        if abs(v) < 2 ** 31:
            return {'ty': 'int', 'v': ['int', int(v)]}
        return {'ty': 'int', 'v': ['num', d2l(float(v))]}
    if type(v) is float:
        return {'ty': 'float', 'v': ['num', d2l(v)]}
    return {'ty': type(v).__name__, 'v': ['num', [0] * 8]}


def run(case):
    proto = [3, 3, 0, 0]
    encs = [pyamf.get_encoder(p) for p in proto]
    h = []
    dead = set()
    for step in case['h']:
        s = dict(step, err='', w=[], back=show(None))
        if s['e'] in dead:
            # (the failure has been recorded)
            continue
        e = encs[s['e']]
        at = len(e.stream)
        try:
            e.writeElement(make(s['x']))
            s['w'] = b2l(e.stream.getvalue()[at:])
        except:
            s['err'] = err_name(sys.exc_info()[1])
            dead.add(s['e'])
        h.append(s)
    for i in range(4):
        try:
            d = pyamf.get_decoder(proto[i], encs[i].stream.getvalue())
            for s in h:
                if s['e'] == i:
                    s['back'] = show(d.readElement())
        except:
            pass
    return {'h': h}


if __name__ == '__main__':
    main(run)
