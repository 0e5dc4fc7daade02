"""
usage: typemap.py IN OUT.  Each line of IN is a history of adding and removing
type mappings and of encoding values of these types.
"""
from common import *
import array
import collections
import decimal
import sets
import weakref


class K1(object):
    pass


class K2(K1):
    pass


class K4(list):
    pass


class K5:
    pass


class K6(str):
    pass


CLASSES = {1: K1, 2: K2, 3: A, 4: K4, 5: K5, 6: K6}
NUMBER = dict((v, k) for k, v in CLASSES.items())


def number(x):
    return NUMBER[x.__class__]


class Mappings(object):
    """what mapping functions are given, by class"""

    def __init__(self):
        self.content = {}     # id of an object -> its content
        self.keep = []
        self.same = {}
        self.vals = {}

    def of(self, x):
        if isinstance(x, list):
            return list(x)
        return [getattr(x, 'a%d' % (i + 1)) for i in range(len(x.__dict__))]

    def func(self, conv):
        def f(x, encoder):
            c = self.of(x)
            if conv == 'list':
                return c if len(c) % 2 else tuple(c)
            if conv == 'self':
                encoder.writeElement(c)
                return
            if conv == 'dict':
                return dict(('a%d' % (i + 1), v) for i, v in enumerate(c))
            if conv == 'obj':
                o = B()
                for i, v in enumerate(c):
                    setattr(o, 'a%d' % (i + 1), v)
                return o
            if conv == 'text':
                return u'T%d' % number(x)
            if conv == 'int':
                return len(c)
            if conv == 'null':
                return None
            if conv == 'first':
                return c[0] if c else None
            if conv == 'same':
                return self.same.setdefault(number(x), [number(x)])
            if conv == 'bad':
                return K1
            if conv == 'raise':
                raise ValueError('no')
            raise AssertionError(conv)
        f.conv = conv
        return f


class Graph(object):
    def __init__(self, nd):
        self.nd = nd
        self.objs = {}
        self.keep = []

    def val(self, v):
        if v[0] == 'null':
            return None
        if v[0] in ('int', 'bool'):
            return v[1]
        if v[0] == 'str':
            s = l2b(v[1])
            return K6(s) if s == 'sub' else s.decode('utf-8')
        return self.obj(v[1])

    def named(self, o, vals):
        for i, v in enumerate(vals):
            o['a%d' % (i + 1)] = self.val(v)
        return o

    def obj(self, i):
        if i in self.objs:
            return self.objs[i]
        n = self.nd[i - 1]
        d = n['d']
        k = n['c'][0] if n['k'] == 'cust' else n['k']

        def new(o):
            self.objs[i] = o
            return o

        if k == 'list':
            o = new([])
            o.extend([self.val(x) for x in d])
        elif k == 'obj':
            o = new({})
            for key, x in n['e']:
                o[l2b(key[1])] = self.val(x)
        elif k in (1, 2, 3, 5):
            o = new(CLASSES[k]())
            for j, x in enumerate(d):
                setattr(o, 'a%d' % (j + 1), self.val(x))
        elif k == 4:
            o = new(K4())
            o.extend([self.val(x) for x in d])
        elif k in (11, 12):
            o = new((sets.Set if k == 11 else sets.ImmutableSet)(
                [self.val(x) for x in d]))
        elif k == 13:
            o = new(collections.deque())
            o.extend([self.val(x) for x in d])
        elif k == 14:
            o = self.named(new(collections.defaultdict(int)), d)
        elif k == 15:
            o = self.named(new(collections.OrderedDict()), d)
        elif k == 16:
            o = self.named(new(collections.Counter()), d)
        elif k == 17:
            o = new(array.array('i', [self.val(x) for x in d]))
        elif k == 18:
            o = new(decimal.Decimal('1.5'))
        elif k == 19:
            o = new(weakref.ref(self.val(d[0])))
        elif k == 20:
            o = self.named(new(weakref.WeakValueDictionary()), d)
        elif k == 21:
            o = new(weakref.WeakSet([self.val(x) for x in d]))
        return o


class Hist(object):
    def __init__(self, case):
        self.maps = Mappings()
        self.funcs = {}
        self.tests = {}

    def key(self, k, how):
        if k[0] == 'junk':
            return 5
        if k[0] == 'type':
            return CLASSES[k[1]]
        if k[0] == 'test':
            c = CLASSES[k[1]]
            return self.tests.setdefault(
                k[1], lambda x: getattr(x, '__class__', None) is c and ['yes']
                or None)
        t = [CLASSES[x] for x in k[1:]]
        return t if how == 1 else tuple(t)

    def step(self, o):
        op = o['op']
        if op == 'encode':
            return self.encode(o)
        try:
            k = self.key(o['key'], o['how'])
            if op == 'add':
                r = pyamf.add_type(k, self.maps.func(o['conv']))
            elif op == 'get':
                r = pyamf.get_type(k)
            else:
                r = pyamf.remove_type(k)
        except:
            return sys.exc_info()[1].__class__.__name__
        return r.conv if hasattr(r, 'conv') else str(r)

    def encode(self, o):
        g = Graph(o['nd'])
        vals = [g.val(x) for x in o['vals']]
        kw = {}
        if o['v'] == 4:
            kw['use_amf3'] = True
        self.maps.same = {}
        try:
            if o['how'] == 0:
                b = pyamf.encode(*vals, encoding=o['v'] % 4, **kw)
            elif o['how'] == 1:
                e = pyamf.get_encoder(o['v'] % 4, **kw)
                for x in vals:
                    e.writeElement(x)
                b = e.stream
            else:
                e = pyamf.get_encoder(o['v'] % 4, **kw)
                for x in vals:
                    e.send(x)
                return {'inp': b2l(''.join(list(e))), 'err': ''}
            return {'inp': b2l(b.getvalue()), 'err': ''}
        except:
            return {'inp': [], 'err': err_name(sys.exc_info()[1])}


def run(case):
    before = dict(pyamf.TYPE_MAP)
    h = Hist(case)
    try:
        res = [h.step(o) for o in case['ops']]
    finally:
        pyamf.TYPE_MAP.clear()
        pyamf.TYPE_MAP.update(before)
    return {'ops': case['ops'], 'res': res}


if __name__ == '__main__':
    register_pool()
    main(run)
