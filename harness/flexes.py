# -*- coding: utf-8 -*-
"""
C17: collections, proxies, wrapped graphs and messages (spec/Flex.tla).
"""
from common import *
import uuid
from pyamf import flex
from pyamf.flex import messaging


def atom(v):
    if v is None:
        return ['null']
    if isinstance(v, bool):
        return ['bool', v]
    if isinstance(v, (int, long)):
        return ['int', int(v)]
    if isinstance(v, unicode):
        return ['str', b2l(v.encode('utf-8'))]
    if isinstance(v, str):
        return ['str', b2l(v)]
    return ['other', repr(v)]


def encoded(obj, v, res=None):
    res = {'inp': [], 'err': '', 'nd': [], 'out': []}
    try:
        b = pyamf.encode(obj, encoding=v).getvalue()
        res['inp'] = b2l(b)
        o = Observer()
        res['out'] = [o.val(x) for x in pyamf.decode(b, encoding=v)]
        res['nd'] = o.nd
    except Exception, e:
        res['err'] = err_name(e)
    return res


class Coll(object):
    def __init__(self):
        self.b = Builder([])
        self.a = ArrayCollection()

    def step(self, o):
        try:
            return self.do(o, o['op'])
        except Exception, e:
            return ['err', e.__class__.__name__]

    def do(self, o, op):
        x = self.b.val(o['x']) if 'x' in o else None
        i = o.get('i')
        if op == 'new':
            q = [self.b.val(y) for y in o['q']]
            src = o['src']
            if src == 'none':
                self.a = ArrayCollection()
            else:
                q = {'list': q, 'tuple': tuple(q), 'dict': {'a': 1}, 'number': 5,
                     'coll': ArrayCollection(q), 'generator': (y for y in q)}[src]
                self.a = ArrayCollection(q)
            return ['null']
        elif op == 'encode':
            return encoded(self.a, o['v'])
        elif op in ('toArray', 'list'):
            r = self.a.toArray() if op == 'toArray' else self.a
            return ['all', [atom(y) for y in list(r)]]
        elif op == 'length':
            if len(self.a) != self.a.length:
                return ['other', 'length']
            return atom(self.a.length)
        elif op == 'setLength':
            self.a.length = 3
            return ['null']
        elif op == 'contains':
            return atom(x in self.a)
        elif op in ('addItemAt', 'setItemAt'):
            return atom(getattr(self.a, op)(x, i))
        elif op in ('getItemAt', 'removeItemAt'):
            return atom(getattr(self.a, op)(i))
        elif op == 'removeAll':
            return atom(self.a.removeAll())
        return atom(getattr(self.a, op)(x))


class Proxy(object):
    def __init__(self):
        self.b = Builder([])
        self.p = None

    def step(self, o):
        try:
            return self.do(o, o['op'])
        except Exception, e:
            return ['err', e.__class__.__name__]

    def do(self, o, op):
        if op == 'wrap':
            attrs = dict((l2b(k[1]), self.b.val(x)) for k, x in o['a'])
            if o['c']:
                inner = A()
                inner.__dict__.update(attrs)
            else:
                inner = pyamf.ASObject(attrs)
            if o['how'] == 'given':
                self.p = ObjectProxy(inner)
            else:
                self.p = ObjectProxy()
                self.p._amf_object = inner
            self.inner = inner
            return ['null']
        elif op == 'encode':
            return encoded(self.p, o['v'])
        elif op == 'inner':
            x = self.inner
            if self.p._amf_object is not x:
                return ['other', 'object']
            d = x if isinstance(x, dict) else x.__dict__
            return ['attrs', [[['k', b2l(k)], atom(y)] for k, y in d.items()]]
        elif op == 'box':
            x = o['x']
            if x[0] == 'l':
                x = [self.b.val(y) for y in x[1]]
                if o['v'] == 3 and len(x) % 2:
                    x = tuple(x)
            else:
                x = self.b.val(x)
            p = ObjectProxy(x)
            if x is None:
                p._amf_object = x
            return encoded(p, o['v'])
        elif op in ('proxied', 'unproxied'):
            x = {'list': [1], 'tuple': (), 'dict': {}, 'number': 0,
                 'asobject': pyamf.ASObject(a=1), 'text': u'',
                 'mixed': pyamf.MixedArray(), 'typed': A(), 'none': None,
                 'coll': ArrayCollection([1, 2]),
                 'proxy': ObjectProxy({})}[o['x']]
            if op == 'proxied':
                y = flex.proxy_object(x)
                if type(y) is ArrayCollection and y is not x and \
                        list(y) == list(x):
                    return ['is', 'new coll']
                if type(y) is ObjectProxy and y._amf_object is x:
                    return ['is', 'new proxy']
            else:
                y = flex.unproxy_object(x)
                if type(y) is list and y is not x and y == list(x):
                    return ['is', 'new list']
                if isinstance(x, ObjectProxy) and y is x._amf_object:
                    return ['is', 'within']
            return ['is', 'same' if y is x else repr(y)]
        elif op == 'set':
            setattr(self.p, l2b(o['k']), self.b.val(o['x']))
            return ['null']
        elif op == 'get':
            return atom(getattr(self.p, l2b(o['k'])))


def graph(g):
    res = {'inp': [], 'err': '', 'nd': [], 'out': [], 'ndp': [], 'outp': []}

    class Plain(Builder):
        def obj(self, i):
            if i not in self.objs and self.nd[i - 1]['k'] == 'obj' and not self.nd[i - 1]['c'] \
                    and g['dict'] != 'asobject':
                o = self.objs[i] = {} if g['dict'] == 'dict' else pyamf.MixedArray()
                for key, x in self.entries(self.nd[i - 1]):
                    o[self.key(key)] = self.val(x)
                return o
            return Builder.obj(self, i)

    b = Plain(g['nd'])
    vals = [b.val(v) for v in g['vals']]
    before = amf3.use_proxies_default
    try:
        try:
            if g['how'] == 'default':
                amf3.use_proxies_default = True
                kw = {}
            else:
                kw = {'use_proxies': True}
            s = pyamf.encode(*vals, encoding=3, **kw).getvalue()
            res['inp'] = b2l(s)
            o = Observer()
            res['out'] = [o.val(x) for x in list(pyamf.decode(s, encoding=3, **kw))]
            res['nd'] = o.nd
            o = Observer()
            res['outp'] = [o.val(x) for x in list(pyamf.decode(s, encoding=3, use_proxies=False))]
            res['ndp'] = o.nd
        except Exception, e:
            res['err'] = err_name(e)
    finally:
        amf3.use_proxies_default = before
    return res


CLASSES = {'Async': messaging.AsyncMessage, 'Ack': messaging.AcknowledgeMessage,
           'Command': messaging.CommandMessage, 'Error': messaging.ErrorMessage,
           'Remoting': messaging.RemotingMessage}


def messages(g):
    res = {'inp': [], 'err': '', 'nd': [], 'back': []}
    b = Builder(g['nd'])

    def value(v):
        return uuid.UUID(bytes=l2b(v[1])) if v[0] == 'uuid' else b.val(v)

    try:
        msgs = [CLASSES[m['k']](**dict((k, value(v)) for k, v in m['a'].items())) for m in g['msgs']]
        if g['small']:
            msgs = [m.getSmallMessage() for m in msgs]
        s = pyamf.encode(*msgs, encoding=3).getvalue()
        res['inp'] = b2l(s)
        o = Observer()
        for m in list(pyamf.decode(s, encoding=3)):
            k = m.__class__.__name__.replace('Message', '').replace('Acknowledge', 'Ack')
            a = {}
            for x, v in m.__dict__.items():
                if type(v) is dict:
                    v = pyamf.ASObject(v)
                a[x] = ['uuid', b2l(v.bytes)] if isinstance(v, uuid.UUID) else o.val(v)
            res['back'].append({'k': k, 'a': a})
        res['nd'] = o.nd
    except Exception, e:
        traceback.print_exc()
        res['err'] = err_name(e)
    return res


def run(case):
    k = case['kind']
    if k in ('coll', 'proxy'):
        h = {'coll': Coll, 'proxy': Proxy}[k]()
        case['res'] = [h.step(o) for o in case['ops']]
    elif k == 'graph':
        case['res'] = graph(case['g'])
    else:
        case['res'] = messages(case['g'])
    return case


if __name__ == '__main__':
    register_pool()
    main(run)
