# -*- coding: utf-8 -*-
"""
Runs in Jython 2.7, with the code under test on the path.  Translates between
the abstract values of the specification (see spec/AMF.tla) and Python
objects.  Nothing here decides anything: verdicts come from the specification.
"""
import sys
import os
import json
import struct
import types
import datetime
import random
import hashlib
import traceback


def seed_of(i):
    # neighbouring seeds give Java's generator the same first numbers
    return int(hashlib.md5('%s' % (i,)).hexdigest()[:14], 16)


def seeded(i):
    return random.Random(seed_of(i))


REPO = os.environ.get('VERIF_REPO', '/repo')

if not os.path.exists(os.path.join(REPO, 'pyamf', '_version.py')):
    # generated by setup.py build
    _v = types.ModuleType('pyamf._version')

    class _Ver(tuple):
        def __str__(self):
            return '.'.join([str(x) for x in self])

    _v.version = _Ver((0, 8, 0))
    sys.modules['pyamf._version'] = _v

import pyamf
if '_v' in globals():
    pyamf._version = _v
from pyamf import amf0, amf3, util, codec
from pyamf import xml as pxml
from pyamf.flex import ArrayCollection, ObjectProxy


def b2l(s):
    return [ord(x) for x in s]


def l2b(l):
    return ''.join([chr(x) for x in l])


def d2l(f):
    """8 bytes of a float (computed without the code under test)"""
    return b2l(struct.pack('>d', f))


def l2d(l):
    return struct.unpack('>d', l2b(l))[0]


EPOCH = datetime.datetime(1970, 1, 1)


def date_ms(d):
    """milliseconds since the epoch as a double, exact when possible"""
    if not isinstance(d, datetime.datetime):
        d = datetime.datetime(d.year, d.month, d.day)
    t = d - EPOCH
    us = (t.days * 86400 + t.seconds) * 1000000 + t.microseconds

    if us % 1000 == 0:
        return float(us // 1000)
    return us / 1000.0


def ms_date(ms):
    assert ms == int(ms)
    return EPOCH + datetime.timedelta(milliseconds=int(ms))


def xml_text(e):
    """A plain serialisation of an element tree"""
    def esc(s):
        if isinstance(s, str):
            s = s.decode('utf-8')
        return s.replace(u'&', u'&amp;').replace(u'<', u'&lt;').replace(
            u'>', u'&gt;')

    r = u'<' + e.tag
    for k in sorted(e.attrib):
        r += u' %s="%s"' % (k, esc(e.attrib[k]).replace(u'"', u'&quot;').replace(
                u'\n', u'&#10;'))
    kids = list(e)
    if not e.text and not kids:
        r += u' />'
    else:
        r += u'>' + esc(e.text or u'')
        for k in kids:
            r += xml_text(k)
        r += u'</' + e.tag + u'>'
    return r + esc(e.tail or u'')


# ---------------------------------------------------------------- classes

class A(object):
    pass


class B(object):
    pass


class X(object):
    """externalizable: two values"""

    class __amf__:
        external = True

    def __init__(self, a=None, b=None):
        self.a = a
        self.b = b

    def __readamf__(self, inp):
        self.a = inp.readObject()
        self.b = inp.readObject()

    def __writeamf__(self, out):
        out.writeObject(self.a)
        out.writeObject(self.b)


def register_pool():
    pyamf.register_class(A, 't.A')
    pyamf.register_class(B, 't.B')
    pyamf.register_class(X, 't.X')


# alias -> class: w.000 to w.199 and v.000 to v.199 (static attributes)
WIDE = {}
WIDE_ALIAS = {}


def register_wide():
    if WIDE:
        return
    for i in range(200):
        names = ['s%03d' % k for k in range(1, i + 1)]
        for n, d in (('w', {}), ('v', {'__amf__': {'static': tuple(names)}})):
            alias = '%s.%03d' % (n, i)
            k = type('%s%03d' % (n, i), (object,), d)
            WIDE[alias] = k
            WIDE_ALIAS[k] = alias
            pyamf.register_class(k, alias)


AC_ALIAS = 'flex.messaging.io.ArrayCollection'
OP_ALIAS = 'flex.messaging.io.ObjectProxy'


def alias_of(klass):
    """the alias of a class as registered here (not asking the registry)"""
    return {A: 't.A', B: 't.B', X: 't.X',
            ArrayCollection: AC_ALIAS, ObjectProxy: OP_ALIAS}.get(
                klass, WIDE_ALIAS.get(klass))


XmlType = None


def is_elem(v):
    return hasattr(v, 'tag') and hasattr(v, 'attrib')


class Observer(object):
    """Python objects -> abstract values over a heap"""

    def __init__(self):
        self.nd = []
        self.ids = {}
        self.keep = []

    def node(self, k, c=''):
        n = {'k': k, 'c': b2l(c), 'e': [], 'd': [], 'b': []}
        self.nd.append(n)
        return n, len(self.nd)

    def key(self, k):
        if type(k) in (int, long):
            if abs(k) < 2 ** 31:
                return ['i', int(k)]
            return ['bigkey', str(k)]
        if isinstance(k, unicode):
            return ['k', b2l(k.encode('utf-8'))]
        if isinstance(k, str):
            return ['k', b2l(k)]
        return ['oddkey', repr(k)]

    def val(self, v):
        if v is None:
            return ['null']
        if v is pyamf.Undefined:
            return ['undef']
        t = type(v)
        if t is bool:
            return ['bool', v]
        if t in (int, long):
            if abs(v) < 2 ** 31:
                return ['int', int(v)]
            try:
                f = float(v)
            except OverflowError:
                return ['big', str(v)]
            if int(f) == v:
                return ['num', d2l(f)]
            return ['big', str(v)]
        if t is float:
            return ['num', d2l(v)]
        if t is unicode:
            return ['str', b2l(v.encode('utf-8'))]
        if t is str:
            # '' and u'' are equal
            return ['bstr' if v else 'str', b2l(v)]

        if id(v) in self.ids:
            return ['ref', self.ids[id(v)]]

        self.keep.append(v)

        def new(k, c=''):
            n, i = self.node(k, c)
            self.ids[id(v)] = i
            return n

        if isinstance(v, datetime.datetime):
            n = new('date')
            n['b'] = d2l(date_ms(v))
        elif is_elem(v):
            n = new('xml')
            n['b'] = b2l(xml_text(v).encode('utf-8'))
        elif t is amf3.ByteArray:
            n = new('ba')
            n['b'] = b2l(v.getvalue())
        elif t is ArrayCollection:
            n = new('ext', AC_ALIAS)
            n['d'] = [self.val(x) for x in list.__iter__(v)]
        elif t is ObjectProxy:
            n = new('ext', OP_ALIAS)
            n['d'] = [self.val(v.__dict__.get('_amf_object'))]
        elif t is X:
            n = new('ext', 't.X')
            n['d'] = [self.val(v.a), self.val(v.b)]
        elif t is list:
            n = new('list')
            n['d'] = [self.val(x) for x in v]
        elif t is pyamf.MixedArray:
            n = new('mixed')
            n['e'] = [[self.key(k), self.val(x)] for k, x in v.items()]
        elif t is pyamf.ASObject:
            n = new('obj')
            n['e'] = [[self.key(k), self.val(x)] for k, x in v.items()]
        elif t is pyamf.TypedObject:
            a = v.alias
            if isinstance(a, unicode):
                a = a.encode('utf-8')
            n = new('obj', a)
            n['e'] = [[self.key(k), self.val(x)] for k, x in v.items()]
        elif t in (A, B) or t in WIDE_ALIAS:
            n = new('obj', alias_of(t))
            n['e'] = [[self.key(k), self.val(x)]
                      for k, x in v.__dict__.items()]
        else:
            new('other', t.__module__ + '.' + t.__name__)
        return ['ref', self.ids[id(v)]]


def err_name(e):
    """how a codec reports that it cannot go on"""
    if isinstance(e, pyamf.EOStream):
        return 'eos'
    if isinstance(e, pyamf.ReferenceError):
        return 'ref'
    if isinstance(e, pyamf.UnknownClassAlias):
        return 'unk'
    if isinstance(e, pyamf.DecodeError):
        return 'dec'
    if isinstance(e, pyamf.EncodeError):
        return 'enc'
    if isinstance(e, IOError):
        return 'io'
    return e.__class__.__name__


class OldClass:
    pass


class Builder(object):
    """
    Abstract values over a heap -> Python objects. C{rnd} chooses among the
    Python types that stand for the same abstract value.
    """

    def __init__(self, nd, rnd=None):
        self.nd = nd
        self.rnd = rnd
        self.objs = {}
        self.done = set()

    def flip(self, n):
        return self.rnd is not None and self.rnd.randrange(n) == 0

    def text(self, b):
        s = l2b(b)
        if self.flip(3):
            return s
        return s.decode('utf-8')

    def key(self, k):
        if k[0] == 'i':
            return k[1]
        return self.text(k[1])

    def bad(self, kind):
        if kind == 'class':
            return A
        if kind == 'oldclass':
            return OldClass
        if kind == 'function':
            return lambda: None
        if kind == 'time':
            return datetime.time(1, 2, 3)
        if kind == 'builtin':
            return len

    def val(self, v):
        t = v[0]
        if t == 'null':
            return None
        if t == 'undef':
            return pyamf.Undefined
        if t == 'bool':
            return v[1]
        if t == 'int':
            return long(v[1]) if self.flip(4) else v[1]
        if t in ('num', 'num0'):
            f = l2d(v[1])
            if (f == f and abs(f) < 1e300 and f == int(f) and
                    not (f == 0 and v[1][0]) and
                    (t == 'num0' or not -2**28 <= f < 2**28) and
                    self.flip(3)):
                return int(f)
            return f
        if t == 'str':
            return self.text(v[1])
        if t == 'bad':
            return self.bad(v[1])
        assert t == 'ref', v
        return self.obj(v[1])

    def entries(self, n):
        r = [(k if k and k[0] in ('k', 'i') else ['k', k], x)
             for k, x in n['e']]
        if n['k'] == 'mixed':
            r += [(['i', i], x) for i, x in enumerate(n['d'])]
        return r

    def obj(self, i):
        if i in self.objs:
            return self.objs[i]
        n = self.nd[i - 1]
        k = n['k']
        c = l2b(n['c'])
        if k == 'date':
            o = self.objs[i] = ms_date(l2d(n['b']))
        elif k == 'xml':
            o = self.objs[i] = pxml.fromstring(l2b(n['b']))
        elif k == 'ba':
            o = self.objs[i] = amf3.ByteArray(l2b(n['b']))
        elif k == 'list':
            if self.flip(4) and not self.cyclic(i):
                o = self.objs[i] = tuple([self.val(x) for x in n['d']])
                return o
            o = self.objs[i] = []
            o.extend([self.val(x) for x in n['d']])
        elif k == 'mixed':
            o = self.objs[i] = pyamf.MixedArray()
            for key, x in self.entries(n):
                b = l2b(key[1]) if key[0] == 'k' else ''
                if b.lstrip('-').isdigit() and not self.flip(4):
                    o[int(b)] = self.val(x)
                else:
                    o[self.key(key)] = self.val(x)
        elif k == 'obj' and c == '':
            o = {} if self.flip(3) else pyamf.ASObject()
            self.objs[i] = o
            for key, x in self.entries(n):
                b = l2b(key[1]) if key[0] == 'k' else ''
                if b.isdigit() and str(int(b)) == b and self.flip(3):
                    o[int(b)] = self.val(x)
                else:
                    o[self.key(key)] = self.val(x)
        elif k == 'obj':
            o = self.objs[i] = (WIDE.get(c) or {'t.A': A, 't.B': B}[c])()
            for key, x in self.entries(n):
                setattr(o, l2b(key[1]), self.val(x))
        elif k == 'ext' and c == AC_ALIAS:
            o = self.objs[i] = ArrayCollection()
            inner = self.nd[n['d'][0][1] - 1]
            o.extend([self.val(x) for x in inner['d']])
        elif k == 'ext' and c == OP_ALIAS:
            o = self.objs[i] = ObjectProxy()
            o._amf_object = self.val(n['d'][0])
        elif k == 'ext' and c == 't.X':
            o = self.objs[i] = X()
            o.a = self.val(n['d'][0])
            o.b = self.val(n['d'][1])
        else:
            raise AssertionError(n)
        return o

    def cyclic(self, i):
        """can node i be reached from itself?"""
        seen = set()
        todo = [i]
        while todo:
            n = self.nd[todo.pop() - 1]
            for v in n['d'] + [x[1] for x in n['e']]:
                if v[0] == 'ref':
                    if v[1] == i:
                        return True
                    if v[1] not in seen:
                        seen.add(v[1])
                        todo.append(v[1])
        return False


def spec_view(nd):
    """
    The prescribed graph in the form in which graphs are observed: keys are
    tagged, wrapped lists are part of their collection.
    """
    r = []
    for n in nd:
        m = dict(n)
        m['e'] = [[['k', k], x] for k, x in n['e']]
        if n['k'] == 'mixed':
            m['e'] = m['e'] + [[['i', i], x] for i, x in enumerate(n['d'])]
            m['d'] = []
        if n['k'] == 'ext' and l2b(n['c']) == AC_ALIAS:
            m['d'] = nd[n['d'][0][1] - 1]['d']
        r.append(m)

    def num(v):
        return ['num', v[1]] if v[0] == 'num0' else v

    for m in r:
        m['e'] = [[k, num(x)] for k, x in m['e']]
        m['d'] = [num(x) for x in m['d']]
    return r


def read_cases(path):
    with open(path) as f:
        return [json.loads(l) for l in f]


class Out(object):
    def __init__(self, path):
        self.f = open(path, 'w')

    def put(self, o):
        self.f.write(json.dumps(o) + '\n')
        self.f.flush()

    def close(self):
        self.f.close()


def main(run):
    out = Out(sys.argv[2])
    for case in read_cases(sys.argv[1]):
        r = run(case)
        r['id'] = case['id']
        out.put(r)
    out.close()


def quiet_logging():
    import logging
    logging.disable(logging.CRITICAL)


quiet_logging()
