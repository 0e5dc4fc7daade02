# -*- coding: utf-8 -*-
"""the registry of class aliases (spec/Registry.tla)"""
import struct

from common import *

BASE = (dict(pyamf.CLASS_CACHE), set(pyamf.CLASS_LOADERS),
        dict(pyamf.ALIAS_TYPES))


def uni(a):
    return a.replace('nonascii.', u'\xe9\u20ac.')


def ascii(a):
    if isinstance(a, str):
        a = a.decode('utf-8')
    return a.replace(u'\xe9\u20ac.', u'nonascii.').encode('utf-8')


class World(object):
    def __init__(self, rnd):
        self.rnd = rnd
        pyamf.CLASS_CACHE.clear()
        pyamf.CLASS_CACHE.update(BASE[0])
        pyamf.CLASS_LOADERS.clear()
        pyamf.CLASS_LOADERS.update(BASE[1])
        pyamf.ALIAS_TYPES.clear()
        pyamf.ALIAS_TYPES.update(BASE[2])

        def new(name, mod=None, **kw):
            d = dict(kw)
            if mod:
                d['__module__'] = mod
            return type(name, (object,), d)

        class K3:
            pass

        class O:
            __module__ = 'vpkg'

        self.used = []
        amf = {'alias': 'm.D'}
        if rnd.randrange(2):
            amf = type('__amf__', (), amf)
        self.k = [new('K1'), new('K2'), K3, new('K4', __amf__=amf),
                  new('M', 'vmod'), new('Q', 'vmod'), new('L1'), new('L2'),
                  new('N', 'vpkg'), O]
        self.k.append(type('K11', (self.k[0],), {}))
        self.s = [self.alias_type(1), self.alias_type(2)]
        vmod = types.ModuleType('vmod')
        vmod.M = self.k[4]
        vmod.R = pyamf.ClassAlias(self.k[5], 'vmod.R')
        vmod.f = lambda: None
        sys.modules['vmod'] = vmod
        g = pyamf.ClassAlias(self.k[7], 'l.G')
        offers = {1: ('l.F', self.k[6]), 2: ('l.G', g), 3: ('l.X', 42),
                  4: ('l.Y', None), 5: ('?', None)}

        def loader(n):
            def load(alias):
                self.used.append(n)
                a, x = offers[n]
                if ascii(alias) == a:
                    if n == 4:
                        raise ValueError('no')
                    return x
            return load
        self.loaders = dict((n, loader(n)) for n in range(1, 6))

    def alias_type(self, n):
        class S(pyamf.ClassAlias):
            def getEncodableAttributes(self, obj, **kw):
                r = pyamf.ClassAlias.getEncodableAttributes(self, obj, **kw)
                r['t'] = n
                return r

            def applyAttributes(self, obj, attrs, **kw):
                pyamf.ClassAlias.applyAttributes(self, obj, attrs, **kw)
                obj.t = n
        return S

    def num(self, klass):
        for i, k in enumerate(self.k):
            if k is klass:
                return i + 1
        return 99

    def tell(self, x):
        if not isinstance(x, pyamf.ClassAlias):
            return [99]
        t = 0
        for i, s in enumerate(self.s):
            if type(x) is s:
                t = i + 1
        return [self.num(x.klass), '' if x.anonymous else ascii(x.alias), t]

    def key(self, a):
        """an alias as it may be given"""
        a = uni(a)
        if isinstance(a, unicode) and self.rnd.randrange(2) and \
                a.encode('utf-8') == ascii(a):
            return a.encode('utf-8')
        return a

    def package(self, o):
        d = {'__name__': 'vpkg', 'K1': self.k[0], 'N': self.k[8],
             'O': self.k[9], 'f': lambda: None, 'n': 3, 's': 'x'}
        if o['all']:
            d['__all__'] = [str(o['all'])]
        kw = {}
        if o['sep'] != '.' or self.rnd.randrange(2):
            kw['separator'] = str(o['sep'])
        if o['ignore'] or self.rnd.randrange(2):
            kw['ignore'] = [str(x) for x in o['ignore']]
        if not o['strict'] or self.rnd.randrange(2):
            kw['strict'] = o['strict']
        pkg = str(o['pkg'])
        if o['kind'] == 'frame':
            d['call'] = lambda f: f
            d['pyamf'] = pyamf
            d['kw'] = kw
            if self.rnd.randrange(2):
                exec ('def call(): pass\n'
                      'result = pyamf.register_package(%r, **kw)' % pkg) in d
            else:
                exec ('result = pyamf.register_package(package=%r, **kw)' %
                      pkg) in d
            return d['result']
        if pkg:
            kw['package'] = pkg
        if o['kind'] == 'module':
            m = types.ModuleType('vpkg')
            m.__dict__.update(d)
        elif o['kind'] == 'dict':
            m = d
        else:
            m = [self.k[0], self.k[8], 3, self.k[9]]
        return pyamf.register_package(m, **kw)

    def do(self, o):
        op = o['op']
        if 'c' in o:
            klass = self.k[o['c'] - 1]
        if op == 'reg':
            if o['a'] == '':
                x = pyamf.register_class(klass)
            else:
                a = uni(o['a'])
                if self.rnd.randrange(2):
                    a = a.encode('utf-8')
                x = pyamf.register_class(klass, a)
            return self.tell(x)
        if op == 'unregA':
            return self.tell(pyamf.unregister_class(self.key(o['a'])))
        if op == 'unregC':
            return self.tell(pyamf.unregister_class(klass))
        if op == 'getA':
            f = pyamf.get_class_alias
            if self.rnd.randrange(3) == 0:
                f = pyamf.load_class
            return self.tell(f(self.key(o['a'])))
        if op == 'getC':
            return self.tell(pyamf.get_class_alias(klass))
        if op == 'dec':
            a = uni(o['a']).encode('utf-8')
            if o['v'] == 3:
                d = '\x0a\x0b' + chr(len(a) * 2 + 1) + a + \
                    '\x03x\x04\x01\x01'
            else:
                d = '\x10\0' + chr(len(a)) + a + \
                    '\0\1x\0\x3f\xf0\0\0\0\0\0\0\0\0\x09'
            x = pyamf.get_decoder(o['v'], d, strict=o['strict']).readElement()
            if type(x) is pyamf.TypedObject:
                if dict(x) != {'x': 1}:
                    return [99]
                return [0, ascii(x.alias)]
            t = x.__dict__.pop('t', 0)
            if x.__dict__ != {'x': 1}:
                return [99]
            return [self.num(x.__class__), t]
        if op == 'enc':
            x = klass()
            x.x = 1
            d = pyamf.encode(x, encoding=o['v']).getvalue()
            t = 0
            for n in (1, 2):
                if o['v'] == 3 and '\x03t\x04' + chr(n) in d or \
                        o['v'] == 0 and '\0\1t\0' + struct.pack('>d', n) in d:
                    t = n
            if o['v'] == 3:
                assert d[:2] == '\x0a\x0b', repr(d)
                n = ord(d[2])
                return [ascii(d[3:3 + n // 2]), t]
            if d[0] == '\x03':
                return ['', t]
            return [ascii(d[3:3 + ord(d[2])]), t]
        if op == 'load':
            pyamf.register_class_loader(self.loaders[o['l']])
        elif op == 'unload':
            pyamf.unregister_class_loader(self.loaders[o['l']])
        elif op == 'badload':
            pyamf.register_class_loader('loader')
        elif op == 'type':
            a = self.s[o['s'] - 1]
            if o['fn']:
                pyamf.register_alias_type(a, lambda k: k is klass)
            elif self.rnd.randrange(2):
                pyamf.register_alias_type(a, klass)
            else:
                z = [klass, type('Z', (object,), {})]
                self.rnd.shuffle(z)
                pyamf.register_alias_type(a, *z)
        elif op == 'untype':
            pyamf.unregister_alias_type(self.s[o['s'] - 1])
        elif op == 'pack':
            r = self.package(o)
            for k, x in r.items():
                if x.klass is not k:
                    return [[99]]
            return [self.tell(x) for x in r.values()]
        return []

    def log(self, o):
        o = dict(o, err='', ret=[])
        self.used = []
        try:
            o['ret'] = self.do(o)
        except Exception:
            o['err'] = err_name(sys.exc_info()[1])
        o['used'] = list(self.used)
        return o


def run(case):
    rnd = seeded(case['id'])
    w = World(rnd)
    r = {'ops': [w.log(o) for o in case['ops']], 'tails': []}
    for o in case['tails']:
        w = World(rnd)
        for x in case['ops']:
            w.log(x)
        r['tails'].append(w.log(o))
    return r


if __name__ == '__main__':
    main(run)
