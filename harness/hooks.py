# -*- coding: utf-8 -*-
"""
C18: executes programs of spec/Imports.tla: their modules are files in a
scratch directory, with names of their own for every program.
"""
from common import *
import shutil
import tempfile
from pyamf import adapters
from pyamf.util import imports

NAMES = ['', 'ia', 'ib', 'ic', 'ip', 'ip.x', 'ip.y', 'ip.s', 'ip.s.z', 'missing', 'ip.ib']
FILES = {1: 'ia.py', 2: 'ib.py', 3: 'ic.py', 4: 'ip/__init__.py', 5: 'ip/x.py', 6: 'ip/y.py',
         7: 'ip/s/__init__.py', 8: 'ip/s/z.py'}
current = None


# what goes wrong in a module or in a hook can be of any type
BOOMS = [type('Boom', (b,), {}) for b in (
    Exception, ImportError, KeyError, AttributeError, BaseException)]


class Program(object):
    def __init__(self, case, root):
        self.p = case['p']
        self.ev = []
        self.pre = 'c%d_' % case['id']
        self.boom = BOOMS[case['id'] % len(BOOMS)]
        self.root = root
        self.called = {}
        self.times = {}
        self.plain = {}
        self.hooks = dict((i + 1, self.hook(i + 1)) for i in range(len(self.p['hook'])))
        for m, f in FILES.items():
            parts = f.split('/')
            parts[0] = self.pre + parts[0]
            f = os.path.join(root, *parts)
            if not os.path.isdir(os.path.dirname(f)):
                os.makedirs(os.path.dirname(f))
            out = open(f, 'w')
            out.write('import hooks as _h\nstate = "loading"\nindex = %d\n'
                      '_h.current.body(%d, globals())\nstate = "done"\n' % (m, m))
            out.close()

    def name(self, m):
        parts = NAMES[m].split('.')
        return '.'.join([self.pre + parts[0]] + parts[1:])

    def hook(self, h):
        def f(module):
            idx = getattr(module, 'index', 0)
            if sys.modules.get(self.name(idx)) is not module:
                idx = -1
            self.ev.append(['hook', h, idx, getattr(module, 'state', 'none')])
            n = self.called[h] = self.called.get(h, 0) + 1
            self.ops(self.p['hook'][h - 1], n, None)
        return f

    def body(self, m, ns):
        self.ev.append(['body', m])
        n = self.times[m] = self.times.get(m, 0) + 1
        self.ops(self.p['mod'][m - 1], n, ns)
        self.ev.append(['end', m])

    def obtain(self, m, how, ns):
        """imports m and gives what the importer sees"""
        name = self.name(m)
        last = NAMES[m].split('.')[-1] if '.' in NAMES[m] else name
        if how == 'import':
            ns = {}
            exec 'import ' + name in ns
            return sys.modules[name]
        elif how == 'dunder':
            x = __import__(name, {}, {}, ['index'])
            return x
        elif how == 'from':
            ns = {}
            exec 'from %s import %s as got' % (name.rsplit('.', 1)[0], last) in ns
            return ns['got']
        elif how == 'rel':
            exec 'import %s as got' % last in ns
            got = ns['got']
            del ns['got']
            return got

    def ops(self, ops, n, ns):
        for o in ops:
            if o['o'] == 'fail':
                if n <= o['n']:
                    raise self.boom()
                continue
            if o['o'] == 'forget':
                name = self.name(o['m'])
                if name in sys.modules:
                    for k in list(sys.modules.keys()):
                        if k == name or k.startswith(name + '.'):
                            del sys.modules[k]
                    if '.' in name:
                        parent, last = name.rsplit('.', 1)
                        if parent in sys.modules and last in sys.modules[parent].__dict__:
                            delattr(sys.modules[parent], last)
                continue
            try:
                if o['o'] == 'when':
                    hs = [self.hooks[h] for h in o['hs']]
                    if o['how'] == 'junk':
                        adapters.register_adapter(self.name(o['m']), 'not callable')
                    elif o['how'] == 'adapter':
                        adapters.register_adapter(self.name(o['m']), *hs)
                    else:
                        imports.when_imported(self.name(o['m']), *hs)
                else:
                    x = self.obtain(o['m'], o['how'], ns)
                    if x is not sys.modules.get(self.name(o['m'])) or x.index != o['m'] \
                            or x.__name__ != self.name(o['m']):
                        self.ev.append(['other', repr(x)])
                self.ev.append(['ok', o['o'], o['m']])
            except BaseException, e:
                self.ev.append(['exc', o['o'], o['m'], e.__class__.__name__])
                if not o['catch']:
                    raise


def run(case):
    global current
    import hooks
    root = tempfile.mkdtemp(prefix='vhooks')
    sys.path.insert(0, root)
    hooks.current = prog = Program(case, root)
    try:
        try:
            prog.ops(case['p']['main'], 1, None)
        except BaseException, e:
            prog.ev.append(['died', e.__class__.__name__])
    finally:
        sys.path.remove(root)
        for k in list(sys.modules.keys()):
            if k.startswith(prog.pre):
                del sys.modules[k]
        shutil.rmtree(root)
    return {'p': case['p'], 'ev': prog.ev}


if __name__ == '__main__':
    main(run)
