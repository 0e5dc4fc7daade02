"""
usage: solfile.py IN OUT.  Each line of IN is a case with an 'op':
  dec   read the bytes of a shared object, in one of several ways
  enc   save a shared object, in one of several ways
Files are in a scratch directory of their own.
"""
from common import *
import shutil
import tempfile
from StringIO import StringIO
from pyamf import sol


def utf8(s):
    if isinstance(s, unicode):
        s = s.encode('utf-8')
    return b2l(s)


TMP = tempfile.mkdtemp()


def path(case):
    p = os.path.join(TMP, 'f%s.sol' % (case['id'] % 7,))
    if os.path.exists(p):
        os.unlink(p)
    return p


def put(p, data):
    f = open(p, 'wb')
    f.write(data)
    f.close()


def get(p):
    if not os.path.exists(p):
        return [-1]
    f = open(p, 'rb')
    d = f.read()
    f.close()
    return b2l(d)


def decode(case):
    data = l2b(case['inp'])
    err = ''
    name = u''
    vals = {}
    way = case['id'] % 4
    try:
        if not case['strict']:
            name, vals = sol.decode(
                data if way % 2 else util.BufferedByteStream(data),
                strict=False)
        elif way == 0:
            name, vals = sol.decode(data)
        elif way == 1:
            name, vals = sol.decode(util.BufferedByteStream(data), strict=True)
        else:
            if way == 2:
                p = path(case)
                put(p, data)
                s = sol.load(p)
            else:
                s = sol.load(StringIO(data))
            name, vals = s.name, s
    except:
        err = err_name(sys.exc_info()[1])
    o = Observer()
    names = list(vals)
    out = [o.val(vals[k]) for k in names]
    return {'inp': case['inp'], 'strict': case['strict'], 'err': err,
            'name': utf8(name), 'names': [utf8(k) for k in names],
            'out': out, 'nd': o.nd}


def encode(case):
    rnd = seeded(case['id'])
    b = Builder(case['nd'], rnd)
    vals = {}
    s = l2b(case['name'])
    root = s.decode('utf-8')
    if max([0] + case['name']) < 128 and rnd.randrange(2):
        root = s
    o = sol.SOL(root)
    for i in range(0, len(case['out']) - 1, 2):
        k = b.val(case['out'][i])
        o[k] = vals[k] = b.val(case['out'][i + 1])
    err = ''
    inp = []
    old = new = []
    way = case['way'] if case['strict'] else case['way'] % 2
    try:
        if way == 0:
            inp = b2l(sol.encode(root, vals, strict=case['strict'],
                                 encoding=case['v']).getvalue())
        elif way == 1:
            inp = b2l(sol.encode(root, o, case['strict'],
                                 case['v']).getvalue())
        elif way == 2:
            f = StringIO()
            try:
                o.save(f, case['v'])
            finally:
                new = b2l(f.getvalue())
            inp = new
        else:
            p = path(case)
            old = [-1]
            if way > 3:
                put(p, 'what was there before, which is longer' * way)
                old = get(p)
            try:
                if way % 2:
                    o.save(p, encoding=case['v'])
                else:
                    sol.save(o, p, case['v'])
            finally:
                new = get(p)
            inp = new
    except:
        err = err_name(sys.exc_info()[1])
    out = [['num', x[1]] if x[0] == 'num0' else x for x in case['out']]
    return {'v': case['v'], 'strict': case['strict'], 'name': case['name'],
            'out': out, 'nd': spec_view(case['nd']), 'inp': inp, 'err': err,
            'old': old, 'new': new}


def run(case):
    r = encode(case) if case['op'] == 'enc' else decode(case)
    r['mode'] = case['op']
    return r


if __name__ == '__main__':
    register_pool()
    try:
        main(run)
    finally:
        shutil.rmtree(TMP)
