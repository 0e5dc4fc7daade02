"""byte streams (spec/Stream.tla)"""
from common import *
import StringIO
import cStringIO
import tempfile
from pyamf.util import BufferedByteStream

KIND = os.environ.get('STREAM_CLASS')


def klass(*a):
    if KIND == 'ByteArray':
        return amf3.ByteArray(*a)
    return BufferedByteStream(*a)


def errname(e):
    if isinstance(e, OverflowError):
        return 'range'
    if isinstance(e, TypeError):
        return 'type'
    if isinstance(e, ValueError):
        return 'value'
    if isinstance(e, IOError):
        return 'io'
    return e.__class__.__name__


INTS = {'uchar': 'uchar', 'char': 'char', 'ushort': 'ushort',
        'short': 'short', 'uint24': '24bit_uint', 'int24': '24bit_int',
        'ulong': 'ulong', 'long': 'long'}


def source(b):
    d = l2b(b['d'])
    how = b['how']
    if how == 0:
        return klass(d) if d else klass()
    if how == 1:
        f = StringIO.StringIO(d)
    elif how == 2:
        f = BufferedByteStream(d)
    elif how == 3:
        f = tempfile.TemporaryFile(dir=os.environ['SCRATCH'])
        f.write(d)
    elif how == 4:
        f = cStringIO.StringIO(d)
    else:
        return klass(d)
    f.seek(b['n'])
    s = klass(f)
    if f.tell() != b['n']:
        return None
    if how == 3:
        f.close()
    return s


def typed(o):
    if o['t'] in ('double', 'float'):
        return {'double': '>d', 'float': '>f'}[o['t']]


def do(s, o):
    op = o['op']
    if op == 'read':
        return b2l(s.read() if o['n'] == -1 else s.read(o['n']))
    if op == 'peek':
        return b2l(s.peek() if o['n'] == 1 else s.peek(o['n']))
    if op == 'write':
        s.write(l2b(o['d']))
        return []
    if op == 'wutf8':
        d = l2b(o['d'])
        s.write_utf8_string(d if o.get('n') == 0 else d.decode('utf-8'))
        return []
    if op == 'rutf8':
        r = s.read_utf8_string(o['n'])
        if not isinstance(r, unicode):
            return [0, 0, 0, 0, 0]
        return b2l(r.encode('utf-8'))
    if op == 'append':
        d = l2b(o['d'])
        n = o.get('n')
        if n == 1:
            d = BufferedByteStream(d)
        elif n == 2:
            d = StringIO.StringIO(d)
        s.append(d)
        return []
    if op == 'seek':
        if o['how'] == 0:
            s.seek(o['n'])
        else:
            s.seek(o['n'], o['how'])
        return []
    if op == 'trunc':
        if o['n'] == 0:
            s.truncate()
        else:
            s.truncate(o['n'])
        return []
    if op == 'consume':
        s.consume()
        return []
    if op == 'len':
        return [len(s)]
    if op == 'eof':
        return [1 if s.at_eof() is True else 0]
    if op == 'remaining':
        return [s.remaining()]
    if op == 'add':
        other = BufferedByteStream(l2b(o['d']))
        other.seek(o['n'])
        n = s + other
        r = b2l(n.getvalue()) + [n.tell(), other.tell()]
        if other.getvalue() != l2b(o['d']):
            return [0, 0, 0, 0]
        # the sum is a stream of its own
        n.write('xyz')
        return r
    if op == 'order':
        if o['le']:
            s.endian = s.ENDIAN_LITTLE
        else:
            s.endian = s.ENDIAN_BIG if o.get('n') else s.ENDIAN_NETWORK
        return []
    if op == 'w':
        t = o['t']
        if t in INTS:
            v = o['v'][0] * 65536 + o['v'][1]
            getattr(s, 'write_' + INTS[t])(v)
        else:
            getattr(s, 'write_' + t)(struct.unpack(typed(o), l2b(o['v']))[0])
        return []
    if op == 'odd':
        t = o['t']
        v = ['x', None, True, 1.5 if t in INTS else 3][o['k']]
        getattr(s, 'write_' + INTS.get(t, t))(v)
        return []
    if op == 'r':
        t = o['t']
        if t in INTS:
            v = getattr(s, 'read_' + INTS[t])()
            return [int(v >> 16), int(v & 65535)]
        return b2l(struct.pack(typed(o), getattr(s, 'read_' + t)()))
    raise AssertionError(op)


def log(s, o):
    o = dict(o, err='', r=[])
    try:
        o['r'] = do(s, o)
    except Exception:
        o['err'] = errname(sys.exc_info()[1])
    o['p'] = int(s.tell())
    o['b'] = b2l(s.getvalue())
    return o


def run(case):
    s = source(case['begin'])
    r = {'begin': case['begin'], 'bad': '', 'ops': [], 'tails': []}
    if s is None:
        r['bad'] = 'the source of the stream was moved'
        return r
    r['ops'] = [log(s, o) for o in case['ops']]
    for o in case['tails']:
        s = source(case['begin'])
        for x in case['ops']:
            try:
                do(s, x)
            except Exception:
                pass
        r['tails'].append(log(s, o))
    return r


if __name__ == '__main__':
    main(run)
