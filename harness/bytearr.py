"""typed values in byte arrays (spec/ByteArray.tla)"""
import zlib
from common import *
from stream import errname

METHOD = {'byte': 'Byte', 'ubyte': 'UnsignedByte', 'short': 'Short',
          'ushort': 'UnsignedShort', 'int': 'Int', 'uint': 'UnsignedInt',
          'float': 'Float', 'double': 'Double'}


def uchr(c):
    if c < 65536:
        return unichr(c)
    return ('\\U%08x' % c).decode('unicode-escape')


def text(v):
    if v and v[0] == -1:
        return uchr(v[2]) * v[1]
    return u''.join([uchr(c) for c in v])


def points(u):
    b = u.encode('utf-32-be')
    return [struct.unpack('>I', b[i:i + 4])[0] for i in range(0, len(b), 4)]


def number(x):
    if x['k'] in ('float', 'double'):
        return struct.unpack('>f' if x['k'] == 'float' else '>d',
                             l2b(x['v']))[0]
    return x['v'][0] * 65536 + x['v'][1]


def write(a, x, objs, rnd):
    k = x['k']
    if k == 'bool':
        a.writeBoolean(x['v'])
    elif k == 'notbool':
        a.writeBoolean([1, 0, None, 'x'][x['v']])
    elif k in METHOD:
        getattr(a, 'write' + METHOD[k])(number(x))
    elif k in ('utf', 'utfb'):
        t = text(x['v'])
        if x['how']:
            t = t.encode('utf-8')
        getattr(a, 'writeUTF' if k == 'utf' else 'writeUTFBytes')(t)
    elif k == 'multi':
        a.writeMultiByte(text(x['v']), x['cs'])
    else:
        o = objs[x['v'] - 1]
        a.writeObject(Builder(o['nd'], rnd).val(o['out'][0]))


def read(a, x, size):
    k = x['k']
    if k == 'bool':
        v = a.readBoolean()
        return {'r': v if type(v) is bool else [2]}
    if k in METHOD:
        v = getattr(a, 'read' + METHOD[k])()
        if k in ('float', 'double'):
            return {'r': b2l(struct.pack('>f' if k == 'float' else '>d', v))}
        return {'r': [int(v >> 16), int(v & 65535)]}
    if k == 'utf':
        v = a.readUTF()
    elif k == 'utfb':
        v = a.readUTFBytes(size)
    elif k == 'multi':
        v = a.readMultiByte(size, x['cs'])
    else:
        o = Observer()
        v = o.val(a.readObject())
        return {'out': [v], 'nd': o.nd}
    return {'r': points(v) if isinstance(v, unicode) else [-2]}


def u29(s):
    n = 0
    for i, ch in enumerate(s):
        c = ord(ch)
        if i == 3:
            return (n << 8) | c, 4
        n = (n << 7) | (c & 127)
        if c < 128:
            return n, i + 1


def travel(a, v):
    data = pyamf.encode(a, encoding=v).getvalue()
    d = pyamf.get_decoder(v, data)
    x = d.readElement()
    assert type(x) is amf3.ByteArray
    if v == 0:
        assert data[0] == '\x11'
        data = data[1:]
    assert data[0] == '\x0c'
    n, k = u29(data[1:])
    body = data[1 + k:]
    assert n >> 1 == len(body)
    zipped = False
    try:
        wire = zlib.decompress(body)
        zipped = True
    except zlib.error:
        wire = body
    return {'content': b2l(x.getvalue()), 'wire': b2l(wire),
            'zipped': zipped, 'comp': bool(x.compressed)}


def run(case):
    rnd = seeded(case['id'])
    a = amf3.ByteArray()
    items = []
    ops = []
    for o in case['ops']:
        o = dict(o, err='')
        op = o['op']
        if op == 'w':
            o['new'] = []
        elif op == 'read':
            o.update(r=[], nd=[], out=[])
        elif op == 'travel':
            o.update(content=[], wire=[], zipped=False, comp=False)
        try:
            if op == 'order':
                a.endian = a.ENDIAN_LITTLE if o['le'] else a.ENDIAN_BIG
            elif op == 'compress':
                a.compress()
            elif op == 'seek':
                if o['i'] > len(items):
                    a.seek(0, 2)
                else:
                    a.seek(items[o['i'] - 1][0])
            elif op == 'w':
                n = len(a.getvalue())
                a.endian = a.ENDIAN_LITTLE if o['le'] else a.ENDIAN_NETWORK
                try:
                    write(a, o['x'], case['objs'], rnd)
                    items.append((n, a.tell(), o['x'], o['le']))
                finally:
                    o['new'] = b2l(a.getvalue()[n:])
            elif op == 'read':
                start, end, x, le = items[o['i'] - 1]
                a.endian = a.ENDIAN_LITTLE if le else a.ENDIAN_BIG
                o.update(read(a, x, end - start))
            elif op == 'travel':
                o.update(travel(a, o['v']))
        except Exception:
            o['err'] = errname(sys.exc_info()[1])
            if op == 'w' and o['x']['k'] == 'obj':
                o['err'] = err_name(sys.exc_info()[1])
        o['p'] = int(a.tell())
        ops.append(o)
        if o['err'] and (op != 'w' or not o['new'] == []):
            break
    return {'ops': ops, 'final': b2l(a.getvalue()), 'objs': [
        {'nd': spec_view(g['nd']), 'out': g['out']} for g in case['objs']]}


if __name__ == '__main__':
    register_pool()
    main(run)
