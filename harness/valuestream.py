"""
usage: valuestream.py IN OUT.  Each line of IN is a history of operations on three
encoders and two decoders; what each operation gave is written down.
"""
from common import *


def one(f):
    try:
        return f()
    except StopIteration:
        return ['stop']
    except:
        return ['err', err_name(sys.exc_info()[1])]


class Hist(object):
    def __init__(self, case):
        self.case = case
        self.v = case['v']
        self.ev = case['ev']
        self.kw = {'use_amf3': True} if case['all3'] else {}
        self.rnd = seeded(case['id'])
        b = Builder(case['nd'], self.rnd)
        self.vals = [b.val(x) for x in case['out']]
        self.obs = Observer()
        self.enc = [self.encoder() for _ in range(3)]
        self.dec = [pyamf.get_decoder(self.v) for _ in range(2)]
        self.start = [0] * 3        # where the message begins
        self.msg = [[] for _ in range(3)]
        self.handed = [[] for _ in range(3)]
        self.queue = [[] for _ in range(3)]

    def encoder(self):
        return pyamf.get_encoder(self.ev, **self.kw)

    def pick(self, o):
        return [self.vals[i - 1] for i in o['vals']]

    def encode(self, vals):
        return b2l(pyamf.encode(*vals, encoding=self.ev,
                                **self.kw).getvalue())

    def step(self, o):
        x = o.get('x', 0) - 1
        op = o['op']
        e = self.enc[x]
        if op == 'send':
            e.send(self.pick(o)[0])
            self.queue[x].append(self.pick(o))
            return ['ok']
        if op == 'gen':
            vals = self.pick(o)
            e.send(y for y in vals)
            self.queue[x].append(vals)
            return ['ok']
        if op == 'next':
            q = self.queue[x].pop(0) if self.queue[x] else []
            b = b2l(e.next())
            self.msg[x] += q
            self.handed[x] += b
            return ['bytes', b]
        if op == 'rest':
            r = []
            how = 'stop'
            try:
                for b in e:
                    r.append(b2l(b))
                    if self.queue[x]:
                        self.msg[x] += self.queue[x].pop(0)
                    self.handed[x] += b2l(b)
            except:
                how = err_name(sys.exc_info()[1])
                if self.queue[x]:
                    self.queue[x].pop(0)
            return ['rest', r, how]
        if op == 'write':
            n = len(e.stream)
            e.writeElement(self.pick(o)[0])
            b = b2l(e.stream.getvalue())[n:]
            self.msg[x] += self.pick(o)
            self.handed[x] += b
            return ['bytes', b]
        if op == 'clear':
            try:
                t = self.encode(self.msg[x])
            except:
                t = [err_name(sys.exc_info()[1])]
            r = ['clear', self.handed[x], t]
            e.context.clear()
            self.msg[x] = []
            self.handed[x] = []
            return r
        if op == 'call':
            return ['bytes', self.encode(self.pick(o))]
        d = self.dec[x]
        if op == 'feed':
            d.send(l2b(o['b']))
            return ['ok']
        if op == 'take':
            try:
                v = d.next() if self.rnd.randrange(2) else d.readElement()
            except StopIteration:
                return ['eos']
            except:
                return [err_name(sys.exc_info()[1])]
            return ['value', self.obs.val(v)]
        if op == 'dclear':
            d.context.clear()
            d.stream.seek(0, 2)
            return ['ok']
        if op == 'decode':
            r = []
            how = 'stop'
            try:
                data = l2b(o['b'])
                if self.rnd.randrange(2):
                    data = util.BufferedByteStream(data)
                for v in pyamf.decode(data, encoding=self.v):
                    r.append(self.obs.val(v))
            except:
                how = err_name(sys.exc_info()[1])
            return ['values', r, how]
        raise AssertionError(op)


def run(case):
    h = Hist(case)
    res = [one(lambda: h.step(o)) for o in case['ops']]
    vals = [['num', x[1]] if x[0] == 'num0' else x for x in case['out']]
    return {'v': case['v'], 'ev': case['ev'], 'all3': case['all3'],
            'badval': case['badval'], 'ops': case['ops'], 'vals': vals,
            'nd': spec_view(case['nd']), 'ond': h.obs.nd, 'res': res}


if __name__ == '__main__':
    register_pool()
    main(run)
