"""
usage: proc.py IN OUT.  Each line of IN is a history of adding and removing
post-decode processors and of decoding.
"""
from common import *


class Boom(Exception):
    pass


class BoomIO(IOError):
    pass


class BoomDecode(pyamf.DecodeError):
    pass


class Box(object):
    def __init__(self, p, inner):
        self.p = p
        self.inner = inner


def is_boom(e):
    return isinstance(e, (Boom, BoomIO, BoomDecode))


class Hist(object):
    def __init__(self, case):
        self.v = case['v']
        self.rnd = seeded(case['id'])
        self.obs = Observer()
        self.log = []
        self.procs = dict((i + 1, self.make(i + 1, k))
                          for i, k in enumerate(case['kinds']))
        self.dec = [pyamf.get_decoder(self.v) for _ in range(2)]

    def term(self, x):
        if type(x) is Box:
            return ['box', x.p, self.term(x.inner)]
        return ['val', self.obs.val(x)]

    def make(self, p, kind):
        def f(payload, extra):
            if kind == 'count':
                extra['n'] = extra.get('n', 0) + 1
            self.log.append([p, self.term(payload), extra.get('n', 0)])
            if kind == 'box':
                return Box(p, payload)
            if kind == 'none':
                return None
            if kind == 'fail':
                raise self.rnd.choice([Boom, BoomIO, BoomDecode])()
            return payload

        if p % 2:
            class Callable(object):
                def __call__(self, payload, extra):
                    return f(payload, extra)
            return Callable()
        return f

    def take(self, f):
        self.log = []
        try:
            t = self.term(f())
            return ['value', self.log, t]
        except StopIteration:
            return ['eos', self.log, []]
        except:
            e = sys.exc_info()[1]
            return ['boom' if is_boom(e) else err_name(e), self.log, []]

    def step(self, o):
        op = o['op']
        if op == 'add':
            pyamf.add_post_decode_processor(self.procs[o['p']])
            return ['ok']
        if op == 'remove':
            pyamf.POST_DECODE_PROCESSORS.remove(self.procs[o['p']])
            return ['ok']
        if op == 'decode':
            d = pyamf.decode(l2b(o['b']), encoding=self.v)
            r = []
            how = 'stop'
            while len(r) <= len(o['b']):
                x = self.take(d.next)
                if x[0] == 'eos' and not x[1]:
                    break
                r.append(x)
                if x[0] != 'value':
                    how = x[0]
                    break
            return ['all', r, how]
        d = self.dec[o['x'] - 1]
        if op == 'feed':
            d.send(l2b(o['b']))
            return ['ok']
        if op == 'take':
            return self.take(d.next if self.rnd.randrange(2)
                             else d.readElement)
        if op == 'dclear':
            d.context.clear()
            return ['ok']
        raise AssertionError(op)


def run(case):
    h = Hist(case)
    before = list(pyamf.POST_DECODE_PROCESSORS)
    del pyamf.POST_DECODE_PROCESSORS[:]
    try:
        res = [h.step(o) for o in case['ops']]
    finally:
        pyamf.POST_DECODE_PROCESSORS[:] = before
    return {'v': case['v'], 'kinds': case['kinds'], 'ops': case['ops'],
            'ond': h.obs.nd, 'res': res}


if __name__ == '__main__':
    register_pool()
    main(run)
