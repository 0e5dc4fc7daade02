"""
usage: amf.py IN OUT.  Each line of IN is a case with an 'op':
  dec   decode the bytes, observe values, ends and how it stops
  feed  the same, handing over the bytes in the given pieces
  enc   encode the values, observe bytes and ends
"""
from common import *


def observe(vals):
    o = Observer()
    try:
        out = [o.val(x) for x in vals]
    except:
        traceback.print_exc()
        return [['unobservable']], []
    return out, o.nd


def decode(case):
    kw = {}
    if case.get('strict'):
        kw['strict'] = True
    d = pyamf.get_decoder(case['v'], l2b(case['inp']), **kw)
    vals = []
    ends = []
    err = ''
    for i in range(len(case['inp']) + 1):
        try:
            x = d.readElement()
        except:
            err = err_name(sys.exc_info()[1])
            break
        vals.append(x)
        ends.append(d.stream.tell())
    out, nd = observe(vals)
    return {'out': out, 'nd': nd, 'ends': ends, 'err': err}


def feed(case):
    data = l2b(case['inp'])
    d = pyamf.get_decoder(case['v'])
    vals = []
    ends = []
    log = []
    at = 0
    how = 'eos'
    for n in case['chunks'] + [len(data)]:
        n = min(n, len(data) - at)
        d.send(data[at:at + n])
        at += n
        how = ''
        while len(vals) <= len(data):
            try:
                x = d.next()
            except StopIteration:
                how = 'eos'
                break
            except:
                how = err_name(sys.exc_info()[1])
                break
            vals.append(x)
            ends.append(d.stream.tell())
        log.append([at, len(vals), d.stream.tell(), how])
        if how not in ('eos', 'io'):
            break
    out, nd = observe(vals)
    return {'out': out, 'nd': nd, 'ends': ends, 'err': how, 'feed': log}


def encode(case):
    v = case['v']
    b = Builder(case['nd'], seeded(case['id']))
    vals = [b.val(x) for x in case['out']]
    kw = {}
    if case.get('all3'):
        kw['use_amf3'] = True
    ends = []
    err = ''
    inp = []
    try:
        e = pyamf.get_encoder(v, **kw)
        for x in vals:
            e.writeElement(x)
            ends.append(len(e.stream))
        inp = b2l(e.stream.getvalue())
    except:
        err = err_name(sys.exc_info()[1])
    nd = spec_view(case['nd'])
    out = [['num', x[1]] if x[0] == 'num0' else x for x in case['out']]
    r = {'out': out, 'nd': nd, 'inp': inp, 'ends': ends, 'err': err}
    if case.get('all3'):
        r['all3'] = True
    return r


def run(case):
    if case.get('wide'):
        register_wide()
    if case['op'] == 'enc':
        r = encode(case)
        r['mode'] = 'enc%d' % (3 if case.get('all3') else case['v'])
    else:
        r = {'dec': decode, 'feed': feed}[case['op']](case)
        r['inp'] = case['inp']
        r['mode'] = 'dec%d' % case['v']
    r['v'] = case['v']
    return r


if __name__ == '__main__':
    register_pool()
    main(run)
