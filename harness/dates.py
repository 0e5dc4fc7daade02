"""
usage: dates.py IN OUT.  As amf.py and envelope.py, with a timezone offset
(tz, in milliseconds, or null); dates are written down as what calendar and
clock show.
"""
from common import *
import amf
import envelope


class Zone(datetime.tzinfo):
    def __init__(self, minutes):
        self.m = minutes

    def utcoffset(self, d):
        return datetime.timedelta(minutes=self.m)

    def dst(self, d):
        return datetime.timedelta(0)

    def tzname(self, d):
        return 'Z%d' % self.m


def fields(d):
    if not isinstance(d, datetime.datetime):
        return [d.year, d.month, d.day, 0, 0, 0, 0, 0]
    o = d.utcoffset()
    return [d.year, d.month, d.day, d.hour, d.minute, d.second,
            d.microsecond, 0 if o is None else o.days * 1440 + o.seconds // 60]


Base = envelope.EnvObserver


class DateObserver(Base):
    def val(self, v):
        if isinstance(v, (datetime.date, datetime.datetime)):
            if id(v) not in self.ids:
                self.keep.append(v)
                n, i = self.node('date')
                self.ids[id(v)] = i
                n['b'] = fields(v)
            return ['ref', self.ids[id(v)]]
        return Base.val(self, v)


class DateBuilder(Builder):
    """builds all sorts of dates and remembers what they show"""
    aware = True

    def obj(self, i):
        n = self.nd[i - 1]
        if n['k'] == 'date' and i not in self.objs:
            d = Builder.obj(self, i)
            k = self.rnd.randrange(4)
            if k == 0:
                d = datetime.date(d.year, d.month, d.day)
            elif k == 1 and self.aware and 2 < d.year < 9998:
                m = self.rnd.choice([0, 60, -300, 330, 1439, -1439])
                d = (d + datetime.timedelta(minutes=m)).replace(
                    tzinfo=Zone(m))
            elif k == 2:
                class Sub(datetime.datetime):
                    pass
                d = datetime.datetime(*fields(d)[:7])
            self.objs[i] = d
            self.shown[i] = fields(d)
        return Builder.obj(self, i)


def patch(case):
    """the machinery of the other harnesses, for dates and an offset"""
    tz = case['tz']
    kw = {}
    if tz is not None:
        kw['timezone_offset'] = datetime.timedelta(milliseconds=tz)
    last = []

    def builder(nd, rnd=None):
        b = DateBuilder(nd, rnd)
        b.aware = tz is None
        b.shown = {}
        last.append(b)
        return b

    for m in (amf, envelope):
        m.Builder = builder
    amf.Observer = envelope.EnvObserver = DateObserver

    class P(object):
        def __getattr__(self, k):
            return getattr(pyamf, k)

        def get_decoder(self, *a, **k):
            k.update(kw)
            return pyamf.get_decoder(*a, **k)

        def get_encoder(self, *a, **k):
            k.update(kw)
            return pyamf.get_encoder(*a, **k)

    class R(object):
        def __getattr__(self, k):
            return getattr(remoting, k)

        def decode(self, *a, **k):
            k.update(kw)
            return remoting.decode(*a, **k)

        def encode(self, *a, **k):
            k.update(kw)
            return remoting.encode(*a, **k)

    amf.pyamf = P()
    envelope.remoting = R()
    return last


from pyamf import remoting
from pyamf.remoting import gateway as gw
from pyamf.remoting.gateway import wsgi


def through(case, observer=None):
    """
    A request with the arguments of the case goes through a gateway; the
    service sees them and returns a list of some of their dates.
    """
    tz = case['tz']
    seen = []
    observer = observer or DateObserver

    def echo(*args):
        seen.append(args)
        return list(args)

    kw = {}
    if tz is not None:
        kw['timezone_offset'] = tz / 1000 if case['id'] % 2 else \
            datetime.timedelta(milliseconds=tz)
    if case['id'] % 3 == 0:
        call = django_call({'echo': echo}, kw)
    else:
        g = wsgi.WSGIGateway({'echo': echo}, expose_request=False, **kw)

        def call(data):
            got = []
            r = g({'REQUEST_METHOD': 'POST', 'wsgi.input': StringIO(data),
                   'CONTENT_LENGTH': str(len(data))},
                  lambda s, h: got.append(s))
            return ''.join(r)
    out = call(l2b(case['inp']))
    o = observer()
    args = seen[0] if seen else ()
    vals = [o.val(x) for x in args]
    first = {'v': case['v'], 'hs': [], 'nd': list(o.nd), 'err': '',
             'bs': [{'id': b2l('/1'), 'kind': 'req', 'target': b2l('echo'),
                     'status': 0, 'vals': vals}],
             'inp': case['inp'], 'mode': 'dec'}
    o = observer()
    vals = [o.val(list(args))]
    second = {'v': case['v'], 'nd': o.nd, 'err': '', 'out': vals,
              'ops': [{'op': 'body', 'id': b2l('/1'), 'kind': 'res',
                       'target': [], 'status': 0, 'vals': [1]}],
              'inp': b2l(out), 'mode': 'enc', 'refused': not seen}
    return first, second


from StringIO import StringIO


def django_call(services, kw):
    from django.conf import settings
    if not settings.configured:
        settings.configure(DEBUG=False, ALLOWED_HOSTS=['*'],
                           TIME_ZONE='UTC')
    from django.http import HttpRequest
    from pyamf.remoting.gateway.django import DjangoGateway
    g = DjangoGateway(services, expose_request=False, **kw)

    def call(data):
        r = HttpRequest()
        r.method = 'POST'
        r._body = data
        r.META = {'CONTENT_LENGTH': str(len(data)), 'SERVER_NAME': 'x',
                  'SERVER_PORT': '80'}
        return g(r).content

    return call


def run(case):
    last = patch(case)
    tz = case['tz'] or 0
    if case['op'] == 'gate':
        a, b = through(case)
        a['tz'] = b['tz'] = tz
        return {'pair': [a, b]}
    env = case['env']
    r = (envelope if env else amf).run(case)
    r['tz'] = tz
    if case['op'] == 'enc':
        # what was built, instead of what was to be built
        for i, f in last[-1].shown.items():
            r['nd'][i - 1]['b'] = f
        for i, n in enumerate(r['nd']):
            if n['k'] == 'date' and len(n['b']) == 8 and \
                    i + 1 not in last[-1].shown:
                n['b'] = fields(EPOCH)      # not used
    return r


if __name__ == '__main__':
    register_pool()
    main(run)
