# -*- coding: utf-8 -*-
"""
usage: gateway.py IN OUT.  Each line of IN is a history of a gateway: gw says
how it is made, ops what is done to it (see spec/Gateway.tla).
"""
from common import *
import logging
import types as _types
from StringIO import StringIO
from pyamf import remoting
from pyamf.remoting import gateway as rgw
from pyamf.remoting.gateway import wsgi
from pyamf.flex import messaging

EA = u'\xe9'
EV = []


def text(v):
    """names of what is passed around"""
    if isinstance(v, str):
        v = v.decode('utf-8', 'replace')
    if isinstance(v, unicode):
        return v.replace(EA, u'EACUTE')
    if isinstance(v, dict) and 'pyamf.request' in v:
        return text(v['pyamf.request'].target or u'null')
    if hasattr(v, 'amf_request'):
        return text(v.amf_request.target or u'null')
    if isinstance(v, float) and v == int(v):
        v = int(v)
    return unicode(v)


def untext(s):
    return s.replace(u'EACUTE', EA)


def is_http(v):
    return (isinstance(v, dict) and 'wsgi.input' in v) or \
        hasattr(v, '_read_started')


RND = random.Random(1)
BOOM = [(u'b\xf6om',), (u'b\xf6om',), (), (5,), (None,), (u'a', 'b'), ('',),
        ('\xff',), ([1, {}],), ({'a': 1},)]


class Empty(object):
    """a callable that is false"""
    def __init__(self, f):
        self.f = f

    def __call__(self, *args):
        return self.f(*args)

    def __len__(self):
        return 0


def log(name, *args):
    EV.append([name] + [text(a) for a in args])


class Coded(Exception):
    _amf_code = 'My.Code'


class Mute(Exception):
    def __str__(self):
        raise RuntimeError('no text')

    __unicode__ = __repr__ = __str__


class Heavy(Exception):
    def __init__(self):
        Exception.__init__(self, 'heavy')
        self.stuff = {'f': lambda: 1}


def act(kind, name, args):
    log(name, *args)
    if kind == 'boom':
        raise ValueError(*RND.choice(BOOM))
    if kind == 'coded':
        raise Coded(*RND.choice(BOOM))
    if kind == 'mute':
        raise Mute('x')
    if kind == 'heavy':
        raise Heavy()
    if kind == 'bytes':
        raise KeyError('\xe9\xff')
    if kind == 'lam':
        return lambda: 1
    return [a for i, a in enumerate(args) if i or not is_http(a)]


def fn(name, kind='echo', arity=None):
    if arity == 2:
        def f(a, b):
            return act(kind, name, [a, b])
    else:
        def f(*args):
            return act(kind, name, args)
    f.__name__ = str(name)
    return f


def meth(name, kind='echo', arity=None):
    if arity == 2:
        def f(self, a, b):
            return act(kind, name, [a, b])
    else:
        def f(self, *args):
            return act(kind, name, args)
    f.__name__ = str(name)
    return f


def auth(name, falsy=False):
    def says(user, password):
        if name == 'yes':
            return True
        if name == 'no':
            return False
        if name == 'one':
            return 1
        if name == 'nothing':
            return None
        if name == 'araise':
            raise ValueError('authenticator')
        return user == u'u' and password == u'p'

    if name == 'credx':
        def f(http, user, password):
            log(name, http, user, password)
            return says(user, password)
        if falsy:
            f = Empty(f)
        rgw.expose_request(f)
    else:
        def f(user, password):
            log(name, user, password)
            return says(user, password)
        if falsy:
            f = Empty(f)
    return f


def pre(name, falsy=False):
    if name == 'plogx':
        def f(http, sr, *args):
            log(name, http)
        if falsy:
            f = Empty(f)
        rgw.expose_request(f)
    else:
        def f(sr, *args):
            log(name)
            if name == 'praise':
                raise LookupError('preprocessor')
            if name == 'pfalse':
                return False
        if falsy:
            f = Empty(f)
    return f


def clsdict():
    d = {'ok': meth('ok'), 'two': meth('two', arity=2), 'attr': 5,
         '_priv': meth('_priv')}
    for k in ('boom', 'coded', 'mute', 'heavy', 'bytes', 'lam'):
        d[k] = meth(k, k)
    d['authd'] = rgw.authenticate(meth('authd'), auth('cred'))
    # an authenticator that is told the request, in either way
    d['authx'] = rgw.authenticate(meth('authx'), auth0('credx'), True)
    d['pred'] = rgw.preprocess(meth('pred'), pre('plog'))
    d['prebad'] = rgw.preprocess(meth('prebad'), pre('praise'))
    d['prex'] = rgw.preprocess(meth('prex'), pre('plogx'))
    d['exp'] = rgw.expose_request(meth('exp'))
    d['combo'] = rgw.expose_request(rgw.preprocess(rgw.authenticate(
        meth('combo'), auth('credx')), pre('plogx')))
    return d


def auth0(name):
    f = auth(name)
    del f._pyamf_expose_request
    return f


class Secret(object):
    pass


def services():
    s = {}
    s[1] = fn('echo')
    s[2] = rgw.expose_request(fn('fexp'))
    s[3] = rgw.authenticate(fn('fauth'), auth('cred'))
    s[4] = rgw.authenticate(fn('fauthx', arity=2), auth0('credx'), True)
    s[5] = rgw.preprocess(fn('fpre'), pre('praise'))
    s[6] = rgw.preprocess(fn('fprex', 'boom'), pre('plogx'))
    # every other member comes from a base class
    d = clsdict()
    base = dict((k, d.pop(k)) for k in sorted(d)[::2])
    s[7] = type('K', (type('KBase', (object,), base),), d)
    s[8] = type('K8', (object,), clsdict())()
    I = type('I', (object,), {'_priv': meth('_priv'),
                              '__len__': lambda self: 0})
    i = I()
    i.ok = fn('iok')
    i.attr = 5
    s[9] = i
    m = _types.ModuleType('smod')
    m.ok = fn('mok')
    m.attr = 'x'
    m._priv = fn('_priv')
    m.authd = rgw.authenticate(fn('mauthd'), auth('cred'))
    s[10] = m
    s[11] = type('C', (object,), {'__call__': meth('call'),
                                  'ok': meth('cok', 'coded')})()
    d = clsdict()
    base = dict((k, d.pop(k)) for k in sorted(d)[1::2])
    s[12] = _types.ClassType('Old', (_types.ClassType('OldBase', (), base),),
                             d)()
    return s


# --------------------------------------------------------------- gateways
class Wsgi(object):
    def __init__(self, kw):
        self.gw = wsgi.WSGIGateway(**kw)

    def request(self, method, body, extra):
        env = {'REQUEST_METHOD': method, 'CONTENT_LENGTH': str(len(body)),
               'wsgi.input': StringIO(body + 'x' * extra)}
        got = []

        def start(status, headers):
            got.append((status, headers))
        out = ''.join(self.gw(env, start))
        assert len(got) == 1
        h = dict([(k.lower(), v) for k, v in got[0][1]])
        return int(got[0][0].split()[0]), h, out


DJ = []


def django_setup():
    if not DJ:
        m = _types.ModuleType('vt_settings')
        m.SECRET_KEY = 'x'
        m.DEFAULT_CHARSET = 'utf-8'
        sys.modules['vt_settings'] = m
        os.environ['DJANGO_SETTINGS_MODULE'] = 'vt_settings'
        from django import http
        from pyamf.remoting.gateway import django
        DJ.extend([http, django])
    return DJ


class Django(object):
    def __init__(self, kw):
        self.http, d = django_setup()
        self.gw = d.DjangoGateway(**kw)

    def request(self, method, body, extra):
        r = self.http.HttpRequest()
        r.method = method
        r._stream = StringIO(body)
        r._read_started = False
        a = self.gw(r)
        h = dict([(k.lower(), v) for k, v in a.items()])
        return a.status_code, h, a.content


# --------------------------------------------------------------- messages
def full(t):
    return t['pre'] + u'.' + t['last'] if t['pre'] else t['last']


def value(v):
    k, s = v
    return {'s': untext(s), 'n': None}[k] if k in 'sn' else int(s)


def message(x, rnd):
    f = x['form']
    args = [value(v) for v in x['args']]
    t = x['target']
    M = messaging
    if f in ('rpc', 'nobody'):
        if t['pre'] and rnd.randrange(3):
            m = M.RemotingMessage(operation=untext(t['last']),
                                  destination=t['pre'])
        else:
            m = M.RemotingMessage(operation=untext(full(t)))
        m.body = args if f == 'rpc' else None
    elif f == 'noop':
        m = M.RemotingMessage(body=args)
    elif f == 'async':
        m = M.AsyncMessage(body=args)
    else:
        m = M.CommandMessage(operation={
            'ping': 5, 'login': 8, 'disconnect': 12,
            'command': rnd.choice([0, 1, 2, 4, 6, 7, 9, 10, 9999])}[f])
    m.messageId = untext(x['mid'])
    m.clientId = 'cc'
    if x['dsid'] or rnd.randrange(2):
        m.headers = {'DSId': x['dsid']} if x['dsid'] else \
            rnd.choice([{}, {'DSId': ''}])
    return m


def envelope(o, rnd):
    env = remoting.Envelope(o['v'])
    cr = o['hd']['cred']
    if cr['kind'] == 'ok':
        env.headers['Credentials'] = {'userid': untext(cr['user']),
                                      'password': untext(cr['pass'])}
    elif cr['kind'] == 'bad':
        env.headers['Credentials'] = rnd.choice([u'x', {'userid': u'u'}, None])
    if o['hd']['describe']:
        env.headers['DescribeService'] = rnd.choice(
            [True, True, None, False, u'', 0, {}])
    for x in o['xs']:
        f = x['form']
        if f == 'plain':
            m = remoting.Request(untext(full(x['target'])),
                                 body=[value(v) for v in x['args']])
        elif f == 'response':
            m = remoting.Response(u'x')
        else:
            body = {'object': [{'a': 1}], 'empty': [], 'null': [None],
                    'text': [u'x']}
            m = remoting.Request(rnd.choice(['null', 'null', '']),
                                 body=body[f] if f in body
                                 else [message(x, rnd)])
        env[x['id']] = m
    return env


def out(v):
    if isinstance(v, (list, tuple)):
        return ['l'] + [out(x) for x in v]
    if v is None:
        return ['n', 'None']
    if v is True or v is False:
        return ['b', v and 'true' or 'false']
    if isinstance(v, (int, long, float)):
        return ['i', text(v)]
    if isinstance(v, basestring):
        return ['s', text(v)]
    return ['?', type(v).__name__]


def answers(data):
    env = remoting.decode(data)
    rs = []
    for k, m in env:
        b = m.body
        r = {'id': k, 'status': m.status, 'kind': 'value', 'val': [],
             'code': '', 'corr': '', 'dsid': '', 'details': False, 'mid': ''}
        if isinstance(b, remoting.ErrorFault):
            r['kind'] = 'fault'
            r['code'] = text(b.code)
            r['details'] = bool(b.details)
        elif isinstance(b, messaging.AbstractMessage):
            r['kind'] = {'ErrorMessage': 'error', 'AcknowledgeMessage': 'ack'
                         }.get(type(b).__name__, type(b).__name__)
            if r['kind'] == 'error':
                r['code'] = text(b.faultCode)
                r['details'] = bool(b.faultDetail or b.extendedData)
            else:
                r['val'] = out(b.body)
            r['corr'] = text(b.correlationId or '')
            r['dsid'] = text((b.headers or {}).get('DSId') or '')
            r['mid'] = text(b.messageId or '')
        else:
            r['val'] = out(b)
        rs.append(r)
    return env.amfVersion, rs


def broken(data, o):
    how = o['how']
    if how == 'cut':
        return data[:o['at'] % len(data)]
    if how == 'empty':
        return ''
    if how == 'version':
        return chr(1 + o['at'] % 2 if o['at'] % 3 else 4) + \
            chr(o['at'] % 50 + 1) + data[2:]
    # the last body, flawed
    if how == 'utf8':
        return '\x00\x00\x00\x00\x00\x01\x00\x02\xff\xfe\x00\x02/1' \
            '\x00\x00\x00\x05\x0a\x00\x00\x00\x00'
    return '\x00\x00\x00\x00\x00\x01\x00\x06echo.x\x00\x02/1' \
        '\x00\x00\x00\x06\x0a\x00\x00\x00\x01' + chr(18 + o['at'] % 200)


def run(case):
    g = case['gw']
    rnd = seeded(case['id'])
    RND.seed(seed_of(case['id']))
    odd = rnd.randrange(3) == 0
    A = dict([(a, auth(a, odd)) for a in ('yes', 'no', 'one', 'nothing', 'araise',
                                     'cred', 'credx')])
    A[''] = None
    P = dict([(p, pre(p, odd)) for p in ('plog', 'plogx', 'praise', 'pfalse')])
    P[''] = None
    X = {'': None, 'yes': True, 'no': False}
    kw = {'authenticator': A[g['auth']], 'preprocessor': P[g['pre']],
          'debug': g['debug'], 'strict': g['strict']}
    if g['exp'] or g['kind'] == 'django':
        kw['expose_request'] = X[g['exp']]
    if case['id'] % 3 == 0:
        lg = logging.getLogger('vt')
        lg.propagate = False
        lg.setLevel(logging.DEBUG)
        lg.handlers = [logging.StreamHandler(StringIO())]
        kw['logger'] = lg
    svc = services()
    gw = (Wsgi if g['kind'] == 'wsgi' else Django)(kw)
    res = []
    for o in case['ops']:
        op = o['op']
        r = {'err': '', 'status': 0, 'ctype': '', 'clen': 'none', 'allow': '',
             'leak': False, 'ev': [], 'v': 0, 'rs': [], 'names': False}
        res.append(r)
        del EV[:]
        if op in ('add', 'scalar', 'rmname', 'rmsvc'):
            try:
                if op == 'add':
                    k = {}
                    if o['name'] or rnd.randrange(2):
                        k['name'] = o['name'] or None
                    k.update(description=o['desc'] or None)
                    if o['auth'] or rnd.randrange(2):
                        k['authenticator'] = A[o['auth']]
                    if o['pre'] or rnd.randrange(2):
                        k['preprocessor'] = P[o['pre']]
                    if o['exp'] or rnd.randrange(2):
                        k['expose_request'] = X[o['exp']]
                    gw.gw.addService(svc[o['s']], **k)
                elif op == 'scalar':
                    gw.gw.addService(rnd.choice([1, 1.5, 'x', u'x', 2 ** 70]),
                                     'sc')
                elif op == 'rmname':
                    gw.gw.removeService(o['name'])
                else:
                    gw.gw.removeService(svc[o['s']])
            except:
                r['err'] = sys.exc_info()[0].__name__
            continue
        if op == 'method':
            data = 'x'
            method = o['method']
        else:
            method = 'POST'
            data = remoting.encode(envelope(o, rnd),
                                   strict=g['strict']).getvalue()
        if op == 'broken':
            data = broken(data, o)
        st, h, body = gw.request(method, data, o.get('extra', 0))
        r['status'] = st
        r['ctype'] = h.get('content-type', '').split(';')[0]
        if 'content-length' in h:
            r['clen'] = 'ok' if h['content-length'] == str(len(body)) \
                else 'wrong'
        r['allow'] = h.get('allow', '')
        r['names'] = 'POST' in body
        r['leak'] = 'Traceback' in body or '.py"' in body
        r['ev'] = [list(e) for e in EV]
        if st == 200:
            r['v'], r['rs'] = answers(body)
    return {'gw': g, 'ops': case['ops'], 'res': res}


if __name__ == '__main__':
    main(run)
