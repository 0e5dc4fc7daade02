# -*- coding: utf-8 -*-
"""
usage: client.py IN OUT.  Each line of IN is a history of a remoting client
(see spec/Client.tla).  A server on the loopback interface records what it
gets and answers as the history says.
"""
from common import *
import gzip
import logging
import socket
import threading
import urllib2
import BaseHTTPServer
from StringIO import StringIO
from pyamf import remoting
from pyamf.remoting import client

socket.setdefaulttimeout(30)
EA = u'\xe9'
GOT = []
PLAN = {}
for _k in ('http_proxy', 'https_proxy', 'HTTP_PROXY', 'no_proxy'):
    os.environ.pop(_k, None)


class MyError(Exception):
    pass


class OtherError(KeyError):
    pass


class Plain(object):
    pass


ERRS = {'MyError': MyError, 'OtherError': OtherError, 'Plain': Plain,
        'instance': MyError('x'), 'ValueError': ValueError,
        'KeyError': KeyError, 'LookupError': LookupError}
CODES = dict(pyamf.ERROR_CLASS_MAP)


def untext(s):
    return s.replace(u'EACUTE', EA)


def text(v):
    if isinstance(v, str):
        v = v.decode('utf-8', 'replace')
    return unicode(v).replace(EA, u'EACUTE')


def value(v):
    k = v[0]
    if k == 'l':
        return [value(x) for x in v[1:]]
    if k == 'o':
        return dict([(untext(x[0]), value(x[1])) for x in v[1:]])
    return {'s': untext, 'n': lambda s: None, 'i': int,
            'b': lambda s: s == 'true'}[k](v[1])


def out(v):
    if isinstance(v, (list, tuple)):
        return ['l'] + [out(x) for x in v]
    if isinstance(v, dict):
        return ['o'] + [[text(k), out(v[k])] for k in sorted(v)]
    if v is None:
        return ['n', 'None']
    if v is True or v is False:
        return ['b', v and 'true' or 'false']
    if isinstance(v, float) and v == int(v):
        v = int(v)
    if isinstance(v, (int, long)):
        return ['i', text(v)]
    if isinstance(v, basestring):
        return ['s', text(v)]
    return ['?', type(v).__name__]


class Handler(BaseHTTPServer.BaseHTTPRequestHandler):
    def log_message(self, *args):
        pass

    def do_POST(self):
        data = self.rfile.read(int(self.headers['Content-Length']))
        GOT.append((self.path, self.headers, data))
        rp = PLAN['rp']
        kind = rp['kind']
        how = rp['how']
        if kind == 'hangup':
            self.connection.shutdown(socket.SHUT_RDWR)
            return
        if kind == 'status':
            self.send_response([404, 500, 403, 503][how % 4])
            self.send_header('Content-Type', remoting.CONTENT_TYPE)
            self.end_headers()
            return
        ctype = [remoting.CONTENT_TYPE, 'application/x-amf; charset=utf-8',
                 'application/x-amf'][how % 3]
        if kind == 'ctype':
            ctype = ['text/html', 'application/x-amf2',
                     'text/plain; application/x-amf'][how % 3]
        body = '\x00\x00\x00\x02x' if kind == 'garbage' else PLAN['data']
        self.send_response(200)
        if kind != 'noctype':
            self.send_header('Content-Type', ctype)
        how //= 3
        if how % 3 == 0:
            f = StringIO()
            z = gzip.GzipFile(fileobj=f, mode='wb')
            z.write(body)
            z.close()
            body = f.getvalue()
            self.send_header('Content-Encoding', ['gzip', ' GZip'][how % 2])
        how //= 3
        if how % 3 != 0:
            self.send_header('Content-Length', str(len(body)))
        self.end_headers()
        self.wfile.write(body)


class Server(BaseHTTPServer.HTTPServer):
    def handle_error(self, *args):
        pass


SRV = []


def server():
    if not SRV:
        s = Server(('127.0.0.1', 0), Handler)
        t = threading.Thread(target=s.serve_forever)
        t.setDaemon(True)
        t.start()
        d = socket.socket()
        d.bind(('127.0.0.1', 0))
        dead = d.getsockname()[1]
        d.close()
        SRV.extend([s, '127.0.0.1:%d' % s.server_address[1], dead])
    return SRV


def opener(req):
    """connects to a server that is there, or not"""
    if PLAN['rp']['kind'] == 'refuse':
        r = urllib2.Request('http://127.0.0.1:%d/' % SRV[2], 'x')
        return urllib2.urlopen(r)
    return urllib2.urlopen(req)


def reply(rp, ids, v, base, rnd):
    env = remoting.Envelope(v)
    l = [(k, a) for k, a in zip(ids, rp['ans']) if a[0] != 'missing']
    if rp['stray']:
        # answers that nobody asked for
        l += [('/%d' % (1000 + i), ['val', ['s', 'stray']])
              for i in range(rp['stray'])]
    t = rp['turn'] % (len(l) or 1)
    l = l[t:] + l[:t]
    if rp['how'] % 2:
        l.reverse()
    for k, a in l:
        if a[0] == 'val':
            m = remoting.Response(value(a[1]))
        elif a[0] == 'bad':
            m = remoting.Response(value(a[1]), remoting.STATUS_ERROR)
        else:
            m = remoting.Response(remoting.ErrorFault(
                code=untext(a[1]), description=untext(a[2]),
                type=rnd.choice([u'', u'KeyError', u'x', None]),
                details=rnd.choice([u'', u'd', None, 5])),
                remoting.STATUS_ERROR)
        env[k] = m
    h = env.headers
    if rp['append']:
        h[remoting.APPEND_TO_GATEWAY_URL] = rp['append']
    elif rp['replace']:
        h[remoting.REPLACE_GATEWAY_URL] = base + rp['replace']
    if rp['persist']:
        h[remoting.REQUEST_PERSISTENT_HEADER] = dict(
            [(untext(x['name']), value(x['val'])) for x in rp['persist']])
    return remoting.encode(env, strict=PLAN['strict']).getvalue()


def seen(base):
    q = {'n': len(GOT), 'url': '', 'proxied': False, 'v': 0, 'heads': [],
         'bodies': [], 'ctype': '', 'ua': '', 'ref': '', 'http': []}
    if GOT:
        p, h, data = GOT[0]
        if p.startswith(base):
            q['proxied'] = True
            p = p[len(base):]
        env = remoting.decode(data)
        q['url'] = p
        q['v'] = env.amfVersion
        q['heads'] = [{'name': text(k), 'val': out(env.headers[k]),
                       'req': bool(env.headers.is_required(k))}
                      for k in env.headers]
        q['bodies'] = [{'id': k, 'target': text(m.target),
                        'args': [out(x) for x in m.body]} for k, m in env]
        q['ctype'] = h.get('content-type', '')
        q['ua'] = h.get('user-agent', '')
        q['ref'] = h.get('referer', '')
        q['http'] = [{'name': k, 'val': h.get(k)} for k in ('X-A', 'X-B')
                     if h.get(k) is not None]
    return q


def run(case):
    srv, host, dead = server()
    base = 'http://' + host
    st = case['set']
    rnd = seeded(case['id'])
    kw = {'opener': opener, 'strict': st['strict']}
    if st['ua']:
        kw['user_agent'] = st['ua']
    if st['ref']:
        kw['referer'] = st['ref']
    if case['id'] % 3 == 0:
        lg = logging.getLogger('vt')
        lg.propagate = False
        lg.setLevel(logging.DEBUG)
        lg.handlers = [logging.StreamHandler(StringIO())]
        kw['logger'] = lg
    gw = client.RemotingService(base + str(st['url']), st['v'], **kw)
    pyamf.ERROR_CLASS_MAP.clear()
    pyamf.ERROR_CLASS_MAP.update(CODES)
    made = []           # wrappers, None if a call had none
    waiting = []
    proxies = {}
    res = []
    for o in case['ops']:
        op = o['op']
        r = {'err': '', 'text': '', 'val': [], 'all': [], 'told': [], 'req': None}
        del GOT[:]
        ids = []
        if op == 'call':
            ids = ['/%d' % (len(made) + 1)]
        elif op == 'exec':
            ids = [w.id for w in waiting]
        if 'rp' in o:
            PLAN['strict'] = st['strict']
            PLAN['rp'] = o['rp']
            PLAN['data'] = reply(o['rp'], ids, gw.amf_version, base, rnd)
        try:
            if op in ('call', 'queue'):
                t = str(o['target'])
                auto = op == 'call'
                if (o['px'], auto) not in proxies:
                    if '.' in t and t != 'm':
                        n, m = t.rsplit('.', 1)
                        p = getattr(gw.getService(n, auto_execute=auto), m)
                    else:
                        p = client.ServiceMethodProxy(
                            gw.getService(t, auto_execute=auto), None)
                    proxies[o['px'], auto] = p
                p = proxies[o['px'], auto]
                made.append(None)
                x = p(*[value(v) for v in o['args']])
                if auto:
                    r['val'] = out(x)
                else:
                    made[-1] = x
                    waiting.append(x)
            elif op == 'exec':
                w = waiting
                waiting = []
                env = gw.execute()
                for x in w:
                    try:
                        x.result
                        r['told'].append(['early'])
                        r['all'].append(['early'])
                        continue
                    except AttributeError:
                        pass
                    if x.id not in env:
                        r['all'].append(['missing'])
                        r['told'].append(['none'])
                        continue
                    try:
                        x.setResponse(env[x.id])
                        r['told'].append(['val', out(x.result)])
                    except:
                        e = sys.exc_info()[1]
                        r['told'].append(['err', type(e).__name__, text(e.args[0])])
                    m = env[x.id]
                    b = m.body
                    if isinstance(b, remoting.ErrorFault):
                        r['all'].append(['fault', text(b.code),
                                         text(b.description)])
                    else:
                        r['all'].append([
                            'val' if m.status == 0 else 'bad', out(b)])
            elif op == 'rmw':
                x = made[o['n'] - 1]
                if x is None:
                    x = client.RequestWrapper(gw, '/%d' % o['n'], None)
                gw.removeRequest(x)
                waiting.remove(x)
            elif op == 'rmby':
                p = proxies.get((o['px'], False), 'none')
                a = [value(v) for v in o['args']]
                gw.removeRequest(p, *a)
                for x in waiting:
                    if x.service is p and list(x.args) == a:
                        waiting.remove(x)
                        break
            elif op == 'get':
                x = gw.getRequest('/%d' % o['n'])
                if x is not made[o['n'] - 1]:
                    r['err'] = 'another request'
            elif op == 'head':
                a = [untext(o['name']), value(o['val'])]
                if o['req'] or rnd.randrange(2):
                    a.append(o['req'])
                gw.addHeader(*a)
            elif op == 'unhead':
                del gw.headers[untext(o['name'])]
            elif op == 'cred':
                gw.setCredentials(*[untext(o[k]).encode('utf-8')
                                    for k in ('user', 'pass')])
            elif op == 'http':
                gw.addHTTPHeader(str(o['name']), str(o['val']))
            elif op == 'unhttp':
                gw.removeHTTPHeader(str(o['name']))
            elif op == 'proxy':
                gw.setProxy(host)
            elif op == 'adderr':
                pyamf.add_error_class(ERRS[o['cls']], untext(o['code']))
            elif op == 'rmerr':
                w = o['what']
                if o['by'] == 'cls':
                    w = ERRS.get(w, w)
                elif o['by'] == 'other':
                    w = rnd.choice([5, None, ValueError('x')])
                else:
                    w = untext(w)
                pyamf.remove_error_class(w)
            elif op == 'version':
                gw.amf_version = o['v']
        except:
            e = sys.exc_info()[1]
            r['err'] = type(e).__name__
            a = getattr(e, 'args', ())
            r['text'] = text(a[0]) if a and a[0] is not None else ''
        r['req'] = seen(base)
        res.append(r)
    return {'set': st, 'ops': case['ops'], 'res': res}


if __name__ == '__main__':
    main(run)
