"""
usage: xmldoc.py IN OUT DOCS.  As amf.py and envelope.py, with the options
about declarations in documents (dtd, ents: whether they are forbidden);
DOCS: a file of documents as written (w) and what they mean (c).
"""
from common import *
import amf
import dates
import envelope

DOCS = {}
DEFAULT = {}


class XmlBuilder(Builder):
    def obj(self, i):
        n = self.nd[i - 1]
        if n['k'] == 'xml' and i not in self.objs:
            w = self.rnd.choice(DOCS[tuple(n['b'])])
            e = pxml.fromstring(l2b(w))
            if self.rnd.randrange(3) == 0:
                # taken out of another document
                e.tail = self.rnd.choice(
                    [u'\n  ', u'text', u'\xe9 & <', 'x'])
            self.objs[i] = e
            return e
        return Builder.obj(self, i)


def patch(case):
    kw = {}
    # leaving an option out is forbidding
    for k, n in (('dtd', 'forbid_dtd'), ('ents', 'forbid_entities')):
        if not case[k] or case['id'] % 3 == 0:
            kw[n] = case[k]
    for m in (amf, envelope):
        m.Builder = XmlBuilder
        m.err_name = lambda e: err_name(e) if err_name(e) in ('eos', 'io') \
            else 'xml'
    amf.pyamf = Around(pyamf, kw, 'get_decoder')
    envelope.remoting = Around(remoting, kw, 'decode')


class Around(object):
    def __init__(self, module, kw, name):
        def call(*a, **k):
            k.update(kw)
            return getattr(module, name)(*a, **k)

        self.module = module
        setattr(self, name, call)

    def __getattr__(self, k):
        return getattr(self.module, k)


from pyamf import remoting


def run(case):
    patch(case)
    if case['op'] == 'gate':
        case['tz'] = None
        a, b = dates.through(case, envelope.EnvObserver)
        if not b['refused']:
            return {'pair': [a, b]}
        a['err'] = 'refused'
        return a
    return (envelope if case['env'] else amf).run(case)


if __name__ == '__main__':
    register_pool()
    for l in open(sys.argv[3]):
        d = json.loads(l)
        DOCS.setdefault(tuple(d['c']), []).append(d['w'])
    main(run)
