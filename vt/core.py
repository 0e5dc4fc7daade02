"""
Machinery shared by all checks: runs TLC on the specification (to generate
behaviours, to explore the state space, and to judge observations) and Jython
on the code under test.  Verdicts are TLC's; a case for which the code never
came back, or whose observation is not even of a type the specification can
evaluate, is a violation as well.
"""
import collections
import copy
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
REPO = os.environ.get('VERIF_REPO', '/repo')
TLA = '/opt/veriftools/tla/'
TLA_CP = TLA + 'tla2tools.jar:' + TLA + 'CommunityModules-deps.jar'


class Broken(Exception):
    """the machinery (not the code under test) failed"""


def jython_cmd(script, args):
    return ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-Xss16m',
            '-cp', '/usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar',
            '-Dpython.home=/usr/share/jython',
            '-Dpython.executable=/usr/share/jython/bin/jython',
            '-Dpython.cachedir.skip=true',
            'org.python.util.jython', '-B', script] + list(args)


def jython_env(extra=None):
    env = dict(os.environ)
    env.update(LC_ALL='C.UTF-8', TZ='UTC', PYTHONDONTWRITEBYTECODE='1',
               VERIF_REPO=REPO,
               JYTHONPATH='%s:%s:/opt/pyamf-deps' % (HARNESS, REPO))
    for k in ('PYTHONPATH', 'JAVA_TOOL_OPTIONS', 'DJANGO_SETTINGS_MODULE'):
        env.pop(k, None)
    env.update(extra or {})
    return env


class Run(object):
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER') or 'quick'
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(seed if seed is not None
                        else os.environ.get('VERIF_SEED') or 1)
        self.rnd = random.Random('%s/%d' % (prop, self.seed))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = collections.OrderedDict()
        self.fails = []           # (key, message, replay content)
        self.distinct = set()
        self.nfile = 0
        self.exhaustive = None
        self.workers = 8
        self.heap = '6g'

    # ------------------------------------------------------------- helpers
    def quick(self):
        return self.tier == 'quick'

    def scale(self, quick, thorough):
        return quick if self.quick() else thorough

    def path(self, name):
        self.nfile += 1
        return os.path.join(self.dir, '%03d-%s' % (self.nfile, name))

    def parallel(self, jobs):
        """
        Run the functions side by side, each with a run of its own (its
        random choices do not depend on the others), and put together what
        they found.
        """
        subs = []
        errs = []

        def work(sub, job):
            try:
                job(sub)
            except BaseException as e:  # noqa
                errs.append(e)

        ts = []
        for i, job in enumerate(jobs):
            sub = copy.copy(self)
            sub.rnd = random.Random('%s/%d/%d/%d' % (
                self.prop, self.seed, self.nfile, i))
            sub.dir = os.path.join(self.dir, 'p%d-%d' % (self.nfile, i))
            os.mkdir(sub.dir)
            sub.nfile = sub.states = sub.transitions = sub.traces = 0
            sub.samples = []
            sub.fails = []
            sub.distinct = set()
            sub.notes = collections.OrderedDict()
            sub.workers = max(2, 8 // len(jobs))
            sub.heap = '4g'
            subs.append(sub)
            ts.append(threading.Thread(target=work, args=(sub, job)))
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.nfile += 1
        if errs:
            raise errs[0]
        for sub in subs:
            self.states += sub.states
            self.transitions += sub.transitions
            self.traces += sub.traces
            self.samples = (self.samples + sub.samples)[:5]
            self.fails += sub.fails
            self.distinct |= sub.distinct
            for k, v in sub.notes.items():
                if isinstance(v, int) and not isinstance(v, bool):
                    v += self.notes.get(k, 0)
                self.notes[k] = v

    def note(self, k, v):
        self.notes[k] = v

    def count(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def tapes(self, n, length=240, head=None):
        """random choices; C{head} gives the first entries of a tape"""
        r = []
        for i in range(n):
            h = head(self.rnd) if head else []
            r.append(h + [self.rnd.randrange(2 ** 30)
                          for _ in range(length)])
        return r

    # ----------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, data=None, timeout=800, workers=None,
            heap=None):
        """
        cfg: text of the configuration.  data: {variable: [objects]} written
        as ndjson files whose names are given in the environment.
        Returns (strings printed, output, ok).
        """
        cfgp = self.path(module + '.cfg')
        with open(cfgp, 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        for k, objs in (data or {}).items():
            p = self.path(k + '.nd')
            with open(p, 'w') as f:
                for o in objs:
                    f.write(json.dumps(o) + '\n')
            e[k] = p
        e.update(env or {})
        meta = self.path('meta')
        outp = self.path(module + '.out')
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + (heap or self.heap), '-cp',
               TLA_CP, 'tlc2.TLC', '-workers', str(workers or self.workers), '-nowarning',
               '-noGenerateSpecTE', '-metadir', meta, '-config', cfgp,
               module + '.tla']
        with open(outp, 'w') as f:
            try:
                rc = subprocess.call(cmd, cwd=SPEC, env=e, stdout=f,
                                     stderr=subprocess.STDOUT,
                                     stdin=subprocess.DEVNULL,
                                     timeout=timeout)
            except subprocess.TimeoutExpired:
                raise Broken('TLC timed out on %s' % module)
        shutil.rmtree(meta, ignore_errors=True)
        printed = []
        rest = []
        with open(outp, errors='replace') as f:
            for l in f:
                if l.startswith('"'):
                    try:
                        printed.append(json.loads(l))
                    except ValueError:
                        rest.append(l)
                else:
                    rest.append(l)
        text = ''.join(rest)
        m = None
        for m in re.finditer(r'^(\d+) states generated, (\d+) distinct', text,
                             re.M):
            pass
        if m:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
        ok = rc == 0 and 'No error has been found' in text
        return printed, text, ok

    def explore(self, module, cfg, **kw):
        """the specification must satisfy its own properties"""
        printed, text, ok = self.tlc(module, cfg, **kw)
        if not ok:
            raise Broken('TLC: %s does not hold:\n%s' % (module, text[-3000:]))
        return printed, text

    def generate(self, module, cfg, tapes=None, data=None, **kw):
        """behaviours of the specification, printed as JSON with an id"""
        d = dict(data or {})
        if tapes is not None:
            d['TAPES'] = tapes
        printed, text = self.explore(module, cfg, data=d, **kw)
        r = collections.OrderedDict()
        for s in printed:
            c = json.loads(s)
            k = c['id']
            if not isinstance(k, int):
                k = json.dumps(k, sort_keys=True)
            r.setdefault(k, c)
        if tapes is not None and len(r) != len(tapes):
            raise Broken('%s: %d behaviours for %d tapes' % (
                module, len(r), len(tapes)))
        return [r[k] for k in sorted(r)]

    # -------------------------------------------------------------- Jython
    def harness(self, script, cases, procs=4, stall=90, env=None, args=()):
        """
        Run the cases (each with a unique 'id') through the code under test.
        Returns {id: observation}; cases that never came back are violations.
        """
        procs = max(1, min(procs, (len(cases) + 99) // 100))
        chunks = [cases[i::procs] for i in range(procs)]
        res = {}
        errs = []

        def work(chunk):
            try:
                self._chunk(script, chunk, stall, env, args, res)
            except Exception as e:  # noqa
                errs.append(e)

        ts = [threading.Thread(target=work, args=(c,)) for c in chunks]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]
        return res

    def _chunk(self, script, todo, stall, env, args, res):
        lost = 0
        while todo:
            inp = self.path('in.nd')
            out = self.path('obs.nd')
            log = self.path('log')
            with open(inp, 'w') as f:
                for c in todo:
                    f.write(json.dumps(c) + '\n')
            open(out, 'w').close()
            scratch = self.path('scratch')
            os.mkdir(scratch)
            e = jython_env(env)
            e['SCRATCH'] = scratch
            with open(log, 'w') as lf:
                p = subprocess.Popen(
                    jython_cmd(os.path.join(HARNESS, script),
                               [inp, out] + list(args)),
                    cwd=scratch, env=e, stdout=lf, stderr=subprocess.STDOUT,
                    stdin=subprocess.DEVNULL)
                size, since = 0, time.time()
                hung = False
                while p.poll() is None:
                    time.sleep(0.05)
                    n = os.path.getsize(out)
                    if n != size:
                        size, since = n, time.time()
                    elif time.time() - since > stall:
                        hung = True
                        p.kill()
                        p.wait()
            shutil.rmtree(scratch, ignore_errors=True)
            got = 0
            with open(out) as f:
                for l in f:
                    if not l.endswith('\n'):
                        break
                    o = json.loads(l)
                    res[o['id']] = o
                    got += 1
            if p.returncode == 0 and got == len(todo):
                return
            with open(log, errors='replace') as f:
                text = f.read()[-1500:]
            missing = [c for c in todo if c['id'] not in res]
            if not missing:
                return
            self.fail('lost', '%s: the code under test %s' % (
                script, 'does not come back' if hung else
                'ended the process: ' + text.strip()[-400:]),
                {'case': missing[0], 'log': text})
            lost += 1
            if lost >= (2 if hung or got == 0 else 5):
                return
            todo = missing[1:]

    # --------------------------------------------------------------- judge
    def judge(self, module, cfg, obs, key='CASES', what=None, data=None, **kw):
        """
        Let TLC decide whether each observation is a behaviour of the
        specification.  Returns {id: verdict text}.
        """
        verdicts = {}
        todo = list(obs)
        tries = 0
        while todo:
            d = dict(data or {})
            d[key] = todo
            printed, text, ok = self.tlc(module, cfg, data=d, **kw)
            for s in printed:
                m = re.match(r'V (\S+) (.*)$', s, re.S)
                if m:
                    verdicts.setdefault(m.group(1), m.group(2))
            if ok:
                todo = [o for o in todo if str(o['id']) not in verdicts]
                if todo:
                    raise Broken('%s: no verdict for %r' % (
                        module, todo[0]['id']))
                break
            # an observation that the specification cannot evaluate
            m = re.findall(r'^/\\ c = (\d+)', text, re.M)
            if not m:
                raise Broken('TLC failed on %s:\n%s' % (module, text[-3000:]))
            bad = todo[int(m[-1]) - 1]
            err = re.findall(r'^Error: (.*(?:\n.*){0,3})', text, re.M)
            verdicts[str(bad['id'])] = (
                'FAIL the observation is not one of the specification: %s' % (
                    ' '.join(err)[:300],))
            tries += 1
            todo = [o for o in todo if str(o['id']) not in verdicts]
            if tries >= 4:
                break
        n = 0
        for o in obs:
            v = verdicts.get(str(o['id']))
            if v is None:
                continue
            n += 1
            if v.startswith('FAIL'):
                self.fail(v[5:], '%s (case %s)' % (v[5:], o['id']),
                          {'module': module, 'cfg': cfg, 'observation': o,
                           'case': what.get(o['id']) if what else None})
        self.traces += n
        return verdicts

    def fail(self, key, msg, replay):
        self.fails.append((key, msg, replay))

    def sample(self, o):
        if len(self.samples) < 3:
            s = json.dumps(o)
            self.samples.append(o if len(s) < 1500 else s[:1500])

    def distinct_of(self, objs):
        for o in objs:
            o = dict(o)
            o.pop('id', None)
            self.distinct.add(hashlib.md5(json.dumps(
                o, sort_keys=True).encode()).hexdigest())

    # ---------------------------------------------------------------- end
    def finish(self, level='model_checking', assumptions=()):
        new = []
        known = known_findings(self.prop)
        seen = set()
        for key, msg, rep in self.fails:
            k = [x for x in known if x['match'] and x['match'] in msg]
            if k:
                if k[0]['what'] not in seen:
                    seen.add(k[0]['what'])
                    print('KNOWN-FINDING: property=%s %s' % (
                        self.prop, k[0]['what']))
            else:
                new.append((key, msg, rep))
        cov = {
            'states': self.states,
            'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'distinct_cases': len(self.distinct),
            'samples': self.samples or ['none'],
        }
        if self.exhaustive is not None:
            cov['exhaustive'] = self.exhaustive
        cov.update(self.notes)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed,
            'level': level, 'coverage': cov,
            'assumptions': list(assumptions),
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        evdir = os.path.join(VERIF, 'evidence')
        if not os.path.isdir(evdir):
            os.makedirs(evdir)
        with open(os.path.join(evdir, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        # one line for each different kind of violation
        rdir = os.path.join(evdir, 'replay')
        kinds = collections.OrderedDict()
        for key, msg, rep in new:
            kinds.setdefault(key, []).append((msg, rep))
        for i, (key, l) in enumerate(list(kinds.items())[:8]):
            if not os.path.isdir(rdir):
                os.makedirs(rdir)
            # the smallest one
            msg, rep = min(l, key=lambda x: len(json.dumps(x[1])))
            p = os.path.join(rdir, '%s-%d.json' % (self.prop, i + 1))
            rep = dict(rep or {}, property=self.prop, message=msg,
                       count=len(l))
            with open(p, 'w') as f:
                json.dump(rep, f)
            print('%s: %s [%d times]' % (self.prop, msg, len(l)))
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
        return 1 if new else 0

    def close(self):
        if os.environ.get('VERIF_KEEP'):
            print('kept', self.dir)
        else:
            shutil.rmtree(self.dir, ignore_errors=True)


def known_findings(prop):
    """entries 'finding: property=ID match="text" what' of the committed file"""
    r = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                m = re.match(r'finding: property=(\S+) match="([^"]+)" (.*)$',
                             l.strip())
                if m and m.group(1) == prop:
                    r.append({'match': m.group(2), 'what': m.group(3)})
    return r


def cfg(invariants=(), constants=None, spec='Spec', extra=''):
    s = 'SPECIFICATION %s\n' % spec
    if invariants:
        s += 'INVARIANTS %s\n' % ' '.join(invariants)
    s += 'CHECK_DEADLOCK FALSE\n'
    if constants:
        s += 'CONSTANTS\n'
        for k, v in constants.items():
            if isinstance(v, bool):
                v = 'TRUE' if v else 'FALSE'
            s += '  %s = %s\n' % (k, v)
    return s + extra
