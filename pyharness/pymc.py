"""pymc: bounded-exhaustive enumeration of cases against the real Python API, in worker processes that may crash.

A harness's body(r) enumerates its whole bounded space in a fixed order and calls r.next() once per case; worker w
of n executes the cases with index % n == w.  A failing or crashing case is re-run by check.py before it is reported.
The extension module is built with AddressSanitizer."""
import hashlib
import importlib
import json
import mmap
import os
import struct
import subprocess
import sys
import time
import types

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Failed(Exception):
    pass


class Runner(object):
    def __init__(self, tier, w, n, only, upto, scratch, progress):
        self.thorough = tier == 'thorough'
        self.w, self.n, self.only, self.upto = w, n, only, upto
        self.scratch = scratch
        self.progress = progress
        self.i = -1
        self.cases = self.steps = 0
        self.states = set()
        self.samples = []
        self.desc = None
        self.counters = {}

    def next(self, desc):
        """One case; desc: a string or a function. True if this process executes it."""
        self.i += 1
        if self.only >= 0:
            if self.i != self.only:
                return False
        elif self.i % self.n != self.w or (self.upto >= 0 and self.i > self.upto):
            return False
        self.cases += 1
        self.desc = desc
        if self.progress is not None:
            self.progress[self.w * 16:self.w * 16 + 16] = struct.pack('qd', self.i, time.time())
        if self.i < 2 or self.i & (self.i - 1) == 0:
            self.samples.append(self.text())
        return True

    def done(self):
        return (self.only >= 0 and self.i >= self.only) or (self.upto >= 0 and self.i > self.upto)

    def text(self):
        d = self.desc
        return d() if callable(d) else str(d)

    def check(self, ok, msg):
        if not ok:
            raise Failed(msg() if callable(msg) else msg)

    def state(self, *x):
        self.states.add(hashlib.blake2b(repr(x).encode('utf-8', 'replace'), digest_size=8).digest())

    def step(self, k=1):
        self.steps += k

    def count(self, name):
        self.counters[name] = self.counters.get(name, 0) + 1


def stub_modules(module):
    """Makes 'import gbdt' load the package of /repo with the given extension module."""
    import importlib.machinery
    import importlib.util
    loader = importlib.machinery.ExtensionFileLoader('libgbdt', module)
    spec = importlib.util.spec_from_loader('libgbdt', loader)
    lib = importlib.util.module_from_spec(spec)
    loader.exec_module(lib)
    stub = types.ModuleType('gbdt._libgbdt')
    stub.libgbdt = lib
    for name in ('init_logging', 'BucketizedFloatColumn', 'StringColumn', 'RawFloatColumn'):
        setattr(stub, name, getattr(lib, name))
    try:
        import six  # noqa: F401
    except ImportError:
        six = types.ModuleType('six')
        six.text_type = str
        six.string_types = (str,)
        six.PY2, six.PY3 = False, True
        sys.modules['six'] = six
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    sys.modules['gbdt._libgbdt'] = stub
    import gbdt
    return gbdt


def worker(a):
    progress = None
    if a['progress']:
        f = open(a['progress'], 'r+b')
        progress = mmap.mmap(f.fileno(), 0)
    import gc
    gc.set_threshold(100000, 50, 50)
    scratch = os.path.join(a['scratch'], 'py%d' % os.getpid())
    os.makedirs(scratch)
    os.environ['TMPDIR'] = scratch
    r = Runner(a['tier'], a['w'], a['n'], a['only'], a['upto'], scratch, progress)
    gbdt = stub_modules(a['module'])
    sys.path.insert(0, HERE)
    body = importlib.import_module(a['harness']).body
    out = dict(fail=False)
    try:
        body(r, gbdt)
    except Failed as e:
        out = dict(fail=True, msg=str(e)[:6000], desc=r.text()[:3000], case=r.i)
    except Exception:  # an exception the harness did not expect
        import traceback
        out = dict(fail=True, msg='exception: ' + traceback.format_exc()[-3000:], desc=r.text()[:3000] if r.desc else '', case=r.i)
    out.update(cases=r.cases, steps=r.steps, samples=r.samples[:20], counters=r.counters)
    if a['result']:
        with open(a['result'] + '.states', 'wb') as f:
            f.write(b''.join(r.states))
        with open(a['result'], 'w') as f:
            json.dump(out, f)
    sys.stdout.flush()
    if out['fail']:
        print('FAIL', out['msg'])
    else:
        print('PASSED')
    sys.stdout.flush()
    os._exit(77 if out['fail'] else 0)


def cpu_seconds(pid):
    """The processor time a process has used."""
    try:
        with open('/proc/%d/stat' % pid) as f:
            fields = f.read().rsplit(')', 1)[1].split()
        return (int(fields[11]) + int(fields[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError):
        return 0


def main():
    av = sys.argv[1:]
    opt = {}
    while av:
        k = av.pop(0)
        opt[k.lstrip('-')] = av.pop(0)
    a = dict(module=opt['module'], harness=opt['harness'], tier=opt.get('tier', 'quick'), w=0, n=1, only=-1, upto=-1,
             scratch=opt.get('scratch', '/tmp'), progress=None, result=None)
    if 'inner' in opt:
        a.update(json.loads(opt['inner']))
        return worker(a)
    env = dict(os.environ, LD_PRELOAD=opt['preload'])
    cmd = [sys.executable, os.path.abspath(__file__), '--module', a['module'], '--harness', a['harness'], '--inner']
    if 'case' in opt or 'shard' in opt:
        if 'case' in opt:
            a['only'] = int(opt['case'])
        else:
            a.update(w=int(opt['shard']), n=int(opt['workers']), upto=int(opt['upto']))
        return subprocess.call(cmd + [json.dumps(a)], env=env)
    n = int(opt.get('workers', 8))
    limit = float(opt.get('limit', 60))
    t0 = time.time()
    a['n'] = n
    a['progress'] = os.path.join(a['scratch'], 'progress')
    with open(a['progress'], 'wb') as f:
        f.write(struct.pack('qd', -1, time.time()) * n)
    f = open(a['progress'], 'r+b')
    progress = mmap.mmap(f.fileno(), 0)
    procs, logs = [], []
    for w in range(n):
        b = dict(a, w=w, result=os.path.join(a['scratch'], 'result%d' % w))
        logs.append(open(os.path.join(a['scratch'], 'pylog%d' % w), 'w+', errors='replace'))
        procs.append(subprocess.Popen(cmd + [json.dumps(b)], env=env, stdout=logs[w], stderr=subprocess.STDOUT))
    bad, hang = None, False
    watched = [(-2, 0)] * n
    left = set(range(n))
    while left and bad is None:
        for w in sorted(left):
            rc = procs[w].poll()
            if rc is not None:
                left.discard(w)
                if rc != 0:
                    bad = w
                    break
            else:
                i, t = struct.unpack('qd', progress[w * 16:w * 16 + 16])
                if i != watched[w][0]:
                    watched[w] = (i, cpu_seconds(procs[w].pid))
                # A busy machine makes a case slow.
                if (time.time() - t > 6 * limit or
                        time.time() - t > limit and cpu_seconds(procs[w].pid) - watched[w][1] > limit):
                    bad, hang = w, True
                    break
        time.sleep(0.01)
    for p in procs:
        if p.poll() is None:
            p.kill()
        p.wait()
    res = dict(cases=0, states=0, transitions=0, wall=round(time.time() - t0, 2), counters={}, samples=[], known=[],
               violation=int(bad is not None))
    states = set()
    for w in range(n):
        path = os.path.join(a['scratch'], 'result%d' % w)
        if not os.path.exists(path):
            continue
        o = json.load(open(path))
        res['cases'] += o['cases']
        res['transitions'] += o['steps']
        res['samples'] += o['samples']
        for k, v in o['counters'].items():
            res['counters'][k] = res['counters'].get(k, 0) + v
        s = open(path + '.states', 'rb').read()
        states |= set(s[i:i + 8] for i in range(0, len(s), 8))
    res['samples'] = res['samples'][:12]
    res['states'] = len(states)
    if bad is not None:
        o = {}
        path = os.path.join(a['scratch'], 'result%d' % bad)
        if os.path.exists(path):
            o = json.load(open(path))
        logs[bad].seek(0)
        log = logs[bad].read()
        if not o.get('fail'):
            o = dict(case=struct.unpack('qd', progress[bad * 16:bad * 16 + 16])[0], desc='',
                     msg='hang' if hang else 'the interpreter ends with %s\n%s' % (procs[bad].returncode, log[-3500:]))
        if o['case'] < 0:
            sys.stderr.write('harness: worker could not start\n%s' % log[-4000:])
            return 3
        res.update(case=o['case'], shard=bad, workers=n, hang=int(hang), msg=o['msg'], desc=o['desc'])
    print(json.dumps(res))
    return 1 if bad is not None else 0


if __name__ == '__main__':
    sys.exit(main())
