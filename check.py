#!/usr/bin/env python3
"""Runs the check of one property: check.py ID [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1 after a VIOLATION line.  Anything else is an
error of the check (for example, /repo does not compile)."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import vbuild  # noqa: E402
from registry import CHECKS  # noqa: E402

VERIF = vbuild.VERIF
OUT = os.path.join(VERIF, 'out')


def known_findings(pid):
    """Lines 'known: property=<id> key=<key> <what fails>' of known_findings.txt."""
    res = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


ENV = dict(os.environ,
           ASAN_OPTIONS='detect_leaks=0:quarantine_size_mb=16:allocator_may_return_null=1:handle_abort=1:'
                        'detect_stack_use_after_return=0:malloc_context_size=4:symbolize=1',
           UBSAN_OPTIONS='print_stacktrace=1', GLOG_minloglevel='4', LC_ALL='C', TZ='UTC')
for k in list(ENV):
    if k.startswith('GLOG_') and k != 'GLOG_minloglevel':
        del ENV[k]


class Violation(Exception):
    def __init__(self, msg, replay):
        Exception.__init__(self, msg)
        self.msg = msg
        self.replay = replay


class CheckError(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.builder = vbuild.Builder()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], exhaustive=True, parts=[])
        self.assumptions = []
        self.known_hit = set()
        self.known = known_findings(pid)
        self.unconfirmed = []

    def symbolize(self, msg):
        def sub(m):
            try:
                o = subprocess.run(['addr2line', '-Cfie', m.group(1), m.group(2)], stdout=subprocess.PIPE,
                                   universal_newlines=True).stdout.split('\n')
                return '%s at %s' % (o[0], os.path.basename(o[1]))
            except Exception:
                return m.group(0)
        return re.sub(r'\[\[(\S+)\+(0x[0-9a-f]+)\]\]', sub, msg)

    # -------------------------------------------------------------- mcrt
    def mcrt(self, spec):
        exe = self.builder.harness(spec['src'], 'mcrt', only=spec.get('only'))
        cmd = [exe, '--tier', self.tier]
        if spec.get('cap'):
            cmd += ['--cap', str(spec['cap'][self.tier])]
        env = dict(ENV, VERIF_SCRATCH=self.scratch, **spec.get('env', {}))
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, env=env,
                           cwd=self.scratch)
        rows = [json.loads(line) for line in r.stdout.split('\n') if line.startswith('{')]
        for d in rows:
            self.cov['states'] += d['states'] + 1
            self.cov['transitions'] += d['transitions']
            self.cov['traces_validated_against_impl'] += d['executions']
            part = {k: d[k] for k in ('scenario', 'bound', 'executions', 'states', 'transitions', 'switches', 'accesses',
                                      'max_points', 'threads', 'outcomes', 'wall')}
            part['capped'] = bool(d['capped'])
            if d['capped']:
                self.cov['exhaustive'] = False
            self.cov['parts'].append(part)
            if len(self.cov['samples']) < 6:
                self.cov['samples'].append('scenario %s, default schedule -> %s' % (d['scenario'], d['outcome'][:300]))
        bad = [d for d in rows if d['violation']]
        if bad:
            d = bad[0]
            rep = self.write_replay(dict(kind='mcrt', src=spec['src'], scenario=d['scenario'], schedule=d['schedule'],
                                         only=spec.get('only'), msg=d['msg']))
            msg = self.replay_mcrt(json.load(open(rep)), exe, env)
            if msg is None:
                self.unconfirmed.append('%s\n%s' % (d['scenario'], d['msg']))
                return
            raise Violation('scenario %s: %s (schedule: %s)' % (d['scenario'], msg, d['schedule'][:200]), rep)
        if r.returncode != 0 or not rows:
            raise CheckError('harness %s ended with %s\n%s\n%s' % (spec['src'], r.returncode, r.stdout[-2000:],
                                                                    r.stderr[-3000:]))

    def replay_mcrt(self, rep, exe, env):
        """Runs the schedule twice; returns the message if both runs show the violation."""
        f = os.path.join(self.scratch, 'schedule')
        msgs = []
        for sched in (rep['schedule'], rep['schedule'], ''):
            with open(f, 'w') as o:
                o.write(sched)
            r = subprocess.run([exe, '--replay', f, '--scenario', rep['scenario']], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, universal_newlines=True, env=env, cwd=self.scratch)
            rows = [json.loads(x) for x in r.stdout.split('\n') if x.startswith('{')]
            msgs.append(rows[0] if rows else None)
        a, b, base = msgs
        if not a or not b:
            return None
        if a['violation'] and b['violation']:
            return self.symbolize(a['msg'])
        if base and not a['violation'] and a['outcome'] == b['outcome'] and a['outcome'] != base['outcome']:
            return 'result depends on the schedule: %s instead of %s' % (a['outcome'], base['outcome'])
        return None

    # -------------------------------------------------------------- mc
    def mc_command(self, spec):
        if spec['kind'] == 'py':
            py = shutil.which('python3-vt') or sys.executable
            return [py, os.path.join(VERIF, 'pyharness/pymc.py'), '--module', self.builder.pymodule(), '--preload',
                    self.builder.preload(), '--harness', spec['src']]
        return [self.builder.harness(spec['src'], spec.get('profile', 'san'), only=spec.get('only'),
                                     extra_flags=spec.get('flags', ()), link_extra=spec.get('link', ()),
                                     repo_extra=spec.get('repo', ()))]

    def mc(self, spec):
        """A violation that does not replay (real threads) counts when an oracle sees it in two runs.  One that is
        only about time or memory, as on a busy machine, is settled by a run without it."""
        seen = 0
        slow = []
        for _ in range(3):
            d, v = self.mc_once(spec)
            if v is None:
                if seen == 0:
                    self.unconfirmed = [m for m in self.unconfirmed if m not in slow]
                    return
                continue
            if v.confirmed:
                raise v
            if not (d['hang'] or 'crash: status 9' in d['msg'] or 'ends with -9' in d['msg']):
                seen += 1
            else:
                slow.append(v.msg)
            if seen > 1:
                raise v
            self.unconfirmed.append(v.msg)

    def mc_once(self, spec):
        profile = spec.get('profile', 'san')
        exe = self.mc_command(spec)
        args = ['--tier', self.tier, '--seed', str(self.seed), '--scratch', self.scratch] + list(spec.get('args', []))
        for k in self.known:
            args += ['--known', k]
        env = dict(ENV, VERIF_SCRATCH=self.scratch, **spec.get('env', {}))
        r = subprocess.run(exe + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True,
                           env=env, cwd=self.scratch)
        rows = [json.loads(line) for line in r.stdout.split('\n') if line.startswith('{')]
        if not rows or r.returncode not in (0, 1):
            raise CheckError('harness %s ended with %s\n%s\n%s' % (spec['src'], r.returncode, r.stdout[-2000:],
                                                                    r.stderr[-3000:]))
        d = rows[-1]
        self.merge_mc(spec['src'], d)
        if d['violation']:
            w = d['workers']
            base = exe + args
            lim = 4 * spec.get('limit', 30)
            confirmed, how = self.confirm(base + ['--case', str(d['case'])], lim, env)
            replay_args = ['--case', str(d['case'])]
            if not confirmed:
                replay_args = ['--shard', str(d['shard']), '--workers', str(w), '--upto', str(d['case'])]
                confirmed, how = self.confirm(base + replay_args, 20 * lim, env)
            rep = self.write_replay(dict(kind=spec['kind'], src=spec['src'], profile=profile, only=spec.get('only'), repo=spec.get('repo', []),
                                         args=['--tier', self.tier, '--seed', str(self.seed)] +
                                         list(spec.get('args', [])) + replay_args,
                                         case=d['case'], desc=d['desc'] or how[:2000], msg=d['msg']))
            v = Violation('case %d: %s\n  %s' % (d['case'], d['desc'] or how[:1500], d['msg']), rep)
            v.confirmed = confirmed
            return d, v
        return d, None

    def confirm(self, cmd, limit, env):
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, env=env,
                               cwd=self.scratch, timeout=limit, errors='replace')
        except subprocess.TimeoutExpired as e:
            return True, str(e.stdout or '')
        if 'PASSED' in r.stdout and r.returncode == 0:
            return False, r.stdout
        return True, r.stdout

    def merge_mc(self, name, d):
        self.cov['states'] += d['states']
        self.cov['transitions'] += d['transitions']
        self.cov['traces_validated_against_impl'] += d['cases']
        self.cov['parts'].append(dict(harness=name, cases=d['cases'], states=d['states'],
                                      transitions=d['transitions'], counters=d['counters'], wall=d['wall']))
        self.cov['samples'] += d['samples'][:8]
        self.known_hit |= set(d['known'])

    def write_replay(self, rep):
        os.makedirs(OUT, exist_ok=True)
        p = os.path.join(OUT, '%s-replay.json' % self.pid)
        with open(p, 'w') as f:
            json.dump(dict(rep, property=self.pid), f, indent=1)
        return p


def write_evidence(ctx, chk, wall, violations):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = ctx.cov
    if not cov['samples']:
        cov['samples'] = ['none']
    ev = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=chk['level'], coverage=cov,
              assumptions=chk.get('assumptions', []) + ctx.assumptions, wall_s=round(wall, 2), violations=violations)
    p = os.path.join(VERIF, 'evidence', ctx.pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


def run_parts(ctx, chk):
    for part in chk['parts']:
        kind = part['kind']
        if kind == 'mcrt':
            ctx.mcrt(part)
        elif kind in ('mc', 'py'):
            ctx.mc(part)
        else:
            import importlib
            importlib.import_module(part['module']).run(ctx, part)
    if ctx.unconfirmed:
        raise CheckError('violation did not replay: ' + '\n'.join(ctx.unconfirmed))


def replay(path):
    rep = json.load(open(path))
    ctx = Ctx(rep['property'], 'quick', 1)
    try:
        if rep['kind'] == 'mcrt':
            exe = ctx.builder.harness(rep['src'], 'mcrt', only=rep.get('only'))
            msg = ctx.replay_mcrt(rep, exe, dict(ENV, VERIF_SCRATCH=ctx.scratch))
            print(msg or 'no violation')
            return 1 if msg else 0
        if rep['kind'] in ('mc', 'py'):
            exe = ctx.mc_command(rep)
            ok, out = ctx.confirm(exe + ['--scratch', ctx.scratch] + rep['args'], 600,
                                  dict(ENV, VERIF_SCRATCH=ctx.scratch))
            print(out)
            return 1 if ok else 0
        import importlib
        return importlib.import_module(rep['module']).replay(ctx, rep)
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i:i + 2]
    if '--replay' in args:
        return replay(args[args.index('--replay') + 1])
    pid = args[0]
    chk = CHECKS[pid]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    ctx = None
    try:
        ctx = Ctx(pid, tier, seed)
        try:
            run_parts(ctx, chk)
        except Violation as v:
            write_evidence(ctx, chk, time.time() - t0, 1)
            print(v.msg)
            print('VIOLATION property=%s replay=%s' % (pid, v.replay))
            return 1
        for k in sorted(ctx.known_hit):
            print('KNOWN-FINDING: property=%s %s' % (pid, ctx.known.get(k, k)))
        write_evidence(ctx, chk, time.time() - t0, 0)
        c = ctx.cov
        print('%s held: %s' % (pid, ', '.join('%s=%s' % (k, v) for k, v in c.items() if isinstance(v, (int, bool)))))
        print('wall %.1f s' % (time.time() - t0))
        return 0
    except (vbuild.BuildError, CheckError) as e:
        print('ERROR: %s' % e)
        return 2
    finally:
        if ctx:
            shutil.rmtree(ctx.scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
