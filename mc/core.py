"""Explorer: runs every scenario of an enumerated space on the real code.

A check module defines

    PROPERTY   id
    scenarios(tier) -> iterable of JSON-serialisable payloads.  The payloads
                       *are* the enumeration: every one is executed
    run(payload, env)  executes one scenario on the code under test and
                       compares every step with the reference model.  Raises
                       ``Violation`` when the property is broken
    BOUNDS     dict describing the bounds of the enumeration, by tier

Every scenario runs in a forked process of its own, which starts from the
state the freshly imported package is in, so the outcome does not depend on
the order or the number of worker processes.  A scenario that does not end
(hang) or ends the process is a violation as well.
"""
import collections
import gc
import hashlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
NPROC = int(os.environ.get('MC_PROCS', 0)) or min(8, os.cpu_count() or 2)


class Violation(Exception):
    """the property is broken; message tells how"""


class Env(object):
    """what a scenario may use: scratch directory and counters"""

    def __init__(self, tmp):
        self.tmp = tmp
        self.transitions = 0      # operations executed on the real code
        self.traces = 0           # complete traces compared with the model
        self.states = set()       # distinct observed states (hashes)
        self.outcomes = set()     # distinct kinds of outcome
        self._n = 0

    def path(self, name=None):
        self._n += 1
        d = os.path.join(self.tmp, 'd%d' % self._n)
        os.mkdir(d)
        return os.path.join(d, name) if name else d

    def clean(self):
        """remove all files of the scenario"""
        for name in os.listdir(self.tmp):
            shutil.rmtree(os.path.join(self.tmp, name), ignore_errors=True)

    def step(self, n=1):
        self.transitions += n

    def state(self, obj):
        self.states.add(digest(obj))

    def outcome(self, x):
        self.outcomes.add(str(x))

    def trace(self, n=1):
        self.traces += n


def digest(obj):
    return hashlib.blake2b(repr(obj).encode('utf-8', 'replace'),
                           digest_size=8).hexdigest()


def import_freesif():
    """import the package from the working tree of /repo, ignoring any
    compiled files"""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join('/nonexistent', 'pycache')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import freesif
    here = os.path.realpath(freesif.__file__)
    if not here.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit('freesif is not imported from %s: %s' % (REPO, here))
    return freesif


def scratch_root():
    for base in ('/dev/shm', None):
        try:
            if base and not os.access(base, os.W_OK):
                continue
            if base:
                st = os.statvfs(base)
                if st.f_bavail * st.f_frsize < 1 << 30:
                    continue
            return tempfile.mkdtemp(prefix='mcverif_', dir=base)
        except OSError:
            continue
    raise SystemExit('no scratch directory')


def _describe(exc):
    return '%s: %s' % (type(exc).__name__, exc)


def _child(check, payload, tmp, fd):
    """runs in the forked process"""
    out = {}
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    env = Env(tmp)
    try:
        check.run(payload, env)
    except Violation as e:
        out['violation'] = str(e)
        out['trace'] = traceback.format_exc()[-3000:]
    except BaseException as e:
        out['violation'] = 'unexpected ' + _describe(e)
        out['trace'] = traceback.format_exc()[-3000:]
    out['transitions'] = env.transitions
    out['traces'] = env.traces
    out['states'] = sorted(env.states)
    out['outcomes'] = sorted(env.outcomes)[:200]
    data = json.dumps(out).encode()
    while data:
        n = os.write(fd, data)
        data = data[n:]
    os._exit(0)


class Job(object):
    __slots__ = ('idx', 'payload', 'pid', 'fd', 'buf', 'tmp', 'deadline',
                 'poll')


def explore(check, tier, payloads=None, limit_s=180., stop_after=3):
    """run all scenarios; returns (results, coverage)"""
    import select
    root = scratch_root()
    gen = enumerate(payloads if payloads is not None
                    else check.scenarios(tier))
    total = 0
    transitions = traces = 0
    states = set()
    outcomes = set()
    samples = []
    violations = []
    exhausted = False
    jobs = {}
    gc.collect()
    gc.freeze()
    limit_s = getattr(check, 'LIMIT_S', limit_s)
    known = [k for k, _ in known_findings(check.PROPERTY)]
    new = 0
    try:
        while True:
            while (len(jobs) < NPROC and not exhausted and
                   new < stop_after):
                try:
                    idx, payload = next(gen)
                except StopIteration:
                    exhausted = True
                    break
                job = Job()
                job.idx, job.payload = idx, payload
                job.tmp = os.path.join(root, 's%d' % idx)
                os.mkdir(job.tmp)
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(r)
                        for j in jobs.values():
                            os.close(j.fd)
                        os.setsid()
                        os.chdir(job.tmp)
                        _child(check, payload, job.tmp, w)
                    finally:
                        os._exit(77)
                os.close(w)
                job.pid, job.fd, job.buf = pid, r, b''
                job.deadline = time.time() + limit_s
                jobs[r] = job
                total += 1
                if len(samples) < 3 or idx in (10, 100, 1000):
                    samples.append(payload)
            if not jobs:
                break
            ready, _, _ = select.select(list(jobs), [], [], 1.0)
            now = time.time()
            for fd in list(jobs):
                job = jobs[fd]
                res = None
                if fd in ready:
                    data = os.read(fd, 1 << 20)
                    if data:
                        job.buf += data
                        continue
                    os.close(fd)
                    del jobs[fd]
                    _, status = os.waitpid(job.pid, 0)
                    try:
                        res = json.loads(job.buf.decode())
                    except ValueError:
                        res = {'violation': 'the process ended during the '
                                            'scenario (status %d)' % status}
                elif now > job.deadline:
                    os.killpg(job.pid, signal.SIGKILL)
                    os.close(fd)
                    del jobs[fd]
                    os.waitpid(job.pid, 0)
                    res = {'violation': 'no result within %g s: the code '
                                        'under test hangs' % limit_s}
                if res is not None:
                    shutil.rmtree(job.tmp, ignore_errors=True)
                    transitions += res.get('transitions', 0)
                    traces += res.get('traces', 0)
                    states.update(res.get('states', ()))
                    if len(outcomes) < 5000:
                        outcomes.update(res.get('outcomes', ()))
                    if 'violation' in res:
                        violations.append((job.idx, job.payload, res))
                        new += not any(k in res['violation'] for k in known)
    finally:
        for job in jobs.values():
            try:
                os.killpg(job.pid, signal.SIGKILL)
                os.waitpid(job.pid, 0)
            except OSError:
                pass
        shutil.rmtree(root, ignore_errors=True)
    cov = collections.OrderedDict()
    cov['states'] = len(states)
    cov['transitions'] = transitions
    cov['traces_validated_against_impl'] = traces
    cov['scenarios'] = total
    cov['distinct_outcomes'] = len(outcomes)
    cov['outcome_kinds'] = sorted(outcomes)[:12]
    cov['samples'] = samples
    cov['exhaustive'] = bool(exhausted)
    cov['bounds'] = check.BOUNDS.get(tier, check.BOUNDS.get('quick'))
    cov['rule'] = getattr(check, 'RULE', '')
    violations.sort(key=lambda v: v[0])
    return violations, cov


# ---known findings---------------------------------------------------------- #

KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


def known_findings(prop):
    """lines ``finding: property=<id> key=<text> <what fails>``: a violation
    whose message contains the key is that finding"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split('key=', 1)[1]
                key = rest.split('"')[1]
                out.append((key, rest.split('"', 2)[2].strip()))
    return out


# ---command line------------------------------------------------------------ #

def main(check, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = None
    while argv:
        a = argv.pop(0)
        if a == '--tier':
            tier = argv.pop(0)
        elif a == '--replay':
            replay = argv.pop(0)
    prop = check.PROPERTY
    t0 = time.time()
    import_freesif()
    if hasattr(check, 'setup'):
        check.setup()
    if replay:
        payload = json.load(open(replay))['payload']
        violations, cov = explore(check, tier, [payload])
    else:
        violations, cov = explore(check, tier)
    known = known_findings(prop)
    new, seen = [], {}
    for idx, payload, res in violations:
        for key, what in known:
            if key in res['violation']:
                seen[key] = what
                break
        else:
            new.append((idx, payload, res))
    wall = time.time() - t0
    if not replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {'property': prop, 'tier': tier, 'seed': seed,
              'level': 'model_checking', 'coverage': cov,
              'assumptions': list(getattr(check, 'ASSUMPTIONS', [])),
              'wall_s': round(wall, 2), 'violations': len(new)}
        tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        os.replace(tmp, os.path.join(VERIF, 'evidence', '%s.json' % prop))
    for key, what in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    print('%s %s: %d scenarios, %d states, %d transitions, %d traces, '
          '%d outcome kinds, exhaustive=%s, %.1f s' % (
              prop, tier, cov['scenarios'], cov['states'], cov['transitions'],
              cov['traces_validated_against_impl'], cov['distinct_outcomes'],
              cov['exhaustive'], wall))
    if not new:
        return 0
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    for idx, payload, res in new:
        name = 'replays/%s_%s.json' % (prop, digest(payload))
        with open(os.path.join(VERIF, name), 'w') as f:
            json.dump({'property': prop, 'payload': payload,
                       'violation': res['violation'],
                       'trace': res.get('trace', ''),
                       'replay': 'cd /verif && /opt/venv/bin/python -m mc.run '
                                 '%s --replay %s' % (prop, name)}, f, indent=1)
        print('  ' + res['violation'][:600].replace('\n', ' '))
        print('VIOLATION property=%s replay=%s' % (prop, name))
    return 1
