"""The monitor runner: drives workloads over the real code, collects what the
monitors of one property observed, and gives the verdict.

A check module (checks/<ID>.py) defines

    LEVEL, RULE, ASSUMPTIONS
    STREAMS  list of (name, cases in quick, cases in thorough, function(case))
    NEED     {counter: minimum}: what must have been observed for a verdict
    PROBES   {key: function(case)}: known findings, which raise Violation

Verdicts: 0 held on everything explored; 1 violated; 2 no verdict (an error of
the harness, or nothing observed).
"""
import collections
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SB_REPO', '/repo')
CODE = os.path.join(REPO, 'sbclassifier') + os.sep
FINDINGS = os.path.join(VERIF, 'known_findings.txt')


class Violation(Exception):
    """The property does not hold on the case at hand."""


class HarnessError(Exception):
    """The harness cannot tell."""


class DoesNotEnd(BaseException):
    """The CPU time limit of a case ran out."""


def _alarm(signum, frame):
    raise DoesNotEnd('the case used up its CPU time')


def short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else '%s...[%d]...%s' % (s[:n // 2], len(s), s[-n // 4:])


def through_code(exc):
    """Whether the traceback of this exception passes through the code."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for frame, _ in traceback.walk_tb(exc.__traceback__):
            if frame.f_code.co_filename.startswith(CODE):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def unusable(kind, text):
    """Whether a monitor failed with an error that shows that what the code
    returned is nothing it can be (None instead of a list, say).

    Names with underscores are the business of the code.
    """
    return kind in ('TypeError', 'AttributeError', 'KeyError', 'IndexError', 'ValueError', 'UnicodeDecodeError',
                    'UnicodeEncodeError', 'ZeroDivisionError') and "attribute '_" not in text


class Case:
    """One execution: its randomness, scratch directory, log and monitors."""

    cpu_limit = 120

    def __init__(self, prop, stream, index, seed, tier, out):
        self.prop, self.stream, self.index = prop, stream, index
        self.seed, self.tier = seed, tier
        self.rng = random.Random('%s/%s/%s/%s' % (seed, prop, stream, index))
        self.log = []
        self.out = out
        self._dir = None
        self._keys = []
        self.cleanup = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    @property
    def dir(self):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix='case-')
        return self._dir

    def path(self, name):
        return os.path.join(self.dir, name)

    def step(self, *what):
        self.log.append(what if len(what) != 1 else what[0])

    def count(self, name, n=1):
        self.out['counters'][name] += n

    def distinct(self, *key):
        """Makes this case non-trivial, and distinct from those with other keys."""
        h = hashlib.blake2b(repr(key).encode('utf-8', 'surrogatepass'),
                            digest_size=8).digest()
        self._keys.append(h)

    def state(self, *key):
        """Registers a distinct observed state or interleaving."""
        h = hashlib.blake2b(repr(key).encode('utf-8', 'surrogatepass'),
                            digest_size=8).digest()
        self.out['states'].add(h)

    def sample(self, what):
        if len(self.out['samples']) < 3:
            self.out['samples'].append(short(what, 900))

    def fail(self, message, *detail):
        if detail:
            message += ': ' + ', '.join(short(d) for d in detail)
        if message.startswith('harness:'):
            raise HarnessError(message)
        raise Violation(message)

    def check(self, condition, message, *detail):
        self.out['counters']['assertions'] += 1
        if not condition:
            self.fail(message, *detail)

    def equal(self, got, want, message, *detail):
        self.out['counters']['assertions'] += 1
        if got != want:
            self.fail(message, 'got ' + short(got), 'expected ' + short(want), *detail)

    def raises(self, kinds, function, *args, **kw):
        """The function must raise one of these; returns the exception."""
        self.out['counters']['assertions'] += 1
        try:
            result = function(*args, **kw)
        except kinds as e:
            return e
        self.fail('no error was raised', getattr(function, '__name__', function),
                  args, 'returned ' + short(result))

    def close(self):
        if self._keys:
            self.out['distinct'].add(hashlib.blake2b(b''.join(self._keys), digest_size=8).digest())
        for f in reversed(self.cleanup):
            try:
                f()
            except Exception:
                pass
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)


def run_case(function, case):
    """Returns None or a dict that describes the violation."""
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, case.cpu_limit)
    cwd = os.getcwd()
    try:
        function(case)
        return None
    except Violation as e:
        message = str(e)
        trace = traceback.format_exc()
    except HarnessError:
        raise
    except (Exception, DoesNotEnd) as e:
        if through_code(e):
            message = 'unexpected %s: %s' % (type(e).__name__, short(str(e), 300))
        elif unusable(type(e).__name__, str(e)):
            message = 'the result of the code is of no use: %s: %s' % (type(e).__name__, short(str(e), 300))
        else:
            raise
        trace = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir(cwd)
        case.close()
    return {'property': case.prop, 'stream': case.stream, 'index': case.index,
            'seed': case.seed, 'tier': case.tier, 'message': message,
            'steps': [short(s, 2000) for s in case.log[-200:]],
            'trace': trace[-4000:]}


def new_out():
    return {'counters': collections.Counter(), 'distinct': set(), 'states': set(),
            'samples': [], 'violation': None, 'error': None, 'evaluations': 0,
            'skipped': 0}


def work(module, prop, seed, tier, shard, shards, deadline, only, root):
    out = new_out()
    scratch = os.path.join(root, 'w%d' % shard)
    os.mkdir(scratch)
    os.chdir(scratch)
    tempfile.tempdir = scratch
    os.environ['TMPDIR'] = scratch
    sampled = set()
    try:
        for name, quick, thorough, function in module.STREAMS:
            n = quick if tier == 'quick' else thorough
            for i in range(n):
                if only is not None:
                    if (name, i) != only:
                        continue
                elif i % shards != shard:
                    continue
                if time.time() > deadline:
                    out['skipped'] += 1
                    continue
                case = Case(prop, name, i, seed, tier, out)
                out['violation'] = run_case(function, case)
                if shard == 0 and case._keys and case.log and name not in sampled:
                    # One sample of each stream, whatever the check itself puts there.
                    sampled.add(name)
                    out['samples'].append('%s: %s' % (name, short('; '.join(short(x, 300) for x in case.log), 700)))
                out['evaluations'] += 1
                out['counters']['cases:' + name] += 1
                if out['violation'] is not None:
                    return out
    except BaseException:
        out['error'] = 'case %s/%s\n%s' % (name, i, traceback.format_exc())
    return out


def _shard(pipe, *args):
    out = work(*args)
    with os.fdopen(pipe, 'wb') as f:
        pickle.dump(out, f)


def run_shards(module, prop, seed, tier, deadline, only, root):
    shards = 1 if only else getattr(module, 'SHARDS', min(8, os.cpu_count() or 1))
    outs, running = [], []
    for k in range(shards):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            status = 1
            try:
                os.close(r)
                _shard(w, module, prop, seed, tier, k, shards, deadline, only, root)
                status = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(status)
        os.close(w)
        running.append((pid, r))
    for pid, r in running:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if data:
            outs.append(pickle.loads(data))
        else:
            out = new_out()
            out['error'] = 'a worker ended without a result'
            outs.append(out)
    return outs


def findings(prop):
    """The known findings of this property: {key: description}."""
    result = {}
    try:
        with open(FINDINGS) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('KNOWN-FINDING: property=%s ' % prop):
                    continue
                _, _, key, description = line.split(' ', 3)
                result[key.split('=', 1)[1]] = description
    except FileNotFoundError:
        pass
    return result


def main(argv):
    prop, tier = argv[0], argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = None
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            case = json.load(f)
        seed, tier, only = case['seed'], case['tier'], (case['stream'], case['index'])
    logging.disable(logging.CRITICAL)
    start = time.time()
    deadline = start + (400 if tier == 'quick' else 2400)
    root = tempfile.mkdtemp(prefix='sbv-%s-' % prop, dir='/tmp')
    status = 2
    try:
        os.chdir(root)
        import sbclassifier
        where = os.path.abspath(sbclassifier.__file__)
        if not where.startswith(CODE):
            print('the code under test was imported from', where)
            return 2
        module = importlib.import_module('checks.' + prop)
        outs = run_shards(module, prop, seed, tier, deadline, only, root)
        status = report(module, prop, tier, seed, outs, start, root, only)
    finally:
        os.chdir('/')
        shutil.rmtree(root, ignore_errors=True)
    return status


def report(module, prop, tier, seed, outs, start, root, only):
    counters = collections.Counter()
    distinct, states, samples, evaluations, skipped = set(), set(), [], 0, 0
    violations, errors = [], []
    for out in outs:
        counters.update(out['counters'])
        distinct |= out['distinct']
        states |= out['states']
        samples.extend(out['samples'])
        evaluations += out['evaluations']
        skipped += out['skipped']
        if out['violation']:
            violations.append(out['violation'])
        if out['error']:
            errors.append(out['error'])
    # Known findings: each has a probe that shows it on the real code.
    for key, description in sorted(findings(prop).items()):
        probe = getattr(module, 'PROBES', {}).get(key)
        if probe is None:
            errors.append('no probe for known finding ' + key)
            continue
        os.chdir(root)
        out = new_out()
        case = Case(prop, 'known:' + key, 0, seed, tier, out)
        if run_case(probe, case) is not None:
            print('KNOWN-FINDING: property=%s key=%s %s' % (prop, key, description))
            counters['known findings shown'] += 1
    order = [s[0] for s in module.STREAMS]
    violations.sort(key=lambda v: (order.index(v['stream']), v['index']))
    evidence = os.path.join(VERIF, 'evidence')
    os.makedirs(evidence, exist_ok=True)
    coverage = {'evaluations': evaluations, 'distinct_nontrivial': len(distinct),
                'rule': module.RULE, 'samples': samples[:6] or ['(none)'],
                'observed': dict(sorted(counters.items()))}
    if states:
        coverage['distinct_states_or_interleavings_observed'] = len(states)
    if skipped:
        coverage['cases_not_run_for_lack_of_time'] = skipped
    wall = round(time.time() - start, 2)
    with open(os.path.join(evidence, prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': module.LEVEL,
                   'coverage': coverage, 'assumptions': list(module.ASSUMPTIONS),
                   'wall_s': wall, 'violations': len(violations)}, f, indent=1)
    print('%s %s seed=%d: %d cases, %d distinct, %d assertions, %.1f s'
          % (prop, tier, seed, evaluations, len(distinct), counters['assertions'], wall))
    if violations:
        v = violations[0]
        replay = os.path.join(evidence, 'replay-%s.json' % prop)
        with open(replay, 'w') as f:
            json.dump(v, f, indent=1)
        print('%s: %s' % (v['property'], v['message']))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if errors:
        print('ERROR of the check:\n' + errors[0])
        return 2
    if only is None:
        for name, least in getattr(module, 'NEED', {}).items():
            if counters[name] < least:
                print('NO VERDICT: only %d of %s observed' % (counters[name], name))
                return 2
        if not distinct:
            print('NO VERDICT: nothing observed')
            return 2
    return 0


if __name__ == '__main__':
    sys.modules['mon.core'] = sys.modules['__main__']
    sys.exit(main(sys.argv[1:]))
