"""S04: several processes and threads on one database."""
import os
import random
import sys
import threading
import time

from sbclassifier import safepickle
from sbclassifier.classifiers.basic import WordInfo
from sbclassifier.classifiers.storage import CDBClassifier, PickleClassifier

from mon.proc import Child
from mon.register import complaint

LEVEL = 'exploration'
RULE = ('A case starts 2-4 processes of 1-3 threads, which save and load one pickle or cdb database at '
        'once, each through its own path or symbolic link, delayed at random in the middle of these operations; every save has a unique number that '
        'determines totals, tokens and counts; some saves fail midway. The log of calls and returns '
        '(system-wide monotonic clock) is checked offline: every load must return one complete training, '
        'and the history must be linearizable as a register (zones of Gibbons and Korach; a failed save '
        'must not take effect). No operation may fail otherwise, at the end no lock is left, and another '
        'process reads at once. Non-trivial: at least 4 pairs of overlapping operations of which one '
        'saves; distinct by the order of the calls and returns.')
ASSUMPTIONS = ['the lock timeout is longer than the contention',
               'the interval in which lockfile polls is shortened']
NEED = {'operations': 4000, 'loads': 1500, 'saves': 1500, 'failed saves': 150,
        'overlapping pairs with a save': 3000, 'loads that overlap a save': 800,
        'histories of CDBClassifier': 40}


class Clock:
    """Stands in for the time module in lockfile: polls more often."""

    def __init__(self, rng):
        self.rng = rng

    def time(self):
        return time.time()

    def sleep(self, seconds):
        time.sleep(self.rng.random() * .002)


class Unwilling:
    """A record that cannot be saved."""

    def __reduce__(self):
        raise ValueError('not serialisable')

    @property
    def spamcount(self):
        raise ValueError('not serialisable')

    hamcount = spamcount


def tokens_of(value):
    return ['t%d' % i for i in range((value * 7919) % 40 + (400 if value % 11 == 0 else 0))]


def fill(c, value):
    c.nspam, c.nham = value, 2 * value
    c.wordinfo = {}
    for t in tokens_of(value):
        w = WordInfo()
        w.spamcount, w.hamcount = value, 2 * value
        c.wordinfo[t] = w


def read_off(c):
    """The number of the training that this classifier holds, or an error."""
    value = c.nspam
    if c.nham != 2 * value:
        return 'mix of totals %d, %d' % (c.nspam, c.nham)
    want = tokens_of(value) if value else []
    if set(c.wordinfo) != set(want):
        return 'training %d with %d tokens instead of %d' % (value, len(c.wordinfo), len(want))
    for t in want:
        w = c.wordinfo[t]
        if (w.spamcount, w.hamcount) != (value, 2 * value):
            return 'training %d with the counts %r' % (value, (w.spamcount, w.hamcount))
    return value


def delays(seed, rate, size, stall):
    """A profile function that delays the operations at random places, once for long."""
    rng = random.Random(seed)
    names = ('safepickle', 'storage', 'lockfile', 'tempfile')
    seen = {}

    def profile(frame, event, arg):
        if stall and 'safepickle' in frame.f_code.co_filename and event == 'c_call' and rng.random() < .1:
            stall.clear()
            time.sleep(.8)
        if rng.random() < rate and any(n in frame.f_code.co_filename for n in names):
            # Functions called for each record are delayed a few times only.
            n = seen[frame.f_code] = seen.get(frame.f_code, 0) + 1
            if n < 60 or rng.random() < .02:
                time.sleep(rng.random() * size)
    return profile


def worker(cls, path, seed, number, count, rate, size, stall, fail, raw):
    """One thread: returns the log."""
    rng = random.Random('%s/%s' % (seed, number))
    log = []
    c = None
    stall = [1] * (stall and number == 1)
    if rate or stall:
        sys.setprofile(delays('%s/%s' % (seed, number), rate, size, stall))
    try:
        for i in range(count):
            kind = rng.choice(['write', 'read', 'read' if c is None else 'write'])
            value = number * 1000 + i + 1
            start = time.monotonic_ns()
            error = None
            try:
                if kind == 'read':
                    start = time.monotonic_ns()
                    if c is None or rng.random() < .5:
                        c = cls(path)
                    elif raw and rng.random() < .3:
                        try:
                            c = safepickle.pickle_read(path)
                            c.filename = path
                        except FileNotFoundError:
                            c.load()
                    else:
                        c.load()
                    end = time.monotonic_ns()
                    value = read_off(c)
                else:
                    if c is None:
                        c = cls(path)
                    fill(c, value)
                    if rng.random() < fail:
                        kind = 'failing'
                        items = list(c.wordinfo.items())
                        items.insert(rng.randint(0, len(items)), ('bad', Unwilling()))
                        c.wordinfo = dict(items)
                    start = time.monotonic_ns()
                    if raw and rng.random() < .3:
                        safepickle.pickle_write(path, c)
                    else:
                        c.store()
                    end = time.monotonic_ns()
            except Exception as e:
                end = time.monotonic_ns()
                import traceback
                error = (type(e).__name__, str(e)[:200], traceback.format_exc()[-1500:])
            log.append((kind, value, start, end, error))
            if rng.random() < .2:
                time.sleep(rng.random() * .002)
    finally:
        sys.setprofile(None)
    return log


def run(case):
    rng = case.rng
    path = case.path('db')
    cls = CDBClassifier if case.index % 4 == 3 else PickleClassifier
    case.count('histories of ' + cls.__name__)
    paths = [path]
    for i in range(rng.choice([0, 0, 1, 2])):
        paths.append(case.path('link%d' % i))
        os.symlink(rng.choice(paths[:-1]), paths[-1])
    processes = rng.randint(2, 4)
    threads = [rng.choice([1, 1, 2, 3]) for _ in range(processes)]
    count = rng.randint(4, 12)
    rate, size = rng.choice([(0, 0), (.05, .001), (.3, .0005), (.02, .01)])
    stall = rng.random() < .15
    fail = rng.choice([0, .1, .3])
    raw = cls is PickleClassifier and rng.random() < .5
    seed = rng.random()
    initial = 0
    if rng.random() < .6:
        initial = 999999
        c = cls(path)
        fill(c, initial)
        c.store()
    case.step(cls.__name__, len(paths), threads, count, rate, size, stall, fail, initial)
    go = time.monotonic() + .02

    def process(p):
        def body(send):
            safepickle.DEFAULT_TIMEOUT = 60
            try:
                import lockfile.linklockfile
                lockfile.linklockfile.time = Clock(random.Random('%s-%s' % (seed, p)))
            except ImportError:
                pass
            sys.setswitchinterval(1e-5)
            logs = [None] * threads[p]

            def thread(k):
                number = sum(threads[:p]) + k + 1
                time.sleep(max(0, go - time.monotonic()))
                logs[k] = worker(cls, paths[number % len(paths)], seed, number, count, rate, size, stall, fail, raw)
            ts = [threading.Thread(target=thread, args=(k,)) for k in range(threads[p])]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            return logs
        return Child(body)
    children = [process(p) for p in range(processes)]
    logs = []
    for child in children:
        child.wait(200)
    for child in children:
        logs.extend(child.judge())
    events, operations = [], []
    for k, log in enumerate(logs):
        case.check(log is not None, 'harness: a thread ended early')
        for kind, value, start, end, error in log:
            if kind == 'failing':
                case.check(error is not None and error[0] == 'ValueError',
                           'saving should have failed because of the record', error)
                case.count('failed saves')
                kind = 'write'
            elif error is not None:
                case.fail('an operation failed because of others', kind, *error)
            else:
                case.check(isinstance(value, int), 'a load returned a mix', value)
                operations.append((kind, value, start, end))
            case.count('operations')
            case.count('saves' if kind == 'write' else 'loads')
            events.append((start, k, kind))
            events.append((end, k))
    for k in range(len(logs)):
        log = [x for x in logs[k]]
        for _, _, start, end, _ in log:
            if not start <= end:
                case.fail('harness: the clock goes backwards')
    case.step(sorted(operations, key=lambda o: o[2]))
    problem = complaint(initial, operations)
    case.check(problem is None, 'the history is not linearizable', problem)
    for p in paths:
        case.check(not os.path.exists(p + '.lock'), 'a lock is left when all have finished')
    if initial or any(o[0] == 'write' for o in operations):
        def last(send):
            safepickle.DEFAULT_TIMEOUT = .5
            return read_off(cls(path))
        child = Child(last)
        child.wait()
        value = child.judge()
        now = time.monotonic_ns()
        case.equal(complaint(initial, operations + [('read', value, now, now + 1)]), None,
                   'a new process does not find what was saved last', value)
    overlaps = 0
    for i, a in enumerate(operations):
        for b in operations[i + 1:]:
            if a[2] < b[3] and b[2] < a[3] and 'write' in (a[0], b[0]):
                overlaps += 1
                if 'read' in (a[0], b[0]):
                    case.count('loads that overlap a save')
    case.count('overlapping pairs with a save', overlaps)
    order = [e[1:] for e in sorted(events)]
    case.state(order)
    if overlaps >= 4:
        case.distinct(order)
        case.sample(case.log)


STREAMS = [('histories', 200, 4000, run)]
