"""S03: killed or failing while saving."""
import errno
import os
import resource
import shutil
import signal
import sys

from sbclassifier import safepickle

from mon import gen
from mon.core import Violation
from mon.db import audit, audit_file, remove_locks
from mon.model import Ledger
from mon.proc import Child, kill_self
from mon.stores import open_store

LEVEL = 'fault_enumeration'
RULE = ('A case has a saved training (or none), and a new one to save, in a pickle or cdb database, from '
        'empty to many times the write buffer. "kills": a first process saves and counts its interpreter '
        'events (calls and returns of Python and C functions, including those in lockfile, tempfile and '
        'one per serialised record); then for each chosen event a process is killed with SIGKILL there, '
        'or by SIGXFSZ when the file reaches a chosen size; afterwards a new process must find exactly '
        'the old or the new training (none or the new one if there was no file), and train and save it. '
        '"faults": saving meets one fault (file size limit, no space when creating or writing, failing '
        'rename, unserialisable record or interrupt in the middle of the records); if it raised, the file '
        'must hold the old training, no lock be left, and a save by the same and by another process '
        'succeed. Non-trivial: kills or faults left the old as well as the new training, or the fault '
        'raised; distinct by database and place.')
ASSUMPTIONS = ['the process is killed, not the machine: what was written to the system is not lost',
               'a lock file that a killed process leaves behind is removed before the file is read (known finding)']
NEED = {'kills': 1500, 'killed: the old training': 500, 'killed: the new training': 60,
        'killed by size': 100, 'faults that raised': 300, 'saves after a fault': 400}


def trained(rng, vocab, n):
    ledger = Ledger()
    steps = []
    for _ in range(n):
        tokens, is_spam = gen.stream(rng, vocab, 12), rng.random() < .5
        ledger.learn(tokens, is_spam)
        steps.append((tokens, is_spam))
    return ledger, steps


def scenario(case):
    """The old ledger or None, the new one, and the steps between them."""
    rng = case.rng
    kind = ('pickle', 'cdb')[case.index % 2]
    token_kind = rng.choice([str, bytes])
    vocab = gen.vocabulary(rng, rng.choice([3, 20, 100]), token_kind, odd=.1)
    path = case.path(rng.choice(['db', 'a b.db']))
    old, new = Ledger(), Ledger()
    had = rng.random() < .75
    if had:
        for _ in range(rng.choice([0, 1, 5, 20])):
            t, s = gen.stream(rng, vocab, 12), rng.random() < .5
            old.learn(t, s)
        if rng.random() < .3:
            big = ['old %d' % i for i in range(rng.choice([300, 3000]))]
            old.learn(big if token_kind is str else [t.encode() for t in big], True)

        def first(send):
            c = open_store(kind, path)
            for t, s in old.messages():
                c.learn(t, s)
            c.store()
        child = Child(first)
        child.wait()
        child.judge()
    new = old.copy()
    steps = []
    for _ in range(rng.choice([1, 1, 3, 10])):
        t, s = gen.stream(rng, vocab, 12, empty=0), rng.random() < .5
        steps.append(('learn', t, s))
        new.learn(t, s)
    if old.messages() and rng.random() < .4:
        t, s = rng.choice(old.messages())
        new.unlearn(t, s)
        steps.append(('unlearn', list(t), s))
    if rng.random() < .3:
        big = ['new %d' % i for i in range(rng.choice([300, 3000]))]
        big = big if token_kind is str else [t.encode() for t in big]
        new.learn(big, False)
        steps.append(('learn', big, False))
    return kind, path, (old if had else None), new, steps, vocab


def prepare(kind, path, steps):
    c = open_store(kind, path)
    for what, t, s in steps:
        getattr(c, what)(t, s)
    return c


class Counter:
    """Counts interpreter events, and ends the process at one of them."""

    def __init__(self, at=None):
        self.n, self.at = 0, at

    def __call__(self, frame, event, arg):
        if self.n == self.at:
            kill_self()
        self.n += 1


def find(case, kind, path, old, new, where):
    """Which training the file holds."""
    remove_locks(path)
    if not os.path.exists(path):
        case.check(old is None, 'the database has vanished', kind, where)
        return 'none'
    complaints = []
    try:
        bad = audit_file(kind, path, new)
        if not bad:
            return 'new'
        complaints.append(bad)
        if old is not None:
            bad = audit_file(kind, path, old)
            if not bad:
                return 'old'
            complaints.append(bad)
    except Exception as e:
        raise Violation('the database cannot be read after a kill: %s: %s: %s, %s'
                        % (type(e).__name__, e, kind, where))
    case.fail('the database holds neither the old nor the new training', kind, where, complaints)


def later_save(case, kind, path, have, vocab, where):
    """A new process trains and saves."""
    want = have.copy() if have is not None else Ledger()
    extra = [vocab[0], vocab[-1]]
    want.learn(extra, True)

    def later(send):
        c = open_store(kind, path)
        c.learn(extra, True)
        c.store()
        return audit_file(kind, path, want)
    child = Child(later)
    child.wait()
    bad = child.judge()
    case.check(child.error() is None and bad == [], 'a later save does not succeed', kind, where, bad)


def kills(case):
    rng = case.rng
    kind, path, old, new, steps, vocab = scenario(case)
    case.step(kind, old and old.trained, steps)
    original = case.path('original')
    if old is not None:
        shutil.copyfile(path, original)

    def restore():
        for f in os.listdir(case.dir):
            if f != 'original':
                os.remove(case.path(f))
        if old is not None:
            shutil.copyfile(original, path)

    def dry(send):
        c = prepare(kind, path, steps)
        counter = Counter()
        sys.setprofile(counter)
        c.store()
        sys.setprofile(None)
        return counter.n, os.path.getsize(path)
    child = Child(dry)
    child.wait()
    total, size = child.judge()
    case.equal(find(case, kind, path, old, new, 'after saving'), 'new', 'what was saved is not there')
    most = 40 if case.thorough else 14
    places = {0, total - 1, total - 2} | {rng.randrange(total) for _ in range(most // 2)}
    # The steps around the records (lock, create, flush, rename, unlock).
    edge = 150
    places |= {rng.randrange(max(0, total - edge), total) for _ in range(most // 2)}
    sizes = {0, 1, size - 1, size // 2, 2048, 4096, 8192}
    sizes = sorted(n for n in sizes | {rng.randrange(size) for _ in range(4)} if n < size)
    attempts = [('event', k) for k in sorted(places) if k >= 0]
    attempts += [('size', n) for n in rng.sample(sizes, min(len(sizes), most // 3))]
    seen = set()
    for how, where in attempts:
        restore()

        def die(send):
            c = prepare(kind, path, steps)
            if how == 'size':
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_FSIZE, (where, where))
            else:
                sys.setprofile(Counter(where))
            c.store()
            sys.setprofile(None)
            send('saved')
            kill_self()
        child = Child(die)
        child.wait()
        child.judge()
        case.count('kills')
        if how == 'size':
            case.check(child.error() is None, 'harness: no kill')
            case.count('killed by size', 'saved' not in child.messages)
        found = find(case, kind, path, old, new, (how, where, total))
        case.count('killed: the %s training' % found)
        case.check('saved' not in child.messages or found == 'new', 'saved, but lost', kind, how, where)
        seen.add(found)
        case.state(kind, old is None, how, where if how == 'event' else 'size', found)
        if rng.random() < .3:
            later_save(case, kind, path, {'none': None, 'old': old, 'new': new}[found], vocab, (how, where))
            case.count('saves after a kill')
    if 'new' in seen and len(seen) > 1:
        case.distinct(kind, old and sorted(old.trained.items()), steps, attempts)
        case.sample(case.log)


class Unwilling:
    """A record that cannot be serialised."""

    armed = False

    def __init__(self, error):
        self.error = error

    def refuse(self, *args):
        if Unwilling.armed:
            raise self.error
        return 1

    __reduce__ = __getstate__ = refuse
    spamcount = hamcount = property(refuse)


class Bad(Exception):
    pass


def refuse(module, name, condition, code):
    """Makes an os function fail for some of its calls."""
    real = getattr(module, name)

    def failing(*args, **kw):
        if condition(*args, **kw):
            failing.failed += 1
            raise OSError(code, os.strerror(code), args[0])
        return real(*args, **kw)
    failing.failed = 0
    setattr(module, name, failing)
    return lambda: setattr(module, name, real)


def faults(case):
    rng = case.rng
    kind, path, old, new, steps, vocab = scenario(case)
    fault = rng.choice(['size', 'size', 'create', 'rename', 'record', 'record', 'interrupt'])
    case.step(kind, fault, old and old.trained, steps)
    size = os.path.getsize(path) if old is not None else 500
    limit = rng.choice([1, 100, 2047, 2048, 4096, 8192, rng.randrange(1, 2 * size + 2)])
    code = rng.choice([errno.ENOSPC, errno.EIO, errno.EACCES, errno.EXDEV])
    where = rng.random()
    again = rng.random() < .5

    def session(send):
        safepickle.DEFAULT_TIMEOUT = .5
        c = prepare(kind, path, steps)
        undo = []
        raised = None
        if fault == 'size':
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
            undo.append(lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY,) * 2))
        elif fault == 'create':
            # Any new file but the lock's own, which are made by lockfile.
            undo.append(refuse(os, 'open', lambda p, flags=0, *a, **k: flags & os.O_CREAT, code))
            import builtins
            undo.append(refuse(builtins, 'open', lambda f, mode='r', *a, **k:
                               isinstance(f, str) and f.startswith(path) and 'w' in mode, code))
        elif fault == 'rename':
            for name in ('rename', 'replace'):
                undo.append(refuse(os, name, lambda a, b, *x, **k: os.path.abspath(b) == path, code))
            import shutil as sh
            undo.append(refuse(sh, 'move', lambda a, b, *x, **k: os.path.abspath(b) == path, code))
        elif fault in ('record', 'interrupt'):
            e = {'record': Bad('no'), 'interrupt': KeyboardInterrupt()}[fault]
            items = list(c.wordinfo.items())
            items.insert(int(where * len(items)), ('bad token', Unwilling(e)))
            good = c.wordinfo
            c.wordinfo = dict(items)
            Unwilling.armed = True
            undo.append(lambda: setattr(c, 'wordinfo', good))
        try:
            c.store()
        except (Exception, KeyboardInterrupt) as e:
            raised = '%s: %s' % (type(e).__name__, e)
        finally:
            for f in reversed(undo):
                f()
        send(('raised', raised, os.path.exists(path + '.lock')))
        reader = Child(lambda send2: (os.path.exists(path) and
                                      [audit_file(kind, path, x) for x in (old or Ledger(), new)]))
        reader.wait()
        send(('found', reader.judge(), os.path.exists(path)))
        if again:
            c.store()
            send(('again', audit_file(kind, path, new)))
        return True
    child = Child(session)
    child.wait()
    child.judge()
    got = {m[0]: m[1:] for m in child.messages if isinstance(m, tuple)}
    case.check('found' in got, 'harness: no report', child.messages)
    raised, lock = got['raised']
    audits, exists = got['found']
    case.check(not lock, 'a lock is left behind after saving', kind, fault, raised)
    if raised is None:
        case.count('faults that did not matter')
        case.check(exists and not audits[1], 'saving did not fail, but the new training is not there',
                   kind, fault, audits)
        have = new
    else:
        case.count('faults that raised')
        case.count('faults that raised: ' + fault)
        if old is None:
            case.check(not exists, 'a failed first save leaves a database', kind, fault, raised, audits)
        else:
            case.check(exists and not audits[0], 'the old training is lost after saving failed',
                       kind, fault, raised, audits)
        have = old
        case.distinct(kind, fault, limit, code, where, steps)
        case.sample((kind, fault, raised, steps))
    if again:
        case.equal(got['again'], ([],), 'a later save by the same process failed', kind, fault)
        have = new
        case.count('saves after a fault')
    later_save(case, kind, path, have, vocab, fault)
    case.count('saves after a fault')


def stale_lock(case):
    path = case.path('db')

    def die(send):
        c = open_store('pickle', path)
        c.learn(['a'], True)
        count = [0]

        def at(frame, event, arg):
            if event == 'c_call' and getattr(arg, '__name__', '') in ('replace', 'rename'):
                kill_self()
        sys.setprofile(at)
        c.store()
    child = Child(die)
    child.wait()

    def later(send):
        safepickle.DEFAULT_TIMEOUT = .3
        c = open_store('pickle', path)
        c.learn(['a'], True)
        c.store()
    child = Child(later)
    child.wait()
    if child.error() is not None:
        raise Violation(child.error()[1])


PROBES = {'stale-lock': stale_lock}
STREAMS = [('kills', 100, 1600, kills), ('faults', 480, 8000, faults)]
