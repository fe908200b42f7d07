"""S05: databases that cannot be read."""
import builtins
import copyreg
import errno
import io
import os
import pickle
import shelve
import struct

from sbclassifier import safepickle
from sbclassifier.classifiers.basic import PICKLE_VERSION, WordInfo
from sbclassifier.classifiers.storage import PickleClassifier

from mon import gen
from mon.db import audit, audit_file
from mon.model import Ledger
from mon.proc import Child
from mon.stores import close_store, file_state, files, open_store

LEVEL = 'fault_enumeration'
RULE = ('A case saves a training, then damages the file - truncates it at every place (small files) or at '
        'many, replaces it by nothing, garbage, text, foreign pickles, foreign cdb files or a directory, '
        'changes its version, makes it unreadable (permissions, errors when opening) or holds its lock in '
        'another process - and opens it, and reloads a classifier in use. Opening and reloading must '
        'raise; a truncated, unreadable or locked file must leave the classifier in use as it was; the '
        'bytes on disk must not change; the restored file opens to the same training; a file that does '
        'not exist makes a new, empty classifier. Non-trivial: every case; distinct by kind, damage and '
        'content.')
ASSUMPTIONS = ['an empty dbm file counts as new (the dbm library makes no difference)',
               'damage that leaves the length of a file as it was (flipped bits) is left out']
NEED = {'truncations': 8000, 'foreign files': 800, 'versions': 300, 'unreadable': 100, 'locked': 60,
        'reloads refused': 3000, 'new': 30, 'gone': 30}


def trained(rng, path, kind, small):
    kind_of_token = rng.choice([str, bytes])
    vocab = gen.vocabulary(rng, rng.choice([1, 3, 6] if small else [10, 60, 300]), kind_of_token, odd=.1)
    ledger = Ledger()
    c = open_store(kind, path)
    for _ in range(rng.choice([0, 1, 2] if small else [3, 10])):
        t, s = gen.stream(rng, vocab, 6 if small else 80), rng.random() < .5
        ledger.learn(t, s)
        c.learn(t, s)
    c.store()
    close_store(c)
    return ledger, vocab


def in_use(case, kind, path, ledger, vocab):
    """A classifier that is open, with training that is not saved yet."""
    c = open_store(kind, path)
    more = ledger.copy()
    if case.rng.random() < .5:
        t = gen.stream(case.rng, vocab, 4, empty=0)
        c.learn(t, True)
        more.learn(t, True)
    return c, more


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def write(path, data):
    with open(path, 'wb') as f:
        f.write(data)


def refused(case, kind, path, damage, used=None, unchanged=True):
    """Opening raises, reloading too; the files stay as they are."""
    before = file_state(case.dir)
    e = raised(lambda: open_store(kind, path))
    case.check(e is not None, 'a classifier was made from a damaged database', kind, damage)
    if used is not None:
        c, ledger = used
        e = raised(c.load)
        case.check(e is not None, 'a damaged database was reloaded', kind, damage, (c.nspam, c.nham))
        case.count('reloads refused')
        if unchanged:
            bad = audit(kind, c, ledger)
            case.check(not bad, 'the classifier has changed although reloading failed', kind, damage, bad)
    after = file_state(case.dir)
    if after != before:
        case.fail('the files have changed', kind, damage,
                  [n for n in set(before) | set(after) if before.get(n) != after.get(n)])


def raised(f):
    try:
        f()
    except Exception as e:
        return e
    return None


def truncations(case):
    rng = case.rng
    kind = ('pickle', 'cdb')[case.index % 2]
    path = case.path('db')
    small = rng.random() < .7
    ledger, vocab = trained(rng, path, kind, small)
    data = read(path)
    used = in_use(case, kind, path, ledger, vocab)
    case.step(kind, ledger.trained, len(data))
    most = 400 if case.thorough else 60
    if len(data) <= most:
        places = range(len(data))
    else:
        places = {0, 1, 2, 3, 4, 2047, 2048, 2049, 2056, len(data) // 2}
        places |= set(range(len(data) - 12, len(data)))
        places |= {rng.randrange(len(data)) for _ in range(most - 20)}
    for n in places:
        if n >= len(data):
            continue
        write(path, data[:n])
        refused(case, kind, path, 'truncated to %d of %d' % (n, len(data)), used)
        case.count('truncations')
    case.distinct(kind, data)
    restored(case, kind, path, data, used, ledger)


def restored(case, kind, path, data, used, ledger):
    write(path, data)
    c = open_store(kind, path)
    bad = audit(kind, c, ledger)
    case.check(not bad, 'the restored database is not as saved', kind, bad)
    if used is not None:
        used[0].load()
        bad = audit(kind, used[0], ledger)
        case.check(not bad, 'the reloaded database is not as saved', kind, bad)


class Pretender:
    """Pickles as a classifier with the given state."""

    def __init__(self, cls, state):
        self.cls, self.state = cls, state

    def __reduce__(self):
        return copyreg._reconstructor, (self.cls, object, None), self.state


def a_cdb(items):
    """A cdb file as its specification says, made without the code."""
    body, tables, pos = b'', {}, 2048
    for k, v in items:
        h = 5381
        for b in k:
            h = ((h << 5) + h & 0xffffffff) ^ b
        tables.setdefault(h & 255, []).append((h, pos))
        body += struct.pack('<LL', len(k), len(v)) + k + v
        pos += 8 + len(k) + len(v)
    header = b''
    for i in range(256):
        e = tables.get(i, [])
        slots = [(0, 0)] * (2 * len(e))
        for h, p in e:
            n = (h >> 8) % len(slots)
            while slots[n] != (0, 0):
                n = (n + 1) % len(slots)
            slots[n] = (h, p)
        header += struct.pack('<LL', pos, len(slots))
        for s in slots:
            body += struct.pack('<LL', *s)
        pos += 8 * len(slots)
    return header + body


def foreign_contents(rng, kind, data):
    words = {'a': WordInfo(1, 2)}
    common = [b'', b'\0', b'\n', b'hello\n', b'From: x\n\ny\n', bytes(2047), bytes(2048), bytes(5000),
              rng.randbytes(rng.choice([1, 10, 2047, 2048, 9000])), b'a' * 3000,
              b'SQLite format 3\0' + bytes(4000), b'PK\3\4' + rng.randbytes(100), b'<html></html>' * 300,
              b'\x1f\x8b' + rng.randbytes(3000), b'\xff' * 2048, b'\xff' * 3000]
    pickles = [pickle.dumps(x, rng.choice([0, 1, 2, 3, 4, 5])) for x in
               [None, 0, 1.5, 'text', b'bytes', [], {}, (), [1, 2, 3], {'a': 1}, {'wordinfo': {}},
                (PICKLE_VERSION, {}, 0, 0), [PICKLE_VERSION, words, 1, 1], words, WordInfo(1, 1),
                {0: PICKLE_VERSION}, ValueError('x'), set(), object(), len, dict]]
    cdbs = [a_cdb(x) for x in [[], [(b'a', b'1,2')], [(b'other state', b'1,2')],
                               [(b'saved state', b'')], [(b'saved state', b'1')],
                               [(b'saved state', b'a,b')], [(b'saved state', b'\xff,1')],
                               [(b'Saved State', b'1,1'), (b'x', b'0,1')],
                               [(b'%d' % i, b'1,0') for i in range(rng.choice([2, 300]))]]]
    if kind == 'pickle':
        return common + pickles + cdbs
    return common + cdbs + pickles


def foreign(case):
    rng = case.rng
    kind = ('pickle', 'cdb')[case.index % 2]
    path = case.path('db')
    used = ledger = data = None
    if rng.random() < .7:
        ledger, vocab = trained(rng, path, kind, True)
        used = in_use(case, kind, path, ledger, vocab)
        data = read(path)
    other = case.path('other')
    trained(rng, other, 'cdb' if kind == 'pickle' else 'pickle', True)
    contents = foreign_contents(rng, kind, data) + [read(other)]
    for content in contents:
        write(path, content)
        case.step(kind, content)
        refused(case, kind, path, content, used, unchanged=False)
        case.count('foreign files')
        if used is not None:
            write(path, data)
            used[0].load()
            used = (used[0], ledger)
    os.remove(path)
    os.mkdir(path)
    refused(case, kind, path, 'a directory', used)
    os.rmdir(path)
    case.distinct(kind, [c for c in contents])
    if used is not None:
        restored(case, kind, path, data, used, ledger)
        os.remove(path)
    new(case, kind, path)


def new(case, kind, path):
    c = open_store(kind, path)
    case.equal((c.nspam, c.nham), (0, 0), 'a new classifier is not empty', kind)
    bad = audit(kind, c, Ledger())
    case.check(not bad, 'a new classifier is not empty', kind, bad)
    c.learn(['a'], True)
    case.equal((c.nspam, c.nham), (1, 0), 'a new classifier cannot be trained', kind)
    c.store()
    case.count('new')
    # A file that is gone makes a classifier in use a new one, too.
    rng = case.rng
    words = ['a', 'b', 'c']
    for _ in range(rng.randint(0, 5)):
        c.learn(rng.sample(words, rng.randint(0, 3)), rng.random() < .5)
        if rng.random() < .3:
            c.store()
    c.spamprob(words)
    for f in files(kind, path):
        os.remove(f)
    c.load()
    ledger = Ledger()
    for i in range(2):
        bad = audit(kind, c, ledger, extra=words)
        case.check(not bad, 'reloading without a file does not make a new classifier', kind, i, bad)
        score, evidence = c.spamprob(words, True)
        if not i:
            case.check(score == .5 and len(evidence) == 2, 'a new classifier has clues', kind, score, evidence)
            ledger.learn(words[:2], False)
            c.learn(words[:2], False)
    c.store()
    close_store(c)
    bad = audit_file(kind, path, ledger, extra=words)
    case.check(not bad, 'a new classifier is not as saved', kind, bad)
    case.count('gone')


def versions(case):
    rng = case.rng
    kind = rng.choice(['pickle', 'dbm'])
    path = case.path('db')
    ledger, vocab = trained(rng, path, kind, True)
    used = in_use(case, kind, path, ledger, vocab) if kind == 'pickle' and rng.random() < .5 else None
    table = {t: WordInfo(*ledger.counts(t)) for t in ledger.table()}
    data = read(files(kind, path)[0])
    for version in rng.sample([0, 1, 2, 3, 4, 6, 7, 50, 51, -5, PICKLE_VERSION + 1, PICKLE_VERSION - 1,
                               '5', 5.5, None, b'5', True, (5,), PICKLE_VERSION * 10], 8):
        if version == PICKLE_VERSION:
            continue
        case.step(kind, version)
        if kind == 'pickle':
            state = (version, table, ledger.nspam, ledger.nham)
            write(path, pickle.dumps(Pretender(PickleClassifier, state), rng.choice([2, 4, 5])))
        else:
            write(files(kind, path)[0], data)
            db = shelve.open(path, 'w')
            db['saved state'] = (version, ledger.nspam, ledger.nham)
            db.close()
        refused(case, kind, path, 'version %r' % (version,), used)
        case.count('versions')
    case.distinct(kind, ledger.trained.items(), case.log)
    if kind == 'pickle':
        # The version is what makes the difference.
        state = (PICKLE_VERSION, table, ledger.nspam, ledger.nham)
        write(path, pickle.dumps(Pretender(PickleClassifier, state)))
        restored(case, kind, path, read(path), used, ledger)


def unreadable(case):
    rng = case.rng
    kind = rng.choice(['pickle', 'cdb'])
    path = case.path('db')
    ledger, vocab = trained(rng, path, kind, True)
    used = in_use(case, kind, path, ledger, vocab)
    data = read(path)
    how = rng.choice(['open', 'open', 'permission', 'directory', 'parent'])
    code = rng.choice([errno.EACCES, errno.EIO, errno.EMFILE, errno.ENFILE, errno.ESTALE, errno.ELOOP,
                       errno.ENOTDIR, errno.EPERM, errno.EINTR, errno.ENOMEM, errno.ETIMEDOUT])
    case.step(kind, how, code)
    if how == 'open':
        real, real_os = builtins.open, os.open

        def is_it(f):
            return isinstance(f, (str, bytes, os.PathLike)) and os.path.abspath(f) == path

        def failing(f, *args, **kw):
            if is_it(f):
                raise OSError(code, os.strerror(code), f)
            return real(f, *args, **kw)

        def failing_os(f, *args, **kw):
            if is_it(f):
                raise OSError(code, os.strerror(code), f)
            return real_os(f, *args, **kw)

        def session(send):
            builtins.open = io.open = failing
            os.open = failing_os
            return outcome()
    else:
        if how == 'permission':
            os.chmod(path, 0)
        elif how == 'directory':
            # The database is in a directory that may not be searched.
            os.mkdir(case.path('in'))
            os.rename(path, case.path('in/db'))
            path = case.path('in/db')
            used[0].filename = path
            os.chmod(case.path('in'), 0o600)
        elif how == 'parent':
            os.mkdir(case.path('in'))
            os.rename(path, case.path('in/db'))
            path = case.path('in/db')
            used[0].filename = path
            os.chmod(case.path('in/db'), 0)
        directory = case.dir
        os.chmod(directory, 0o777)
        while directory != '/tmp':
            directory = os.path.dirname(directory)
            if directory in ('/tmp', '/'):
                break
            os.chmod(directory, 0o755)

        def session(send):
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
            try:
                os.close(os.open(path, os.O_RDONLY))
                return None         # privileges remain
            except PermissionError:
                pass
            return outcome()

    def outcome():
        result = []
        for f in (lambda: open_store(kind, path), used[0].load):
            e = raised(f)
            result.append(type(e).__name__ if e is not None else None)
        return result, audit(kind, *used)
    child = Child(session)
    child.wait()
    e = child.error()
    if e is not None and e[1] == 'PermissionError' and 'setu' in e[5]:
        return              # not privileged enough to give up privileges
    got = child.judge()
    if how == 'directory':
        os.chmod(case.path('in'), 0o700)
    if got is None:
        return
    (opened, reloaded), bad = got
    case.check(opened is not None, 'an unreadable database was opened', kind, how, code)
    case.check(reloaded is not None, 'an unreadable database was reloaded', kind, how, code)
    case.check(not bad, 'the classifier has changed although reloading failed', kind, how, bad)
    case.check(read(path) == data, 'the file has changed', kind, how)
    case.count('unreadable')
    case.count('unreadable: ' + how)
    case.distinct(kind, how, code, data)


def locked(case):
    rng = case.rng
    path = case.path('db')
    ledger, vocab = trained(rng, path, 'pickle', True)
    used = in_use(case, 'pickle', path, ledger, vocab)
    data = read(path)
    r, w = os.pipe()

    def holder(send):
        from lockfile import FileLock
        os.close(w)
        with FileLock(path, timeout=5):
            send('held')
            os.read(r, 1)
    child = Child(holder)
    os.close(r)
    deadline = 2000
    import time
    while not os.path.exists(path + '.lock') and deadline:
        time.sleep(.001)
        deadline -= 1
    old = safepickle.DEFAULT_TIMEOUT
    safepickle.DEFAULT_TIMEOUT = rng.choice([.02, .1])
    try:
        case.check(os.path.exists(path + '.lock'), 'harness: the lock is not held')
        e = raised(lambda: open_store('pickle', path))
        case.check(e is not None, 'a locked pickle was opened')
        e = raised(used[0].load)
        case.check(e is not None, 'a locked pickle was reloaded')
        bad = audit('pickle', *used)
        case.check(not bad, 'the classifier has changed although reloading failed', bad)
        case.check(read(path) == data, 'the file has changed')
        case.check(os.path.exists(path + '.lock'), 'the lock of another process was broken')
        case.count('locked')
    finally:
        safepickle.DEFAULT_TIMEOUT = old
        os.close(w)
        child.wait()
    restored(case, 'pickle', path, data, used, ledger)
    case.distinct('locked', data)
    case.sample(('locked', ledger.trained))


STREAMS = [('truncations', 400, 4000, truncations), ('foreign', 60, 800, foreign),
           ('versions', 80, 1500, versions), ('unreadable', 300, 3000, unreadable),
           ('locked', 120, 1500, locked)]
