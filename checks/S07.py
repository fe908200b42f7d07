"""S07: what reading and saving do to the files."""
import copy
import os
import pickle
import resource
import shutil
import signal
import stat
import tempfile

from sbclassifier.classifiers import storage

from mon import gen
from mon.db import audit, audit_file
from mon.model import Ledger
from mon.proc import Child
from mon.stores import STORED, close_store, files, open_store

LEVEL = 'exploration'
RULE = ('A case keeps a database among other files whose names resemble its own (.tmp, .bak, ~, hidden, '
        'directories), reached directly, by a relative path or through symbolic links, with given '
        'permissions, umask and directory for temporary files (on another file system, or missing). "reading": opens it, reloads, scores, lists and copies it, and - pickle and '
        'cdb - trains without saving; after every step the name, inode, content, permissions and time of '
        'every file must be as before (dbm: but for inode and time of the database). "saving": sessions '
        'train and save; all other files must stay as they were, links remain links, permissions remain, '
        'the database be found through every path, and a new file not be more open than the umask. '
        '"failing": a limit on the size of files, a record that cannot be read, an interrupt or a token that '
        'cannot be written makes saving fail; '
        'nothing may have changed then. "flags": sessions with each flag of a dbm database against a model of shelve. Non-trivial: every '
        'case; distinct by the files, steps and training.')
ASSUMPTIONS = ['lock files exist only while the lock is held', 'hard links to a database, and creating a dbm file through a symbolic link (which the dbm library replaces) are left out',
               'the permissions a new file gets below what the umask allows are left to the code']
NEED = {'unchanged': 20000, 'saves': 3000, 'saves through links': 800, 'permissions kept': 1500,
        'flag r': 300, 'flag n': 200, 'flag w': 200, 'refused': 400, 'reloaded after n': 100, 'failed saves': 150, 'failed saves: space': 60, 'failed saves: error': 25, 'failed saves: interrupt': 25, 'failed saves: token': 10, 'other temporary directories': 1500}

SUFFIXES = ['.tmp', '.bak', '~', '.new', '.old', '.1', '.pickle', '.orig', '.swp', '.temp', '.lck', '.part']


def neighbours(case, name, directory):
    """Puts files and directories with similar names beside the database."""
    rng = case.rng
    names = [name + s for s in SUFFIXES] + ['.' + name, '#' + name + '#', 'tmp', 'x' + name, name[:-1] or 'y',
                                            os.path.splitext(name)[0] + '.tmp', '.' + name + '.tmp']
    for n in rng.sample(names, rng.randint(1, len(names))):
        p = os.path.join(directory, n)
        if os.path.lexists(p) or n in (name, name + '.db'):
            continue
        if rng.random() < .15:
            os.mkdir(p)
            p = os.path.join(p, 'in')
        with open(p, 'wb') as f:
            f.write(rng.choice([b'', b'precious', rng.randbytes(50)]))
        os.chmod(p, rng.choice([0o600, 0o644, 0o444]))


def state(directory, loose=()):
    """All files: path -> (type and mode, content or target, inode, time)."""
    result = {}
    for d, _, names in os.walk(directory):
        for n in names + ['.']:
            p = os.path.normpath(os.path.join(d, n))
            s = os.lstat(p)
            if stat.S_ISLNK(s.st_mode):
                content = os.readlink(p)
            elif stat.S_ISREG(s.st_mode):
                with open(p, 'rb') as f:
                    content = f.read()
            else:
                result[p] = (s.st_mode, None)
                continue
            result[p] = (s.st_mode, content) if p in loose else (s.st_mode, content, s.st_ino, s.st_mtime_ns)
    return result


def difference(a, b):
    return [(os.path.basename(p), [x if not isinstance(x, bytes) else x[:40] for x in a.get(p, ('none',))],
             [x if not isinstance(x, bytes) else x[:40] for x in b.get(p, ('none',))])
            for p in sorted(set(a) | set(b)) if a.get(p) != b.get(p)]


def temporary(case):
    """Another directory for temporary files: on another file system, without permissions, or none."""
    how = case.rng.choice([None, None, 'other', 'other', 'missing', 'same'])
    if how is None:
        return None
    old = tempfile.tempdir
    case.cleanup.append(lambda: setattr(tempfile, 'tempdir', old))
    shm = '/dev/shm'
    if how == 'other' and os.path.isdir(shm) and os.access(shm, os.W_OK) and os.stat(shm).st_dev != os.stat(case.dir).st_dev:
        tempfile.tempdir = None
        tempfile.tempdir = tempfile.mkdtemp(prefix='verif-', dir=shm)
        case.cleanup.append(lambda d=tempfile.tempdir: shutil.rmtree(d, ignore_errors=True))
    else:
        tempfile.tempdir = case.path('temporary')
        if how != 'missing':
            os.mkdir(tempfile.tempdir)
    case.count('other temporary directories')
    return tempfile.tempdir


class Place:
    """Where the database is, and the paths that lead to it."""

    def __init__(self, case, kind):
        rng = case.rng
        self.case, self.kind = case, kind
        self.directory = case.path('place')
        os.mkdir(self.directory)
        name = rng.choice(['db', 'hammie.db', 'a b', '.spam', 'tmp1', 'd.tmp', 'données'])
        self.path = os.path.join(self.directory, name)
        self.file = files(kind, self.path)[0]
        self.links = []
        suffix = self.file[len(self.path):]
        self.paths = [self.path]
        for i in range(rng.choice([0, 0, 1, 1, 2, 3])):
            where = rng.choice([self.directory, case.path('elsewhere')])
            os.makedirs(where, exist_ok=True)
            link = os.path.join(where, 'link%d' % i)
            target = rng.choice(self.paths) + suffix
            if rng.random() < .5:
                target = os.path.relpath(target, where)
            os.symlink(target, link + suffix)
            self.links.append(link + suffix)
            self.paths.append(link)
        neighbours(case, name, self.directory)
        if self.links:
            for p in rng.sample(self.links, rng.randint(1, len(self.links))):
                p = p[:-len(suffix)] if suffix else p
                neighbours(case, os.path.basename(p), os.path.dirname(p))
        self.relative = rng.random() < .3
        if self.relative:
            old = os.getcwd()
            case.cleanup.append(lambda: os.chdir(old))
            os.chdir(rng.choice([self.directory, case.dir]))
        if rng.random() < .7:
            old = os.umask(rng.choice([0, 0o002, 0o022, 0o027, 0o077]))
            case.cleanup.append(lambda: os.umask(old))
        self.elsewhere = temporary(case)
        case.step(kind, name, sorted(os.path.relpath(p, case.dir) for p in state(case.dir)), self.relative)

    def any_path(self, create=False):
        """A path to the database; the dbm library replaces a link by the file it creates."""
        rng = self.case.rng
        p = rng.choice(self.paths) if self.kind != 'dbm' or not create else self.path
        if self.relative:
            p = os.path.relpath(p)
            if rng.random() < .3:
                p = os.path.join('.', p)
        elif rng.random() < .2:
            p = os.path.join(os.path.dirname(p), '.', os.path.basename(p))
        return p

    def others(self):
        s = state(self.case.dir)
        if self.elsewhere and os.path.isdir(self.elsewhere):
            s.update(state(self.elsewhere))
        s.pop(self.file, None)
        return s


def train(case, c, ledger, vocab):
    rng = case.rng
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        tokens, is_spam = gen.stream(rng, vocab, 6), rng.random() < .5
        gen.do(c, rng, 'learn', tokens, is_spam)
        ledger.learn(tokens, is_spam)
    if ledger.messages() and rng.random() < .3:
        tokens, is_spam = rng.choice(ledger.messages())
        gen.do(c, rng, 'unlearn', tokens, is_spam)
        ledger.unlearn(tokens, is_spam)


def reading(case):
    rng = case.rng
    kind = STORED[case.index % 3]
    place = Place(case, kind)
    vocab = gen.vocabulary(rng, rng.choice([2, 6, 30]), rng.choice([str, bytes]), odd=.1)
    ledger = Ledger()
    c = open_store(kind, place.path)
    if kind != 'dbm':
        case.check(not os.path.lexists(place.file), 'opening a database has created it', kind)
    train(case, c, ledger, vocab)
    c.store()
    close_store(c)
    os.chmod(place.file, rng.choice([0o600, 0o640, 0o644, 0o664, 0o666, 0o400, 0o444]))
    loose = (place.file,) if kind == 'dbm' else ()
    before = state(case.dir, loose)
    flags = [None]

    def unchanged(what):
        after = state(case.dir, loose)
        case.check(after == before, 'the files have changed', kind, what, flags, difference(before, after))
        case.count('unchanged')

    def opened():
        flags[0] = rng.choice([None, 'c', 'w', 'r', 'r']) if kind == 'dbm' else None
        if flags[0]:
            return storage.ShelveClassifier(place.any_path(), flags[0])
        return open_store(kind, place.any_path())
    c, have = opened(), ledger.copy()
    unchanged('open')
    for _ in range(rng.randint(4, 20)):
        r = rng.random()
        if r < .25:
            tokens = gen.stream(rng, vocab, 8)
            c.spamprob(gen.shape(rng, tokens), *rng.choice([(), (True,)]))
            what = 'score'
        elif r < .4:
            if kind == 'dbm' or rng.random() < .5:
                c.load()
                have = ledger.copy()
            what = 'reload'
        elif r < .5:
            close_store(c)
            c, have = opened(), ledger.copy()
            what = 'open again'
        elif r < .6:
            bad = audit(kind, c, have)
            case.check(not bad, 'the counts are not as expected', kind, bad)
            what = 'list'
        elif r < .65 and kind != 'dbm':
            d = copy.deepcopy(c) if rng.random() < .5 else pickle.loads(pickle.dumps(c))
            if kind == 'pickle':
                bad = audit(kind, d, have)
                case.check(not bad, 'the copy is not equal', kind, bad)
            what = 'copy'
        elif r < .7:
            repr(c), str(c), hash(c)
            what = 'representation'
        elif kind != 'dbm':
            train(case, c, have, vocab)
            what = 'training without saving'
        else:
            continue
        case.step(what)
        unchanged(what)
    close_store(c)
    unchanged('close')
    del c
    unchanged('end')
    bad = audit_file(kind, place.any_path(), ledger)
    case.check(not bad, 'the database is not as saved', kind, bad)
    case.distinct(kind, case.log, ledger.trained.items())


def saving(case):
    rng = case.rng
    kind = STORED[case.index % 3]
    place = Place(case, kind)
    vocab = gen.vocabulary(rng, rng.choice([2, 6, 30]), rng.choice([str, bytes]), odd=.1)
    ledger = Ledger()
    others = place.others()
    mode = None
    for i in range(rng.choice([1, 2, 3])):
        path = place.any_path(i == 0)
        c = open_store(kind, path)
        for _ in range(rng.choice([1, 1, 2, 3])):
            train(case, c, ledger, vocab)
            case.step('save', os.path.relpath(path, case.dir) if os.path.isabs(path) else path, mode)
            c.store()
            case.count('saves')
            case.count('saves through links', int(os.path.islink(files(kind, path)[0])))
            after = place.others()
            case.check(after == others, 'saving has changed other files', kind, path, difference(others, after))
            case.check(os.path.isfile(place.file) and not os.path.islink(place.file),
                       'the database is not in its place', kind, path)
            now = stat.S_IMODE(os.stat(place.file).st_mode)
            if mode is None:
                mask = os.umask(0)
                os.umask(mask)
                case.check(not now & mask and not now & 0o7111, 'the new file is more open than the umask',
                           kind, oct(now), oct(mask))
            else:
                case.check(now == mode, 'the permissions have changed', kind, oct(now), oct(mode))
                case.count('permissions kept')
            if kind != 'dbm' or rng.random() < .5:
                mode = rng.choice([now, 0o600, 0o640, 0o644, 0o664, 0o666, 0o400, 0o444, 0o660])
                os.chmod(place.file, mode)
            else:
                mode = now
        close_store(c)
        if rng.random() < .4:
            for p in place.paths:
                bad = audit_file(kind, p, ledger)
                case.check(not bad, 'the database is not as saved', kind, p, bad)
    for p in place.paths:
        bad = audit_file(kind, p, ledger)
        case.check(not bad, 'the database is not as saved', kind, p, bad)
    after = place.others()
    case.check(after == others, 'other files have changed', kind, difference(others, after))
    case.distinct(kind, case.log, ledger.trained.items())


def raised(f):
    """The error that f raises, without what the dbm library writes about it."""
    old, nowhere = os.dup(2), os.open(os.devnull, os.O_WRONLY)
    os.dup2(nowhere, 2)
    os.close(nowhere)
    try:
        f()
    except (Exception, KeyboardInterrupt) as e:
        return e
    finally:
        os.dup2(old, 2)
        os.close(old)
    return None


def flags(case):
    rng = case.rng
    place = Place(case, 'dbm')
    vocab = gen.vocabulary(rng, rng.choice([2, 6, 30]), rng.choice([str, bytes]), odd=.1)
    ledger = None               # what is saved, if there is a file
    others = place.others()
    for _ in range(rng.randint(2, 8)):
        flag = rng.choice('rwcnr')
        path = place.any_path(flag == 'n' or ledger is None)
        before = state(case.dir, (place.file,))
        case.step(flag, path, ledger and sorted(ledger.trained.items(), key=repr))
        if ledger is None and flag in 'rw':
            e = raised(lambda: storage.ShelveClassifier(path, flag))
            case.check(e is not None, 'a database that does not exist was opened', flag)
            after = state(case.dir, (place.file,))
            case.check(after == before, 'a refused opening has changed files', flag, difference(before, after))
            case.count('refused')
            continue
        c = storage.ShelveClassifier(path, flag) if rng.random() < .5 \
            else storage.ShelveClassifier(filename=path, flag=flag)
        case.count('flag ' + flag)
        have = Ledger() if flag == 'n' or ledger is None else ledger.copy()
        bad = audit('dbm', c, have)
        case.check(not bad, 'the database opened is not as expected', flag, bad)
        if flag == 'r':
            for _ in range(rng.randint(1, 4)):
                tokens, is_spam = gen.stream(rng, vocab, 6), rng.random() < .5
                what = rng.choice(['learn', 'store', 'score', 'load', 'unlearn'])
                case.step(what)
                if what == 'learn':
                    f = lambda: gen.do(c, rng, 'learn', tokens, is_spam)
                elif what == 'unlearn':
                    if not have.messages():
                        continue
                    t, s = rng.choice(have.messages())
                    f = lambda: c.unlearn(list(t), s)
                elif what == 'store':
                    f = c.store
                else:
                    c.load()
                    c.spamprob(tokens)
                    bad = audit('dbm', c, have)
                    case.check(not bad, 'the database opened for reading is not as saved', bad)
                    continue
                case.check(raised(f) is not None, 'a database opened for reading was changed', what)
                case.count('refused')
                c.load()
                bad = audit('dbm', c, have)
                case.check(not bad, 'the database opened for reading is not as saved', what, bad)
            close_store(c)
            after = state(case.dir, (place.file,))
            case.check(after == before, 'a database opened for reading has changed', difference(before, after))
            continue
        for _ in range(rng.randint(0, 3)):
            train(case, c, have, vocab)
            c.store()
            if rng.random() < .6:
                c.load()
                bad = audit('dbm', c, have)
                case.check(not bad, 'the database reloaded is not as saved', flag, bad)
                case.count('reloaded after ' + flag)
            if rng.random() < .3:
                bad = audit('dbm', c, have)
                case.check(not bad, 'the database is not as trained', flag, bad)
        if rng.random() < .3 and flag == 'n':
            c.load()
            bad = audit('dbm', c, have)
            case.check(not bad, 'the database reloaded is not as saved', flag, bad)
            case.count('reloaded after n')
        close_store(c)
        ledger = have
        bad = audit_file('dbm', place.any_path(), ledger)
        case.check(not bad, 'the database is not as saved', flag, bad)
        after = place.others()
        case.check(after == others, 'other files have changed', flag, difference(others, after))
    case.distinct(case.log)


class Unwilling:
    """A record whose reading fails."""

    def __init__(self, error):
        self.error = error

    def refuse(self, *args):
        raise self.error

    __reduce__ = __getstate__ = refuse
    spamcount = hamcount = property(refuse)


def failing(case):
    """Saving fails at any size of the file, or at any record."""
    rng = case.rng
    kind = ('pickle', 'cdb')[case.index % 2]
    fault = rng.choice(['space', 'space', 'error', 'interrupt', 'token'])
    place = Place(case, kind)
    vocab = gen.vocabulary(rng, rng.choice([6, 30, 300]), rng.choice([str, bytes]), odd=.1)
    ledger = Ledger()
    if rng.random() < .7:
        c = open_store(kind, place.path)
        train(case, c, ledger, vocab)
        c.store()
    before, others = state(case.dir), place.others()
    path = place.any_path()

    def session(send):
        c = open_store(kind, path)
        for _ in range(rng.choice([1, 20])):
            c.learn(gen.stream(rng, vocab, 60, empty=0), rng.random() < .5)
        if fault == 'token':
            # Not every token can be written to every database.
            bad = rng.choice(['\ud800', 'a\udcff'])
            c.learn([bad], True)
            e = raised(c.store)
            found = None if e is None else difference(before, state(case.dir))
            c.unlearn([bad], True)
            c.store()
            return fault, e is not None, found
        if fault != 'space':
            good = c.wordinfo
            items = list(good.items())
            error = ArithmeticError('no') if fault == 'error' else KeyboardInterrupt()
            items.insert(rng.randint(0, len(items)), ('bad', Unwilling(error)))
            c.wordinfo = dict(items)
            e = raised(c.store)
            found = None if e is None else difference(before, state(case.dir))
            c.wordinfo = good
            c.store()
            return fault, e is not None, found
        size = len(pickle.dumps(c))
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        limit = rng.choice([0, 1, size // 2, size - 1, rng.randrange(size)])
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
        e = raised(c.store)
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        found = None if e is None else difference(before, state(case.dir))
        c.store()
        return limit, e is not None, found
    child = Child(session)
    child.wait()
    limit, failed, found = child.judge()
    case.step(kind, path, limit, failed)
    if failed:
        case.check(not found, 'a save that failed has changed files', kind, limit, found)
        case.count('failed saves')
        case.count('failed saves: ' + fault)
    after = place.others()
    case.check(after == others, 'other files have changed', kind, difference(others, after))
    case.distinct(case.log, ledger.trained.items())


STREAMS = [('reading', 1500, 20000, reading), ('saving', 1500, 20000, saving), ('flags', 500, 8000, flags),
           ('failing', 300, 4000, failing)]
