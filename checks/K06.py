"""K06: adding a message to a file corpus is all or nothing."""
import os
import resource
import signal
import sys

from sbclassifier.corpora import message_added, message_removed
from sbclassifier.corpora.filesystem import ExpiryFileCorpus, FileCorpus
from sbclassifier.message import Message, from_bytes

from mon import mail
from mon.core import Violation
from mon.proc import Child, kill_self

LEVEL = 'fault_enumeration'
RULE = ('A case has a corpus of files with some messages (stored by it or by others), of up to many times the write buffer, and adds or replaces one. '
        '"kills": a first process adds it and counts its interpreter events (calls and returns of Python and C functions); '
        'then for each chosen event a process is killed with SIGKILL there, or by SIGXFSZ when the file reaches a chosen '
        'size; afterwards a new process must find under the id exactly the old message (none, if there was none) or the new '
        'one, every other message as it was and no other, and add the message again. "faults": adding meets a real error '
        '(limit of the file size at any byte, no file can be opened, a directory of that name, a name that is too long, a '
        'message the email package cannot write); if it raised, files and views of the corpus - length, keys, items, lookups, '
        'membership - must be as before, nobody be told, and without the fault the message be added. Non-trivial: kills left '
        'the old as well as the new state, or the fault raised; distinct by content and place.')
ASSUMPTIONS = ['the process is killed, not the machine: what was written to the system is not lost',
               'files that no view of the corpus shows do not count']
NEED = {'kills': 1500, 'killed: the old message': 400, 'killed: no message': 200, 'killed: the new message': 60,
        'killed by size': 150, 'faults that raised': 500, 'limits of size': 250, 'added after a fault': 500}
FILTERS = [('*', ['a', 'b', 'c', 'x y', '.h']), ('*.msg', ['a.msg', 'b.msg', '.msg', 'ü.msg']), ('m?', ['m1', 'm2', 'mx'])]


def a_message(rng, big=True):
    """(bytes of a message that is stored as it is)."""
    while True:
        data = mail.plain(rng, words=rng.choice([1, 5, 30] + [300, 3000, 20000] * big))
        if from_bytes(data).as_bytes() == data:
            return data


def scenario(case):
    rng = case.rng
    pattern, ids = rng.choice(FILTERS)
    directory = case.path('corpus')
    os.mkdir(directory)
    model = {}
    for key in ids:
        if rng.random() < .6:
            model[key] = a_message(rng, rng.random() < .3)
            with open(os.path.join(directory, key), 'wb') as f:
                f.write(model[key])
    key = rng.choice(ids)
    return pattern, directory, model, key, a_message(rng)


def make(directory, pattern, k):
    if k % 3 == 0:
        return ExpiryFileCorpus(1e9, directory, pattern, 1 + k % 7)
    return FileCorpus(directory, pattern, 1 + k % 7)


def know(corpus, model, k):
    """The corpus has stored or seen (some of) its messages itself."""
    for key, data in list(model.items())[:k % 4]:
        if k % 2:
            corpus.add_message(from_bytes(data, key))
        corpus.get(key)


def view(corpus, ids):
    """What the corpus shows."""
    get = {k: corpus.get(k) for k in ids}
    return (len(corpus), sorted(corpus.keys()), sorted(corpus), {k: m.as_bytes() for k, m in corpus.items()},
            sorted(m.as_bytes() for m in corpus.values()), {k: None if m is None else m.as_bytes() for k, m in get.items()},
            {k: k in corpus for k in ids})


def expected(model, ids):
    return (len(model), sorted(model), sorted(model), model, sorted(model.values()),
            {k: model.get(k) for k in ids}, {k: k in model for k in ids})


def find(case, directory, pattern, model, key, new, where):
    """Which state another corpus finds."""
    ids = list(model) + [key, 'absent']
    try:
        got = view(make(directory, pattern, 1), ids)
    except Exception as e:
        raise Violation('the corpus cannot be read after a kill: %s: %s, %s' % (type(e).__name__, e, where))
    if got == expected(dict(model, **{key: new}), ids):
        return 'the new message'
    case.equal(got, expected(model, ids), 'the corpus is neither as before nor as after', where)
    return 'the old message' if key in model else 'no message'


class Counter:

    def __init__(self, at=None):
        self.n, self.at = 0, at

    def __call__(self, frame, event, arg):
        if self.n == self.at:
            kill_self()
        self.n += 1


def adding(directory, pattern, k, key, new, model, watch):
    """Adds the message in another process."""
    def child(send):
        corpus = make(directory, pattern, k)
        know(corpus, model, k)
        message = from_bytes(new, key)
        if watch == 'count' or isinstance(watch, int):
            counter = Counter(None if watch == 'count' else watch)
            sys.setprofile(counter)
            corpus.add_message(message)
            sys.setprofile(None)
            return counter.n
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_FSIZE, (watch[1], resource.RLIM_INFINITY))
        corpus.add_message(message)
    return child


def kills(case):
    rng = case.rng
    pattern, directory, model, key, new = scenario(case)
    k = rng.randrange(42)
    case.step(pattern, 'replaces' if key in model else 'adds', key, len(new), 'others', sorted(model))

    def restore():
        for name in os.listdir(directory):
            os.remove(os.path.join(directory, name))
        for name, data in model.items():
            with open(os.path.join(directory, name), 'wb') as f:
                f.write(data)
    first = Child(adding(directory, pattern, k, key, new, model, 'count'))
    first.wait()
    n = first.judge()
    case.equal(find(case, directory, pattern, model, key, new, 'no kill'), 'the new message', 'after adding')
    places = set(range(max(0, n - 25), n)) | {rng.randrange(n) for _ in range(15)}
    places = sorted(rng.sample(sorted(places), min(len(places), 30 if case.thorough else 14)))
    places += [('size', rng.choice([0, 1, len(new) // 2, len(new) - 1, rng.randrange(len(new))])) for _ in range(2)]
    seen = set()
    for place in places:
        restore()
        child = Child(adding(directory, pattern, k, key, new, model, place))
        child.wait()
        if child.error() is not None:
            child.judge()
        case.count('kills')
        case.count('killed by size', isinstance(place, tuple))
        found = find(case, directory, pattern, model, key, new, place)
        case.count('killed: ' + found)
        seen.add(found)
        if rng.random() < .3:
            later = make(directory, pattern, k)
            later.add_message(from_bytes(new, key))
            case.equal(find(case, directory, pattern, model, key, new, place), 'the new message', 'adding after a kill')
        case.state(pattern, found, place if isinstance(place, int) else 'size')
    if len(seen) > 1:
        case.distinct(pattern, key, sorted(model), new, places)


class Unwritable(Message):

    def as_bytes(self, *args, **kw):
        raise ValueError('cannot be written')


def faults(case):
    rng = case.rng
    pattern, directory, model, key, new = scenario(case)
    k = rng.randrange(42)
    fault = rng.choice(['size', 'size', 'size', 'size', 'files', 'directory', 'long', 'message'])
    at = rng.choice([0, 1, len(new) // 2, len(new) - 1, rng.randrange(len(new))])
    if fault == 'directory':
        if key in model:
            os.remove(os.path.join(directory, key))
            del model[key]
        os.mkdir(os.path.join(directory, key))
    if fault == 'long':
        key = {'*': 'x' * 256, '*.msg': 'x' * 252 + '.msg', 'm?': 'm' + '\0'}[pattern]
    case.step(fault, at, pattern, 'replaces' if key in model else 'adds', key, len(new), 'others', sorted(model))

    def child(send):
        corpus = make(directory, pattern, k)
        ids = list(model) + [key, 'absent']
        know(corpus, model, k)
        told = []
        def hear(sender, message):
            told.append(message)
        message_added.connect(hear)
        message_removed.connect(hear)
        message = from_bytes(new, key)
        if fault == 'message':
            message = Unwritable(key)
        before = view(corpus, ids)
        case.equal(before, expected(model, ids), 'before')
        if fault == 'size':
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (at, resource.RLIM_INFINITY))
        elif fault == 'files':
            have = len(os.listdir('/proc/self/fd')) - 1
            resource.setrlimit(resource.RLIMIT_NOFILE, (have, 4096))
        raised = None
        try:
            corpus.add_message(message)
        except Exception as e:
            raised = type(e).__name__
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            resource.setrlimit(resource.RLIMIT_NOFILE, (4096, 4096))
        if raised is None:
            case.equal(view(corpus, ids), expected(dict(model, **{key: new}), ids), 'after adding without an error', fault)
            return None
        case.equal(view(corpus, ids), before, 'the corpus after a message could not be added', fault, raised)
        case.equal(view(make(directory, pattern, 1), ids), before, 'another corpus', fault, raised)
        case.equal(told, [], 'somebody was told of a message that could not be added', fault)
        if fault in ('size', 'files'):
            corpus.add_message(message)
            case.equal(view(corpus, ids), expected(dict(model, **{key: new}), ids), 'after adding again', fault)
            case.equal(len(told), 1, 'notifications')
        else:
            other = {'*': 'z', '*.msg': 'z.msg', 'm?': 'mz'}[pattern]
            corpus.add_message(from_bytes(new, other))
            case.equal(view(corpus, ids), expected(dict(model, **{other: new}), ids), 'after adding another', fault)
        return raised
    c = Child(child)
    c.wait()
    raised = c.judge()
    case.count('assertions', 5)
    if raised:
        case.count('faults that raised')
        case.count('limits of size', fault == 'size')
        case.count('added after a fault')
        case.distinct(fault, at, key, new)
    case.state(fault, raised, key in model)


STREAMS = [('kills', 160, 3000, kills), ('faults', 900, 20000, faults)]
