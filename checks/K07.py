"""K07: a file corpus can be used while other processes change its directory."""
import os
import random
import sys
import threading
import time
import zlib

from sbclassifier.corpora import message_added, message_removed
from sbclassifier.corpora.filesystem import ExpiryFileCorpus, FileCorpus
from sbclassifier.message import from_bytes

from mon.core import CODE
from mon.proc import Child

LEVEL = 'exploration'
RULE = ('Two to five processes, some with two threads, use the corpus of one directory at once, each with corpus objects of its own. Every '
        'message belongs to one process, which adds, replaces and removes it (also as a file, as another program would) '
        'and all of them look up messages and go through keys, values and items, the length, membership and the text '
        'representation, with delays injected at random calls inside the code and in the middle of iterations. Messages say their key and version and are checked '
        'to be whole. The logs are checked offline: a look-up, or an iteration, must give for every key a version that '
        'was current at some time while it lasted, every message that was there all the time exactly once, and none '
        'that was not there at any time; no operation may fail. In the end, the directory must hold exactly what the owners left. Stream "expiry": several processes expire '
        'the messages of one directory at once while others read: no failure, everything old gone, nothing young. '
        'Non-trivial: at least 4 reading operations overlapped a change; distinct by the observed order of events.')
ASSUMPTIONS = ['changes to one key come from one process at a time, so that the order of versions is known',
               'the filesystem lists the files that are not touched during the listing']
NEED = {'removed after another program did': 50, 'looked up': 2000, 'iterations': 3000, 'overlap a change': 3000, 'changes': 2500, 'expired by several': 150,
        'passed over while they vanished': 20}


def body_of(key, version, size):
    text = ('%s %d ' % (key, version) + 'x' * size)
    return text + ' %08x' % zlib.crc32(text.encode())


def content(key, version, size):
    return ('Subject: %s\n\n%s\n' % (key, body_of(key, version, size))).encode()


def version_of(key, message):
    """The version, or a text that says what is wrong."""
    payload = message.get_payload()
    text = payload.rstrip('\n')
    try:
        text, crc = text.rsplit(' ', 1)
        if '%08x' % zlib.crc32(text.encode()) != crc:
            return 'not whole: %r' % payload[:60]
        k, version, _ = text.split(' ', 2)
    except ValueError:
        return 'not whole: %r' % payload[:60]
    if k != key:
        return 'the message of %r instead of %r' % (k, key)
    if message.id() != key:
        return 'has the id %r instead of %r' % (message.id(), key)
    return int(version)


def delays(seed, rate, size):
    rng = random.Random(seed)

    def profile(frame, event, arg):
        if rng.random() < rate and frame.f_code.co_filename.startswith(CODE):
            time.sleep(rng.random() * size)
    return profile


def worker(make, directory, seed, own, count, rate, size):
    """Uses the corpus; returns the log of (kind, detail, start, end)."""
    rng = random.Random(seed)
    corpus = make(rng)
    log = []
    there = {}
    held = {}
    keys = own[0] + own[1]
    version = 1000
    now = time.monotonic_ns
    if rate:
        sys.setprofile(delays(seed, rate, size))
    try:
        for _ in range(count):
            kind = rng.choice(['change', 'change', 'get', 'items', 'values', 'keys', 'len', 'in', 'repr', 'iter'])
            if kind == 'change' and own[0]:
                key = rng.choice(own[0])
                version += 1
                length = rng.choice([0, 10, 3000, 40000, 200000])
                how = rng.choice(['add', 'add', 'remove', 'unlink', 'write'])
                if how in ('remove', 'unlink') and not there.get(key) and not (how == 'remove' and rng.random() < .3):
                    how = 'add'
                data = content(key, version, length)
                start = now()
                if how == 'add':
                    m = from_bytes(data, key)
                    start = now()
                    corpus.add_message(m)
                    there[key] = 'corpus'
                    held[key] = version
                elif how == 'write' and key not in held:
                    with open(os.path.join(directory, '.tmp-' + key + '~'), 'wb') as f:
                        f.write(data)
                    start = now()
                    os.replace(os.path.join(directory, '.tmp-' + key + '~'), os.path.join(directory, key))
                    there[key] = 'file'
                elif how == 'unlink':
                    os.unlink(os.path.join(directory, key))
                    there[key] = None
                elif how == 'remove':
                    if not there.get(key):
                        log.append(('gone', key, start, start))
                    m = from_bytes(b'\n', key)
                    corpus.remove_message(m)
                    there[key] = None
                    held.pop(key, None)
                else:
                    continue
                log.append(('change', (key, version if there[key] else None), start, now()))
                continue
            if kind == 'change':
                kind = 'get'
            key = rng.choice(keys)
            start = now()
            if kind == 'get':
                try:
                    m = corpus[key] if rng.random() < .5 else corpus.get(key)
                except KeyError:
                    m = None
                end = now()
                # What this corpus keeps in memory, it may give when another program has removed the file.
                log.append(('get', (key, None if m is None else version_of(key, m), None if there.get(key) else held.get(key)), start, end))
            elif kind == 'in':
                log.append(('in', (key, key in corpus), start, now()))
            elif kind == 'len':
                log.append(('len', len(corpus), start, now()))
            elif kind == 'repr':
                repr(corpus)
                str(corpus)
                log.append(('repr', None, start, now()))
            else:
                found = []
                if kind == 'iter':
                    iterator = iter(corpus)
                else:
                    iterator = iter(getattr(corpus, kind)())
                for x in iterator:
                    if kind == 'items':
                        found.append((x[0], version_of(x[0], x[1])))
                    elif kind == 'values':
                        found.append((x.id(), version_of(x.id(), x)))
                    else:
                        found.append((x, True))
                    if rng.random() < .1:
                        time.sleep(rng.random() * .002)
                log.append((kind, found, start, now()))
    finally:
        sys.setprofile(None)
    return log


class History:
    """What each key may have held at a time."""

    def __init__(self, initial, changes):
        self.changes = {key: [(v, -1, -1)] for key, v in initial.items()}
        for (key, version), start, end in sorted(changes, key=lambda c: c[1]):
            self.changes.setdefault(key, [(None, -1, -1)]).append((version, start, end))

    def possible(self, key, start, end):
        """The versions (None: not there) current at some time in between."""
        changes = self.changes.get(key, [(None, -1, -1)])
        result = []
        for i, (version, s, _) in enumerate(changes):
            if s > end:
                break
            if i + 1 < len(changes) and changes[i + 1][2] < start:
                continue
            result.append(version)
        return result

    def keys(self):
        return self.changes


def histories(case):
    rng = case.rng
    directory = case.path('corpus')
    os.mkdir(directory)
    pattern, suffix = rng.choice([('*.msg', '.msg'), ('k*', ''), ('*[!~]', 'e')])
    processes = rng.randint(2, 5)
    threads = [rng.choice([1, 1, 2]) for _ in range(processes)]
    keys = {}
    initial = {}
    everything = []
    n = 0
    for p in range(processes):
        for t in range(threads[p]):
            keys[p, t] = ['k%d-%d-%d%s' % (p, t, i, suffix) for i in range(rng.choice([0, 1, 2, 4]) if n else 3)]
            everything += keys[p, t]
            n += 1
    stable = ['kstable%d%s' % (i, suffix) for i in range(rng.randint(0, 6))]
    for k in everything + stable:
        if k in stable or rng.random() < .5:
            initial[k] = 1
            with open(os.path.join(directory, k), 'wb') as f:
                f.write(content(k, 1, 100))
    count = rng.choice([20, 40, 80])
    rate, size = rng.choice([(0, 0), (.05, .001), (.3, .0003), (.01, .01)])
    seed = rng.random()
    case.step(threads, pattern, len(stable), count, rate, size)
    go = time.monotonic() + .02

    def make(r):
        if r.random() < .3:
            return ExpiryFileCorpus(1e9, directory, pattern, r.randint(1, 8))
        return FileCorpus(directory, pattern, r.choice([1, 2, 8, 256]))

    def process(p):
        def body(send):
            sys.setswitchinterval(1e-5)
            logs = [None] * threads[p]
            errors = []

            def thread(t):
                others = [k for k in everything + stable if k not in keys[p, t]] or stable or everything
                try:
                    time.sleep(max(0, go - time.monotonic()))
                    logs[t] = worker(make, directory, '%s/%s/%s' % (seed, p, t), (keys[p, t], others), count, rate, size)
                except BaseException as e:
                    errors.append(e)
            ts = [threading.Thread(target=thread, args=(t,)) for t in range(threads[p])]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if errors:
                raise errors[0]
            return logs
        return Child(body)
    children = [process(p) for p in range(processes)]
    for child in children:
        child.wait(100)
    log = []
    for p, child in enumerate(children):
        for part in child.judge():
            log.extend((p,) + x for x in part)
    changes = [(detail, start, end) for _, kind, detail, start, end in log if kind == 'change']
    history = History(initial, changes)
    case.count('changes', len(changes))
    overlaps = 0
    spans = sorted((s, e) for _, s, e in changes)
    for p, kind, detail, start, end in log:
        if kind == 'change':
            continue
        if kind == 'gone':
            case.count('removed after another program did')
            continue
        if any(s < end and start < e for s, e in spans):
            overlaps += 1
        case.count('assertions')
        if kind == 'get':
            key, version, held = detail
            case.count('looked up')
            possible = history.possible(key, start, end) + ([] if held is None else [held])
            if version not in possible:
                case.fail('a look-up of %s gave' % key, version, 'possible', possible)
        elif kind == 'in':
            key, there = detail
            possible = {v is not None for v in history.possible(key, start, end)}
            case.check(there in possible, 'membership of %s' % key, there, possible)
        elif kind == 'len':
            least = most = 0
            for key in history.keys():
                possible = {v is not None for v in history.possible(key, start, end)}
                least += possible == {True}
                most += True in possible
            case.check(least <= detail <= most, 'the length', detail, least, most)
        elif kind not in ('repr', 'gone'):
            case.count('iterations')
            found = {}
            for key, version in detail:
                if key in found:
                    case.fail('%s gave %s twice' % (kind, key))
                found[key] = version
                if isinstance(version, str):
                    case.fail('%s gave a message that is %s' % (kind, version))
            for key in set(found) | set(history.keys()):
                possible = history.possible(key, start, end)
                if key not in found:
                    case.check(None in possible, '%s left out %s' % (kind, key), possible)
                    if len(possible) > 1:
                        case.count('passed over while they vanished')
                elif found[key] is True:
                    case.check(any(v is not None for v in possible), '%s gave %s' % (kind, key), possible)
                elif found[key] not in possible:
                    case.fail('%s gave for %s' % (kind, key), found[key], 'possible', possible)
    # What is left.
    now = time.monotonic_ns()
    left = {}
    corpus = FileCorpus(directory, pattern)
    for key, m in corpus.items():
        left[key] = version_of(key, m)
    want = {}
    for key in history.keys():
        (version,) = history.possible(key, now, now + 1)
        if version is not None:
            want[key] = version
    case.equal(left, want, 'what is left in the end')
    case.equal(sorted(f for f in os.listdir(directory) if not f.endswith('~')), sorted(want), 'the files that are left')
    case.count('overlap a change', overlaps)
    order = [(x[0], x[1]) for x in sorted(log, key=lambda x: x[3])]
    case.state(order)
    if overlaps >= 4:
        case.distinct(order)


def expiry(case):
    rng = case.rng
    directory = case.path('corpus')
    os.mkdir(directory)
    old = ['old%d' % i for i in range(rng.choice([1, 5, 30]))]
    for k in old:
        with open(os.path.join(directory, k), 'wb') as f:
            f.write(content(k, 1, rng.choice([10, 5000])))
    with open(os.path.join(directory, 'other'), 'wb') as f:
        f.write(content('other', 1, 10))
    processes = rng.randint(2, 4)
    rate, size = rng.choice([(0, 0), (.1, .001), (.4, .0005)])
    seed = rng.random()
    case.step(len(old), processes, rate, size)
    go = time.monotonic() + .02

    def process(p):
        def body(send):
            told = []
            message_added.connect(lambda *a, **k: told.append(k), weak=False)
            message_removed.connect(lambda *a, **k: told.append(k), weak=False)
            corpus = ExpiryFileCorpus(0, directory, 'old*', 1 + p)
            r = random.Random('%s/%s' % (seed, p))
            problems = []
            time.sleep(max(0, go - time.monotonic()))
            if rate:
                sys.setprofile(delays('%s/%s' % (seed, p), rate, size))
            try:
                for _ in range(3):
                    if p == 0 or r.random() < .6:
                        corpus.remove_expired_messages()
                    for key, m in corpus.items():
                        v = version_of(key, m)
                        if v != 1:
                            problems.append(v)
                    for m in corpus.values():
                        pass
                    for k in old[:3]:
                        m = corpus.get(k)
                        if m is not None and version_of(k, m) != 1:
                            problems.append(version_of(k, m))
            finally:
                sys.setprofile(None)
            return problems, len(told)
        return Child(body)
    children = [process(p) for p in range(processes)]
    for child in children:
        child.wait(60)
    for child in children:
        problems, told = child.judge()
        case.check(not problems, 'read', problems)
        case.equal(told, 0, 'signals')
    case.equal(sorted(os.listdir(directory)), ['other'], 'what is left')
    case.count('expired by several', len(old))
    case.distinct(len(old), processes, rate, seed)


STREAMS = [('histories', 150, 6000, histories), ('expiry', 60, 2000, expiry)]
