"""K04: expiry under a controlled clock."""
import os
import time

from sbclassifier.classifiers.basic import Classifier
from sbclassifier.corpora import message_added, message_removed
from sbclassifier.corpora.filesystem import ExpiryFileCorpus
from sbclassifier.message import from_bytes
from sbclassifier.trainers import SpamTrainer

from mon import mail, standin
from mon.model import record
from mon.stores import file_state, in_memory

LEVEL = 'exploration'
RULE = ('A case controls the clock and the times of change of the files: it lets time pass (also to just '
        'before, at and just after the moment at which the oldest message passes the limit), adds and '
        'replaces messages, lets other programs add and remove files, reopens the corpus, and makes expiry '
        'runs. After each run exactly the message files older than the limit must be gone (from '
        'directory, lookups and length), everything else must be as it was, no observer told and the '
        'classifier of a trainer unchanged. Non-trivial: some run removed some, but not all messages; '
        'distinct by limit, filter and sequence.')
ASSUMPTIONS = ['the clock does not go backwards',
               'a message that is exactly as old as the limit may be removed or not']
NEED = {'other times': 300, 'runs that removed more than 30': 10, 'runs': 15000, 'runs that removed': 3000, 'messages removed': 5000,
        'runs just after the limit': 2000, 'runs just before the limit': 700,
        'messages kept by a run that removed': 2000}

START = 1_400_000_000.0


class World:
    """The clock, and when each file of a directory was changed last."""

    def __init__(self, case, directory):
        self.now = START
        self.directory = os.path.realpath(directory)
        self.changed = {}
        # When their content was, by what it says: a program may have set that.
        self.modified = {}
        self.real_stat = os.stat
        case.cleanup.append(standin.clock(self.time, self.stat))

    def time(self):
        return self.now

    def stat(self, real, path, *args, **kw):
        s = real(path, *args, **kw)
        if isinstance(path, (str, os.PathLike)):
            d, name = os.path.split(os.path.abspath(path))
            if d == self.directory and name in self.changed:
                t = self.changed[name]
                m, a = self.modified.get(name, (t, t))
                seq = list(s)[:10]
                seq[7:10] = [int(a), int(m), int(t)]
                return os.stat_result(seq, {
                    'st_atime': a, 'st_mtime': m, 'st_ctime': t, 'st_atime_ns': int(a * 10**9), 'st_mtime_ns': int(m * 10**9),
                    'st_ctime_ns': int(t * 10**9), 'st_blksize': s.st_blksize, 'st_blocks': s.st_blocks,
                    'st_rdev': s.st_rdev})
        return s


def run(case):
    rng = case.rng
    directory = case.path('corpus')
    os.mkdir(directory)
    world = World(case, directory)
    limit = rng.choice([0, 1, 10, 10, 100, 100, 1000, 7 * 86400, .5, 1e-3, 3600.5, 400 * 86400, 5 * 366 * 86400.])
    unit = max(limit, .01)
    namefilter, ids = rng.choice([('*', ['a', 'b', 'c', 'd', 'e', 'f']),
                                  ('*.msg', ['a.msg', 'b.msg', 'c.msg', 'd.msg', 'e.msg']),
                                  ('m?', ['m1', 'm2', 'm3', 'm4'])])
    crowded = case.stream == 'crowded'
    if crowded:
        namefilter, ids = '*', ['key %d' % i for i in range(rng.choice([60, 300]))]
    size = rng.choice([1, 2, 256] if not crowded else [1, 40, 1000])
    others = {}
    if namefilter != '*':
        for name in ['note', 'keep.txt']:
            with open(os.path.join(directory, name), 'wb') as f:
                f.write(b'x' * rng.randrange(5))
            others[name] = START - rng.random() * 5 * unit
            world.changed[name] = others[name]
    model = {}
    history = []

    def put_file(name, t):
        message = from_bytes(mail.plain(rng))
        with open(os.path.join(directory, name), 'wb') as f:
            f.write(message.as_bytes())
        world.changed[name] = model[name] = t
        world.modified.pop(name, None)
        if rng.random() < .3:
            # Copied with the times of the original, or read since.
            world.modified[name] = rng.choice([t - unit * rng.choice([.5, 3, 100]), t, t + unit * 5]), t + unit * rng.random() * 2
            case.count('other times')
    for name in ids:
        if rng.random() < (.4 if not crowded else .9):
            put_file(name, START - rng.random() * 2.5 * unit)
    told = []

    def hear(sender, message):
        told.append(sender)
    message_added.connect(hear)
    message_removed.connect(hear)
    case.cleanup.append(lambda: (message_added.disconnect(hear), message_removed.disconnect(hear)))
    classifier = Classifier()

    def make():
        c = ExpiryFileCorpus(limit, directory, namefilter, size)
        return c, SpamTrainer(classifier, [c])
    case.step(limit, namefilter, size, dict(model))
    corpus, trainer = make()
    partly = False
    for _ in range(rng.randint(4, 40)):
        r = rng.random()
        if r < .3:
            key = rng.choice(ids)
            message = from_bytes(mail.plain(rng), key)
            # The file is changed at this time.
            model[key] = world.changed[key] = world.now
            world.modified.pop(key, None)
            corpus.add_message(message, emit_signal=rng.random() < .5)
            history.append(('add', key, world.now))
        elif r < .35:
            key = rng.choice(ids)
            if key not in model:
                put_file(key, world.now)
                history.append(('other adds', key, world.now))
        elif r < .4:
            key = rng.choice(ids)
            if key in model and not in_memory(corpus, key):
                os.remove(os.path.join(directory, key))
                del model[key]
                history.append(('other removes', key))
        elif r < .43:
            corpus, trainer = make()
            history.append('reopen')
        else:
            if rng.random() < .85:
                oldest = min(model.values(), default=world.now)
                end = oldest + limit
                tick = max(unit * 1e-3, 2e-6)
                case_time = rng.choice(['before', 'at', 'after', 'after', 'some', 'some', 'far', 'none'])
                to = {'before': end - tick, 'at': end, 'after': end + tick,
                      'some': world.now + rng.random() * unit * (.6 if not crowded else 1.2), 'far': world.now + rng.random() * unit * 3,
                      'none': world.now}[case_time]
                if to >= world.now:
                    world.now = to
                    if case_time in ('before', 'after'):
                        case.count('runs just %s the limit' % case_time, bool(model))
            history.append(('run', world.now))
            must = {k for k, t in model.items() if t + limit < world.now}
            may = {k for k, t in model.items() if t + limit <= world.now}
            before = file_state(directory)
            del told[:]
            counts = (classifier.nspam, classifier.nham, {k: record(classifier, k) for k in classifier.wordinfo})
            corpus.remove_expired_messages()
            after = file_state(directory)
            gone = set(before) - set(after)
            case.count('runs')
            case.count('runs that removed', bool(gone))
            case.count('runs that removed more than 30', len(gone) > 30)
            case.count('messages removed', len(gone))
            ages = {k: world.now - t for k, t in model.items()}
            case.check(must <= gone, 'messages older than the limit remain', must - gone, ages, limit)
            case.check(gone <= may, 'files were removed that are not older than the limit', gone - may, ages, limit)
            case.check(all(before[k] == after[k] for k in after) and set(after) <= set(before),
                       'expiry changed other files')
            case.check(not told, 'expiry told observers', told)
            case.check(counts == (classifier.nspam, classifier.nham,
                                  {k: record(classifier, k) for k in classifier.wordinfo}),
                       'expiry trained or untrained')
            if gone and model.keys() - gone:
                partly = True
                case.count('messages kept by a run that removed', len(model) - len(gone))
            for k in gone:
                del model[k]
                del world.changed[k]
        case.step(history[-1] if history else None)
        case.equal(len(corpus), len(model), 'the length is wrong')
        for key in ids:
            case.equal(key in corpus, key in model, 'wrong membership', key)
            case.equal(corpus.get(key) is not None, key in model, 'a message is forgotten or remembered', key)
    case.state(limit, namefilter, sorted(world.now - t for t in model.values()))
    if partly:
        case.distinct(limit, namefilter, history)
        case.sample(case.log)


STREAMS = [('crowded', 20, 600, run), ('histories', 1600, 30000, run)]
