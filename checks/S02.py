"""S02: the stored classifiers in lockstep with the in-memory one."""
import os
import shutil

from sbclassifier.classifiers.basic import Classifier

from mon import bulk, gen
from mon.db import audit, audit_file
from mon.model import Ledger, record
from mon.scores import same
from mon.stores import STORED, close_store, files, open_store

LEVEL = 'exploration'
RULE = ('A case applies one history of learn, unlearn, score, store, load and reopen to the pickle, dbm '
        'and cdb classifiers and to the in-memory one, and compares after every step the totals, and - '
        'for all, some or none of the tokens, so that lazily loaded records stay unloaded in some cases '
        '- the records, scores and evidence. Tokens are few, so that they pass from none to one, to '
        'many and back across save points. Non-trivial: the history saved and reopened or reloaded a '
        'database with tokens; distinct by the history. Stream "large" trains the same messages hundreds of times, messages with '
        'thousands of tokens, and tokens of thousands of characters. Stream "reloading" compares a classifier that loads again - with unsaved training, or after another one saved - with one that opens a copy of the database, at once and after both went on.')
ASSUMPTIONS = ['the reserved token "saved state" is left out (a known finding)',
               'what of unsaved training a dbm database keeps is left to the code (S06 says what must hold then)']
NEED = {'bulk counts': 5, 'bulk wide': 5, 'bulk long': 5, 'trained in bulk': 2000, 'steps': 10000, 'records compared': 50000, 'scores compared': 4000, 'reopened': 500,
        'reloaded': 500, 'rolled back': 50, 'loaded again': 1500, 'saved by another': 500}


def sync(case, stores, ledger, memory, rng, vocab):
    for kind, c in stores.items():
        case.equal((c.nspam, c.nham), (ledger.nspam, ledger.nham), 'the totals differ', kind)
    r = rng.random()
    if r < 0.3:
        for kind, c in stores.items():
            bad = audit(kind, c, ledger, complete=False, extra=vocab)
            case.count('records compared', len(vocab))
            case.check(not bad, 'the counts differ from those of the in-memory classifier', kind, bad)
    elif r < 0.6:
        m = gen.stream(rng, vocab, 6)
        evidence = rng.random() < .5
        want = memory.spamprob(list(m), True)
        for kind, c in stores.items():
            case.count('scores compared')
            if evidence:
                complaint = same(c.spamprob(gen.shape(rng, m), True), want)
                case.check(complaint is None, 'the evidence differs', kind, complaint, m)
            else:
                p = c.spamprob(gen.shape(rng, m))
                case.check(abs(p - want[0]) < 1e-9, 'the score differs', kind, p, want[0], m)


def run(case):
    rng = case.rng
    kind_of_token = rng.choice([str, bytes])
    vocab = gen.vocabulary(rng, rng.choice([2, 3, 6, 20]), kind_of_token, odd=.2)
    paths = {k: case.path('db.' + k) for k in STORED}
    stores = {k: open_store(k, paths[k]) for k in STORED}
    case.cleanup.append(lambda: [close_store(c) for c in stores.values()])
    ledger, memory = Ledger(), Classifier()
    saved = (ledger.copy(), [])
    trained = []
    clean = True
    ever = 0
    for _ in range(rng.randint(5, 40)):
        r = rng.random()
        case.count('steps')
        if r < 0.33:
            tokens, is_spam = gen.stream(rng, vocab, 5), rng.random() < .5
            case.step('learn', tokens, is_spam)
            for c in list(stores.values()) + [memory]:
                gen.do(c, rng, 'learn', tokens, is_spam)
            ledger.learn(tokens, is_spam)
            trained.append((tokens, is_spam))
            clean = False
        elif r < 0.6 and trained:
            tokens, is_spam = trained.pop(rng.randrange(len(trained)))
            case.step('unlearn', tokens, is_spam)
            for c in list(stores.values()) + [memory]:
                gen.do(c, rng, 'unlearn', tokens, is_spam)
            ledger.unlearn(tokens, is_spam)
            clean = False
        elif r < 0.75:
            case.step('store')
            for c in stores.values():
                c.store()
            saved = (ledger.copy(), list(trained))
            clean = True
        elif r < 0.85 and clean:
            case.step('load')
            for c in stores.values():
                c.load()
            case.count('reloaded')
            ever += bool(ledger.table())
        elif r < 0.95 and clean:
            case.step('reopen')
            for k, c in list(stores.items()):
                close_store(c)
                stores[k] = open_store(k, paths[k])
            case.count('reopened')
            ever += bool(ledger.table())
        elif r < 0.97 and not clean:
            # Training that was not saved is forgotten when reloading.
            case.step('roll back')
            ledger, trained = saved[0].copy(), list(saved[1])
            memory = Classifier()
            for tokens, is_spam in trained:
                memory.learn(tokens, is_spam)
            for k in ('pickle', 'cdb'):
                stores[k].load()
            # A dbm database has no such point; it is made anew.
            close_store(stores['dbm'])
            paths['dbm'] += 'x'
            stores['dbm'] = open_store('dbm', paths['dbm'])
            for tokens, is_spam in trained:
                stores['dbm'].learn(tokens, is_spam)
            stores['dbm'].store()
            clean = True
            case.count('rolled back')
        sync(case, stores, ledger, memory, rng, vocab)
    for k, c in stores.items():
        c.store()
        bad = audit(k, c, ledger, extra=vocab)
        case.check(not bad, 'the counts differ at the end', k, bad)
        close_store(c)
        bad = audit_file(k, paths[k], ledger, vocab)
        case.check(not bad, 'the database differs at the end', k, bad)
    if ever:
        case.distinct(case.log)
        case.sample(case.log)


def reserved_token(case):
    c = open_store('dbm', case.path('db'))
    try:
        c.learn(['saved state', 'x'], True)
        c.learn(['saved state', 'x'], True)
        c.store()
        c.load()
        case.equal((c.nspam, c.nham), (2, 0), 'totals')
        case.equal(record(c, 'saved state'), (2, 0), 'count')
    except Exception as e:
        case.fail('the reserved token corrupts the database: %r' % e)
    finally:
        close_store(c)


PROBES = {'state-key-token': reserved_token}
def large(case):
    """The same on a large scale: counts in the hundreds, thousands of tokens, long tokens."""
    rng = case.rng
    mode = bulk.MODES[case.index % 4]
    steps = bulk.plan(rng, mode, rng.choice([str, bytes]), .4)
    bulk.note(case, mode, steps)
    paths = {k: case.path('db.' + k) for k in STORED}
    stores = {k: open_store(k, paths[k]) for k in STORED}
    case.cleanup.append(lambda: [close_store(c) for c in stores.values()])
    ledger = Ledger()
    looks = set(rng.sample(range(len(steps)), min(len(steps), 3))) | {len(steps) - 1}
    for k, (what, tokens, is_spam) in enumerate(steps):
        for c in stores.values():
            gen.do(c, rng, what, tokens, is_spam)
        getattr(ledger, what)(tokens, is_spam)
        if k not in looks:
            continue
        if rng.random() < .8:
            for c in stores.values():
                c.store()
            if rng.random() < .4:
                for c in stores.values():
                    c.load()
                case.count('reloaded')
            elif rng.random() < .6:
                for kind, c in list(stores.items()):
                    close_store(c)
                    stores[kind] = open_store(kind, paths[kind])
                case.count('reopened')
        memory = Classifier()
        for t, s in ledger.messages():
            memory.learn(list(t), s)
        m = list(tokens)[-120:]
        want = memory.spamprob(m, True)
        for kind, c in stores.items():
            case.count('scores compared')
            complaint = same(c.spamprob(gen.shape(rng, m), True), want)
            case.check(complaint is None, 'the evidence differs', kind, complaint, mode)
            bad = audit(kind, c, ledger, complete=False)
            case.count('records compared', len(ledger.universe))
            case.check(not bad, 'the counts differ from those of the in-memory classifier', kind, bad)
    for kind, c in stores.items():
        c.store()
        close_store(c)
        bad = audit_file(kind, paths[kind], ledger)
        case.check(not bad, 'the database differs at the end', kind, bad)
    case.distinct('large', mode, len(steps), steps[:1])


def reloading(case):
    """A classifier that loads again is as one that opens the database."""
    rng = case.rng
    kind = STORED[case.index % 3]
    vocab = gen.vocabulary(rng, rng.choice([2, 3, 6, 20]), rng.choice([str, bytes]), odd=.1)
    path = case.path('db')

    def train(c, trained):
        for _ in range(rng.randint(0, 5)):
            if trained and rng.random() < .35:
                tokens, is_spam = trained.pop(rng.randrange(len(trained)))
                case.step('unlearn', tokens, is_spam)
                c.unlearn(list(tokens), is_spam)
            else:
                tokens, is_spam = gen.stream(rng, vocab, 5), rng.random() < .5
                case.step('learn', tokens, is_spam)
                c.learn(list(tokens), is_spam)
                trained.append((tokens, is_spam))

    def look(c, m):
        return ((c.nspam, c.nham), {t: record(c, t) for t in vocab} if rng.random() < .5 else None,
                c.spamprob(list(m), True))
    c = open_store(kind, path)
    case.cleanup.append(lambda: close_store(c))
    trained = []            # in the database
    for k in range(rng.randint(2, 5)):
        case.step('session')
        mine = list(trained)
        train(c, mine)
        if rng.random() < .5:
            c.spamprob(gen.stream(rng, vocab, 6))
        if rng.random() < .5:
            c.store()
            case.step('store')
            trained = mine
            mine = list(mine)
            train(c, mine)
        if rng.random() < .5:
            c.spamprob(list(vocab))
        if rng.random() < .4:
            # Another classifier trains and saves in the meantime.
            case.step('another')
            if kind == 'dbm':
                close_store(c)
            other = open_store(kind, path)
            theirs = [] if kind == 'dbm' else list(trained)
            train(other, theirs)
            other.store()
            close_store(other)
            trained = trained + theirs if kind == 'dbm' else theirs
            case.count('saved by another')
        case.step('load')
        c.load()
        case.count('loaded again')
        # A copy, since a dbm file cannot be opened twice.
        copy = case.path('copy%d' % k)
        for a, b in zip(files(kind, path), files(kind, copy)):
            if os.path.exists(a):
                shutil.copyfile(a, b)
        fresh = open_store(kind, copy)
        try:
            for _ in range(2):
                m = gen.stream(rng, vocab, 6) if rng.random() < .5 else list(vocab)
                case.equal((c.nspam, c.nham), (fresh.nspam, fresh.nham), 'the totals differ after loading', kind)
                complaint = same(c.spamprob(gen.shape(rng, m), True), fresh.spamprob(list(m), True))
                case.check(complaint is None, 'the evidence differs after loading', kind, complaint, m)
            if rng.random() < .5:
                for t in vocab:
                    case.equal(record(c, t), record(fresh, t), 'a record differs after loading', kind, t)
            # They remain the same when both go on.
            m, is_spam = gen.stream(rng, vocab, 6), rng.random() < .5
            save = rng.random() < .7
            for x in (c, fresh):
                x.learn(list(m), is_spam)
                x.store() if save else None
                x.unlearn(list(m), is_spam)
                x.store() if rng.random() < .7 else None
            case.equal((c.nspam, c.nham), (fresh.nspam, fresh.nham), 'the totals differ after loading and training', kind)
            for t in vocab:
                case.equal(record(c, t), record(fresh, t), 'a record differs after loading and training', kind, t)
            case.count('records compared', len(vocab))
        finally:
            close_store(fresh)
        # All counts stay known, since only what was saved counts (dbm:
        # nothing is known of unsaved training but that it does no harm).
        if kind == 'dbm':
            trained = []
    case.distinct(kind, case.log)
    case.sample(case.log)


STREAMS = [('reloading', 900, 15000, reloading), ('large', 40, 1500, large), ('lockstep', 2400, 50000, run)]
