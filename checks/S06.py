"""S06: sessions that end without saving."""
from mon import gen
from mon.core import Violation
from mon.db import audit, keys_of
from mon.model import Ledger, record
from mon.proc import Child, kill_self
from mon.stores import STORED, close_store, open_store

LEVEL = 'exploration'
RULE = ('A case runs several sessions on a pickle, dbm or cdb database; each trains, untrains (only '
        'messages trained before) and saves at random, and ends by saving, by closing, by loading again, by dropping the '
        'classifier or (after a save, before training on) by the end of its process. After a session '
        'without a final save, a pickle or cdb must equal the ledger at the last save; a dbm database '
        'must open, hold no count above the total of its class or below zero, no empty record, and every '
        'message can be scored, trained and untrained (back to the state before). Non-trivial: a session '
        'trained and ended without saving; distinct by the history.')
ASSUMPTIONS = ['the session ends by closing or dropping the database, not by a kill in the middle of a training step',
               'a dbm database whose session is killed fits into the cache of the dbm library (otherwise: known finding)']
NEED = {'loaded again': 400, 'large sessions': 100, 'sessions without saving': 800, 'untrained without saving': 100, 'databases scored': 300,
        'sessions with dbm': 300}


def usable(case, kind, path, vocab, rng):
    """The dbm database can be opened and used, and leaves it as found."""
    c = open_store(kind, path)
    try:
        sound(case, kind, c, vocab, rng)
    finally:
        close_store(c)


def sound(case, kind, c, vocab, rng):
    """The same of a database that is open."""
    alphabet = set(vocab)
    for t in sorted(keys_of(kind, c) | {t for t in alphabet if isinstance(t, str)}, key=repr):
        pair = record(c, t)
        if pair is None:
            continue
        case.check(0 <= pair[0] <= c.nspam and 0 <= pair[1] <= c.nham,
                   'a token count exceeds the number of trained messages', t, pair, (c.nspam, c.nham))
        case.check(pair != (0, 0), 'an empty record', t)
    case.check(c.nspam >= 0 and c.nham >= 0, 'negative totals')
    for m in [list(vocab)] + [gen.stream(rng, vocab, 8) for _ in range(3)]:
        p = c.spamprob(m)
        case.check(0 <= p <= 1, 'the score is not in [0, 1]', p)
        case.count('databases scored')


def run(case):
    rng = case.rng
    kind = rng.choice(STORED + ('dbm', 'dbm'))
    large = case.index % 12 == 0        # counts in the hundreds, and hundreds of tokens
    size = rng.choice([2, 4, 15]) if not large else rng.choice([60, 400])
    vocab = gen.vocabulary(rng, size, rng.choice([str, bytes]), odd=.15)
    top = 6 if not large else size
    case.count('large sessions', large)
    path = case.path('db')
    ledger = Ledger()           # what was last saved
    unsaved = False
    dirty = False               # a dbm database that differs from the ledger
    for _ in range(rng.randint(2, 5)):
        c = open_store(kind, path)
        work = ledger.copy()
        if kind == 'dbm' and dirty:
            # Which messages are still trained is not known: only those
            # trained in this session are untrained.
            mine = []
        else:
            mine = [(list(t), s) for t, s in work.messages()]
            bad = audit(kind, c, work)
            case.check(not bad, 'a session does not find what was saved', kind, bad)
        changed = False
        for _ in range(rng.randint(0, 8)):
            r = rng.random()
            if r < 0.45:
                tokens, is_spam = gen.stream(rng, vocab, top), rng.random() < .5
                times = rng.choice([1, 1, 20, 100]) if large else 1
                case.step('learn', tokens, is_spam, times)
                for _ in range(times):
                    c.learn(list(tokens), is_spam)
                    mine.append((tokens, is_spam))
                    work.learn(tokens, is_spam)
                changed = True
            elif r < 0.8 and mine:
                tokens, is_spam = mine.pop(rng.randrange(len(mine)))
                case.step('unlearn', tokens, is_spam)
                c.unlearn(list(tokens), is_spam)
                if work.trained[(tuple(tokens), is_spam)]:
                    work.unlearn(tokens, is_spam)
                changed = True
                case.count('untrained without saving')
            elif r < 0.9:
                c.spamprob(gen.stream(rng, vocab, 6))
            else:
                case.step('store')
                c.store()
                changed = False
                ledger = work.copy()
        end = rng.choice(['close', 'drop', 'store', 'load'])
        case.step('end', end)
        if end == 'store':
            c.store()
            changed = False
            ledger = work.copy()
        if end == 'load':
            # What was not saved is given up, and the session goes on.
            c.load()
            case.count('loaded again')
            if kind == 'dbm':
                sound(case, kind, c, vocab, rng)
            else:
                bad = audit(kind, c, ledger, extra=vocab)
                case.check(not bad, 'loading does not give what was saved', kind, bad)
            state = (c.nspam, c.nham, {t: record(c, t) for t in vocab})
            m, is_spam = gen.stream(rng, vocab, 6), rng.random() < .5
            c.learn(m, is_spam)
            if rng.random() < .3:
                c.load()
                changed = True
                sound(case, kind, c, vocab, rng) if kind == 'dbm' else None
            else:
                c.unlearn(m, is_spam)
                case.equal((c.nspam, c.nham, {t: record(c, t) for t in vocab}), state, 'training and untraining in a database that was loaded again')
        close_store(c) if end != 'drop' else None
        del c
        case.count('sessions with ' + kind)
        if changed:
            unsaved = True
            case.count('sessions without saving')
        if kind == 'dbm':
            if changed:
                dirty = True
            usable(case, kind, path, vocab, rng)
            # Trained and untrained, it is usable, and back where it was.
            c = open_store(kind, path)
            state = (c.nspam, c.nham, {t: record(c, t) for t in vocab})
            m, is_spam = gen.stream(rng, vocab, 6), rng.random() < .5
            c.learn(m, is_spam)
            p = c.spamprob(list(vocab))
            case.check(0 <= p <= 1, 'the score is not in [0, 1]', p)
            c.unlearn(m, is_spam)
            case.equal((c.nspam, c.nham, {t: record(c, t) for t in vocab}), state,
                       'training and untraining in a database left by an unsaved session')
            if rng.random() < .5:
                c.store()
            close_store(c)
            usable(case, kind, path, vocab, rng)
        else:
            c = open_store(kind, path)
            bad = audit(kind, c, ledger, extra=vocab)
            case.check(not bad, 'a session that did not save changed the database', kind, bad)
    if unsaved:
        case.distinct(kind, case.log)
        case.sample(case.log)


def killed(case):
    """The process ends without a word while it is between training steps."""
    rng = case.rng
    kind = STORED[case.index % 3]
    # A dbm database that does not fit into the cache of the library is the known finding.
    vocab = gen.vocabulary(rng, rng.choice([4, 30, 2000 if kind != 'dbm' else 400]), rng.choice([str, bytes]), odd=.1)
    path = case.path('db')
    ledger = Ledger()
    base = [(gen.stream(rng, vocab, min(len(vocab), 400)), rng.random() < .5) for _ in range(rng.randint(1, 6))]
    for m, s in base:
        ledger.learn(m, s)
    more = [(gen.stream(rng, vocab, min(len(vocab), 400)), rng.random() < .5) for _ in range(rng.randint(1, 4))]
    gone = rng.sample(base, rng.randint(0, len(base)))

    def session(send):
        c = open_store(kind, path)
        for m, s in base:
            c.learn(list(m), s)
        c.store()
        for m, s in more:
            c.learn(list(m), s)
        for m, s in gone:
            c.unlearn(list(m), s)
        send('done')
        if rng.random() < .5:
            return
        kill_self()
    child = Child(session)
    child.wait()
    child.judge()
    case.check('done' in child.messages, 'harness: the session did not finish')
    case.count('sessions without saving')
    case.count('sessions with ' + kind)
    case.step(kind, base, more, gone)
    if kind != 'dbm':
        c = open_store(kind, path)
        bad = audit(kind, c, ledger, extra=vocab)
        case.check(not bad, 'a killed session changed the database', kind, bad)
    else:
        usable(case, kind, path, vocab, rng)
    case.distinct('killed', kind, more, gone)


def pages(case):
    """A killed session on a dbm database of 4000 tokens."""
    path = case.path('db')
    ham = ['h%d' % i for i in range(4000)]

    def session(send):
        c = open_store('dbm', path)
        c.learn(ham, False)
        c.learn(ham, False)
        c.store()
        c.learn(['s%d' % i for i in range(2000)], True)
        kill_self()
    child = Child(session)
    child.wait()
    c = open_store('dbm', path)
    try:
        if c.nham < 2:
            c.spamprob(ham)
            raise Violation('the totals are %d, %d and there are counts of 2' % (c.nspam, c.nham))
    except Exception as error:
        raise Violation(str(error))


PROBES = {'dbm-pages': pages}
STREAMS = [('sessions', 2000, 40000, run), ('killed', 150, 3000, killed)]
