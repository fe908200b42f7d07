"""C01: the counts of a classifier against a multiset of trained messages."""
from sbclassifier.classifiers.basic import Classifier

from mon import bulk, gen
from mon.db import audit as audit_db, audit_file
from mon.model import Ledger, disagreements, record
from mon.scores import same
from mon.stores import KINDS, close_store, open_store

LEVEL = 'exploration'
RULE = ('A case is a random history of learn/unlearn calls (both entry points; lists, tuples, sets, '
        'iterators and generators; text or bytes tokens with odd and repeated ones; with and without '
        'bigrams; interleaved refused requests and scorings), and the monitor compares totals and the '
        'record of every token ever used with the ledger model after every step. Stream "foreign" also untrains messages that were never trained: no count may fall below zero, and nothing else change. Stream "broken" trains and scores, in every storage, messages whose tokens cannot be produced to the end: nothing may change. Stream "large" trains the same messages up to a thousand times, and messages with thousands of tokens, and of tokens with thousands of characters. Non-trivial: the '
        'history untrained at least one message, or was refused one; distinct by its steps.')
ASSUMPTIONS = ['token records are read with _wordinfoget and the key set with wordinfo',
               'but for stream "foreign", only messages that are currently trained are untrained']
NEED = {'messages that cannot be read': 3000, 'bulk counts': 10, 'bulk wide': 10, 'bulk long': 10, 'trained in bulk': 5000, 'steps': 2000, 'untrained': 300, 'refused': 50, 'nothing to take away': 5000, 'records compared': 20000}


def keys(c):
    return set(c.wordinfo)


def audit(case, c, ledger, extra=()):
    bad = disagreements(c, ledger, extra)
    case.count('records compared', len(ledger.universe))
    case.count('steps')
    case.check(not bad, 'the counts differ from the messages trained', bad)
    surplus = keys(c) - set(ledger.table())
    case.check(not surplus, 'records of tokens in no trained message', sorted(map(repr, surplus))[:5])


def refuse(case, c, ledger, rng, vocab, bigrams):
    for is_spam in (True, False):
        if ledger.totals[is_spam] == 0:
            tokens = gen.stream(rng, vocab, 6)
            case.step('refused', tokens, is_spam)
            try:
                gen.do(c, rng, 'unlearn', tokens, is_spam, bigrams)
            except Exception:
                case.count('refused')
            else:
                case.fail('untraining a class without messages was not refused', tokens, is_spam)
            audit(case, c, ledger)


def history(case):
    rng = case.rng
    bigrams = rng.random() < 0.35
    kind = rng.choice([str, bytes])
    vocab = gen.vocabulary(rng, rng.choice([3, 8, 25]), kind)
    c = Classifier(use_bigrams=bigrams)
    ledger = Ledger(bigrams)
    alphabet = set(vocab)
    untrained = 0
    key = []
    audit(case, c, ledger, alphabet)
    for _ in range(rng.randint(3, 25)):
        r = rng.random()
        if r < 0.1:
            refuse(case, c, ledger, rng, vocab, bigrams)
            continue
        if r < 0.2:
            c.spamprob(gen.shape(rng, gen.stream(rng, vocab, 8)), rng.random() < .5)
            audit(case, c, ledger, alphabet)
            continue
        trained = ledger.messages()
        if r < 0.55 and trained:
            tokens, is_spam = rng.choice(trained)
            again = list(tokens)
            if not bigrams and rng.random() < 0.5:
                # The same message, with its tokens in another order.
                rng.shuffle(again)
                if again and rng.random() < 0.5:
                    again.append(rng.choice(again))
            case.step('unlearn', again, is_spam)
            gen.do(c, rng, 'unlearn', again, is_spam, bigrams)
            ledger.unlearn(tokens, is_spam)
            untrained += 1
            case.count('untrained')
        else:
            tokens = gen.stream(rng, vocab, 10)
            is_spam = rng.choice([True, False])
            case.step('learn', tokens, is_spam)
            gen.do(c, rng, 'learn', tokens, is_spam, bigrams)
            ledger.learn(tokens, is_spam)
        key.append((tokens, is_spam))
        audit(case, c, ledger, alphabet)
    # Untrain everything.
    if rng.random() < 0.5:
        rest = ledger.messages()
        rng.shuffle(rest)
        for tokens, is_spam in rest:
            case.step('unlearn', tokens, is_spam)
            gen.do(c, rng, 'unlearn', tokens, is_spam, bigrams)
            ledger.unlearn(tokens, is_spam)
            untrained += 1
            case.count('untrained')
            audit(case, c, ledger, alphabet)
        case.check(not keys(c), 'records left after everything was untrained')
        refuse(case, c, ledger, rng, vocab, bigrams)
    if untrained:
        case.distinct(key, bigrams)
        case.sample(case.log)


def many(case):
    """Long messages and many messages: counts well beyond single digits."""
    rng = case.rng
    bigrams = rng.random() < 0.4
    kind = rng.choice([str, bytes])
    vocab = gen.vocabulary(rng, rng.choice([40, 400]), kind)
    c, ledger = Classifier(bigrams), Ledger(bigrams)
    common = rng.sample(vocab, 10)
    messages = []
    for k in range(rng.randint(60, 200)):
        if messages and rng.random() < 0.35:
            tokens, is_spam = messages.pop(rng.randrange(len(messages)))
            gen.do(c, rng, 'unlearn', tokens, is_spam, bigrams)
            ledger.unlearn(tokens, is_spam)
            case.count('untrained')
        else:
            tokens = gen.stream(rng, vocab, 60) + common
            is_spam = rng.random() < 0.5
            gen.do(c, rng, 'learn', tokens, is_spam, bigrams)
            ledger.learn(tokens, is_spam)
            messages.append((tokens, is_spam))
        if k % 20 == 0:
            audit(case, c, ledger)
    audit(case, c, ledger)
    case.distinct('many', bigrams, len(messages), case.index)


def foreign(case):
    """Messages are untrained that were not trained: nothing is taken away that is not there."""
    rng = case.rng
    bigrams = rng.random() < .3
    vocab = gen.vocabulary(rng, rng.choice([3, 8, 25]), rng.choice([str, bytes]))
    c, ledger = Classifier(bigrams), Ledger(bigrams)
    totals = {True: 0, False: 0}
    counts = {True: {}, False: {}}
    for _ in range(rng.randint(3, 25)):
        tokens, is_spam = gen.stream(rng, vocab, 10), rng.random() < .5
        f = ledger.features(tokens)
        mine = counts[is_spam]
        learn = not totals[is_spam] or rng.random() < .5
        case.step('learn' if learn else 'unlearn', tokens, is_spam)
        gen.do(c, rng, 'learn' if learn else 'unlearn', tokens, is_spam, True)
        totals[is_spam] += 1 if learn else -1
        for t in f:
            n = mine.get(t, 0)
            if not learn and not n:
                case.count('nothing to take away')
            mine[t] = n + 1 if learn else max(0, n - 1)
        case.equal((c.nspam, c.nham), (totals[True], totals[False]), 'totals')
        want = {t: (counts[True].get(t, 0), counts[False].get(t, 0)) for t in set(counts[True]) | set(counts[False])}
        got = {t: record(c, t) for t in want}
        case.equal(got, {t: n if n != (0, 0) else None for t, n in want.items()}, 'counts after untraining what was not trained')
        case.equal(keys(c), {t for t, n in want.items() if n != (0, 0)}, 'tokens with a record')
        case.count('steps')
    case.distinct('foreign', case.log)


class Broken(Exception):
    pass


def broken(case):
    """The tokens of a message cannot be produced to the end: it is not trained, or untrained."""
    rng = case.rng
    where = rng.choice(KINDS + ('memory', 'memory'))
    bigrams = where == 'memory' and rng.random() < .4
    vocab = gen.vocabulary(rng, rng.choice([3, 8, 25]), rng.choice([str, bytes]))
    c = Classifier(bigrams) if where == 'memory' else open_store(where, case.path('db'))
    case.cleanup.append(lambda: close_store(c))
    ledger = Ledger(bigrams)
    probe = list(vocab)
    for _ in range(rng.randint(3, 15)):
        trained = ledger.messages()
        r = rng.random()
        if r < .35 or not trained:
            tokens, is_spam = gen.stream(rng, vocab, 10), rng.random() < .5
            case.step('learn', tokens, is_spam)
            gen.do(c, rng, 'learn', tokens, is_spam, True)
            ledger.learn(tokens, is_spam)
        elif r < .5:
            tokens, is_spam = rng.choice(trained)
            case.step('unlearn', tokens, is_spam)
            gen.do(c, rng, 'unlearn', tokens, is_spam, True)
            ledger.unlearn(tokens, is_spam)
        else:
            what = rng.choice(['learn', 'unlearn', 'score'])
            tokens, is_spam = rng.choice(trained) if rng.random() < .5 else (gen.stream(rng, vocab, 10), rng.random() < .5)
            error = rng.choice([Broken, OSError, KeyboardInterrupt, MemoryError, ValueError])
            at = rng.randint(0, len(tokens))
            odd = rng.choice([[], {}, bytearray(b'x')]) if rng.random() < .15 else None

            def stream():
                for t in tokens[:at]:
                    yield t
                if odd is not None:
                    yield odd           # not a token
                    return
                raise error('in the middle')
            case.step(what, 'fails', tokens, at, is_spam, error.__name__, odd)
            before = c.spamprob(list(probe), True)
            try:
                if what == 'score':
                    c.spamprob(stream(), rng.random() < .5)
                elif rng.random() < .5:
                    getattr(c, what)(stream(), is_spam)
                else:
                    getattr(c, what + ('_spam' if is_spam else '_ham'))(stream())
            except (error, TypeError):
                case.count('messages that cannot be read')
            except ValueError:
                case.check(what == 'unlearn' and not ledger.totals[is_spam], 'an error of its own', what, is_spam)
            else:
                case.fail('an error in the tokens of a message is not passed on', what)
            after = c.spamprob(list(probe), True)
            complaint = same(after, before)
            case.check(complaint is None, 'a message that cannot be read changes the scores', complaint)
        bad = audit_db(where, c, ledger, complete=where != 'dbm')
        case.check(not bad, 'the counts differ from the messages trained', bad)
        case.count('steps')
    if where != 'memory':
        c.store()
        close_store(c)
        bad = audit_file(where, case.path('db'), ledger)
        case.check(not bad, 'the saved counts differ from the messages trained', where, bad)
    case.distinct('broken', where, bigrams, case.log)


def large(case):
    """Thousands of messages, thousands of tokens in a message, tokens of thousands of characters."""
    rng = case.rng
    mode = bulk.MODES[case.index % 4]
    bigrams = rng.random() < .3
    steps = bulk.plan(rng, mode, rng.choice([str, bytes]))
    bulk.note(case, mode, steps)
    c, ledger = Classifier(bigrams), Ledger(bigrams)
    looks = sorted(rng.sample(range(len(steps)), min(len(steps), 4)))
    for k, (what, tokens, is_spam) in enumerate(steps):
        gen.do(c, rng, what, tokens, is_spam, True)
        getattr(ledger, what)(tokens, is_spam)
        case.count('untrained', what == 'unlearn')
        if k in looks:
            audit(case, c, ledger)
    audit(case, c, ledger)
    rest = ledger.messages()
    if rng.random() < .5:
        for tokens, is_spam in rest:
            gen.do(c, rng, 'unlearn', tokens, is_spam, True)
            ledger.unlearn(tokens, is_spam)
        audit(case, c, ledger)
        case.check(not keys(c), 'records left after everything was untrained')
    case.distinct('large', mode, bigrams, steps[-3:], len(steps))


STREAMS = [('broken', 1500, 40000, broken), ('large', 60, 2000, large), ('foreign', 3000, 60000, foreign), ('history', 20000, 300000, history), ('many', 200, 4000, many)]
