"""S01: what was saved is what the next process finds."""
import os

from mon import bulk, gen
from mon.db import audit, audit_file
from mon.model import Ledger
from mon.proc import Child, kill_self
from mon.stores import STORED, close_store, open_store

LEVEL = 'fault_enumeration'
RULE = ('A case runs several sessions on one database, each in a process of its own: it opens the '
        'database, checks totals and records against the ledger model, trains, untrains, scores and '
        'saves at random (saving several times, reloading in between), and is killed with SIGKILL right '
        'after the last save returned, exits without closing, or closes. After each session another '
        'process compares all totals, records and keys with the ledger at the last save. Non-trivial: '
        'at least two sessions ended by a kill; distinct by the history. Stream "large" trains the same messages hundreds of times, messages with '
        'thousands of tokens, and tokens of thousands of characters; stream "very often" one message more than 65535 times.')
ASSUMPTIONS = ['text tokens that cannot be encoded as UTF-8, and the reserved token "saved state", are left out',
               'only the process is killed, not the machine']
NEED = {'counts of more than 16 bits': 4, 'bulk counts': 5, 'bulk wide': 5, 'bulk long': 5, 'trained in bulk': 2000, 'kills after saving': 300, 'tokens that vanished': 200, 'sessions': 600,
        'sessions with pickle': 100, 'sessions with dbm': 100, 'sessions with cdb': 100}


def plan_session(case, ledger, vocab, rng):
    """A list of steps that ends with a save, and the ledger after it."""
    steps = []
    for _ in range(rng.randint(1, 3)):
        for _ in range(rng.randint(0, 5)):
            trained = ledger.messages()
            r = rng.random()
            if r < 0.4 and trained:
                tokens, is_spam = rng.choice(trained)
                before = set(ledger.table())
                ledger.unlearn(tokens, is_spam)
                case.count('tokens that vanished', len(before - set(ledger.table())))
                steps.append(('unlearn', list(tokens), is_spam))
            elif r < 0.5:
                steps.append(('score', gen.stream(rng, vocab, 8), None))
            else:
                tokens, is_spam = gen.stream(rng, vocab, 10), rng.random() < .5
                ledger.learn(tokens, is_spam)
                steps.append(('learn', tokens, is_spam))
        steps.append(('store',))
        if rng.random() < 0.2:
            steps.append(('load',))
            if rng.random() < 0.5:
                steps.append(('store',))
    while steps and steps[-1][0] != 'store':
        steps.pop()
    return steps


def perform(c, steps):
    for s in steps:
        if s[0] == 'store':
            c.store()
        elif s[0] == 'load':
            c.load()
        elif s[0] == 'score':
            c.spamprob(s[1])
        else:
            getattr(c, s[0])(s[1], s[2])


def run(case):
    rng = case.rng
    kind = STORED[case.index % 3]
    vocab = gen.vocabulary(rng, rng.choice([4, 12, 40, 300]), rng.choice([str, bytes]), odd=.25)
    path = case.path(rng.choice(['db', 'a b', 'x.y']))
    ledger = Ledger()
    killed = 0
    history = []
    for _ in range(rng.randint(2, 4)):
        before = ledger.copy()
        steps = plan_session(case, ledger, vocab, rng)
        if rng.random() < 0.1:
            # Many tokens: more than any buffer holds.
            big = ['big %d %d' % (rng.randrange(50), i) for i in range(rng.choice([300, 3000]))]
            big = big if isinstance(vocab[0], str) else [t.encode() for t in big]
            ledger.learn(big, True)
            steps.insert(0, ('learn', big, True))
        end = rng.choice(['kill', 'kill', 'kill', 'exit', 'close'])
        look = rng.random() < 0.4
        case.step(kind, end, steps)
        history.append(steps)

        def session(send):
            c = open_store(kind, path)
            if look:
                bad = audit(kind, c, before)
                if bad:
                    return bad
            perform(c, steps)
            send('saved')
            if end == 'kill':
                kill_self()
            if end == 'close':
                close_store(c)
            return []
        child = Child(session)
        child.wait()
        bad = child.judge()
        case.check(not bad, 'a new process does not find what was saved', kind, bad)
        case.check('saved' in child.messages, 'harness: the session did not finish')
        case.count('sessions')
        case.count('sessions with ' + kind)
        if child.killed:
            killed += 1
            case.count('kills after saving')
        checker = Child(lambda send: audit_file(kind, path, ledger, vocab))
        checker.wait()
        bad = checker.judge()
        case.check(not bad, 'the database is not as saved', kind, end, bad)
        case.count('records compared', len(ledger.universe))
    if killed > 1:
        case.distinct(kind, history)
        case.sample(case.log)


def large(case):
    """Sessions that train hundreds of messages, or thousands of tokens."""
    rng = case.rng
    kind = STORED[case.index % 3]
    mode = bulk.MODES[case.index // 3 % 4]
    steps = bulk.plan(rng, mode, rng.choice([str, bytes]), .5)
    bulk.note(case, mode, [(kind, (), None)] + steps)
    path = case.path('db')
    ledger = Ledger()
    cuts = sorted(rng.sample(range(len(steps) + 1), min(2, len(steps)))) + [len(steps)]
    at = 0
    for cut in cuts:
        part = steps[at:cut] + [('store',)]
        at = cut
        kill = rng.random() < .7

        def session(send):
            c = open_store(kind, path)
            perform(c, part)
            send('saved')
            if kill:
                kill_self()
            close_store(c)
            return []
        child = Child(session)
        child.wait()
        bad = child.judge()
        case.check(not bad and 'saved' in child.messages, 'harness: the session did not finish')
        before = set(ledger.table())
        for what, tokens, is_spam in part[:-1]:
            getattr(ledger, what)(tokens, is_spam)
        case.count('tokens that vanished', len(before - set(ledger.table())))
        case.count('sessions')
        case.count('sessions with ' + kind)
        case.count('kills after saving', child.killed)
        checker = Child(lambda send: audit_file(kind, path, ledger))
        checker.wait()
        bad = checker.judge()
        case.check(not bad, 'the database is not as saved', kind, mode, bad)
        case.count('records compared', len(ledger.universe))
    case.distinct('large', kind, mode, len(steps), cuts, steps[:1])


def very_often(case):
    """Counts that need more than 16 bits."""
    rng = case.rng
    kind = STORED[case.index % 3]
    path = case.path('db')
    ledger = Ledger()
    always = rng.choice(['x', b'x'])
    is_spam = rng.random() < .5
    steps = [('learn', [always], is_spam)] * rng.randint(65536, 67000)
    steps += [('learn', [always, 'other'], not is_spam), ('learn', ['other'], is_spam), ('store',)]
    rest = [('unlearn', [always], is_spam)] * rng.choice([1, 3, 2000]) + [('store',)]
    for part in (steps, rest):
        case.step(kind, len(part), part[0])

        def session(send):
            c = open_store(kind, path)
            perform(c, part)
            send('saved')
            kill_self()
        child = Child(session)
        child.wait(400)
        bad = child.judge()
        case.check(not bad and 'saved' in child.messages, 'harness: the session did not finish')
        for what, tokens, spam in part[:-1]:
            getattr(ledger, what)(tokens, spam)
        case.count('sessions')
        case.count('kills after saving', child.killed)
        checker = Child(lambda send: audit_file(kind, path, ledger))
        checker.wait()
        bad = checker.judge()
        case.check(not bad, 'the database is not as saved', kind, bad)
        if any(n > 65535 for n in ledger.totals.values()):
            case.count('counts of more than 16 bits')
    case.distinct('often', kind, is_spam, len(steps))


STREAMS = [('very often', 6, 24, very_often), ('large', 60, 2400, large), ('sessions', 1200, 24000, run)]
