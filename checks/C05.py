"""C05: scoring changes nothing, and only the set of tokens matters."""
from sbclassifier.classifiers.basic import Classifier

from mon import bulk, gen
from mon.model import Ledger, disagreements
from mon.scores import same
from mon.sched import run_threads, switches
from mon.stores import KINDS, close_store, open_store

LEVEL = 'exploration'
RULE = ('A case trains a classifier (in memory, pickle, dbm or cdb, freshly opened or not) and scores '
        'messages many times: permuted, with repetitions, as lists and one-shot iterators, with and '
        'without evidence, between training steps, and from several threads whose schedule is perturbed '
        'by giving up the interpreter at random lines of the code; the monitor compares every answer '
        'with the first one, and the counts with the ledger model. Stream "large" has messages of thousands of tokens. Non-trivial: the message has clues; '
        'distinct by training, storage and message. The states are the distinct thread interleavings.')
ASSUMPTIONS = ['scores are compared up to 1e-9', 'threads only score (training at the same time is out of scope)']
NEED = {'tokens in large messages': 20000, 'repeated scores': 4000, 'threaded scores': 400, 'thread switches': 2000,
        'scores after reopening': 100, 'ties': 60}


def trained(case, where, vocab, ledger, steps):
    rng = case.rng
    c = open_store(where, case.path('db'))
    for _ in range(steps):
        tokens, is_spam = gen.stream(rng, vocab, 12), rng.random() < .5
        case.step('learn', tokens, is_spam)
        gen.do(c, rng, 'learn', tokens, is_spam)
        ledger.learn(tokens, is_spam)
        if rng.random() < 0.3:
            c.spamprob(gen.stream(rng, vocab, 12), rng.random() < .5)
    if where != 'memory' and rng.random() < 0.6:
        c.store()
        if rng.random() < 0.6:
            close_store(c)
            case.step('reopen')
            c = open_store(where, case.path('db'))
            case.count('scores after reopening')
    case.cleanup.append(lambda: close_store(c))
    return c


def score(case, c, message, order_matters=False):
    """(score, evidence) in one of many ways; evidence is None if not asked."""
    rng = case.rng
    m = list(message)
    if not order_matters:
        rng.shuffle(m)
        if m and rng.random() < 0.5:
            m += [rng.choice(m) for _ in range(rng.randint(1, 5))]
    it = gen.shape(rng, m, order_matters)
    if rng.random() < 0.5:
        return c.spamprob(it, rng.choice([True, 1])) if rng.random() < .5 else c.spamprob(it, evidence=True)
    return c.spamprob(it), None


def agree(case, got, want, message, what):
    case.count('repeated scores')
    if got[1] is None:
        case.check(abs(got[0] - want[0]) < 1e-9, what, message, got[0], want[0])
    else:
        complaint = same(got, want)
        case.check(complaint is None, what, complaint, message)


def sequences(case):
    rng = case.rng
    where = rng.choice(KINDS) if rng.random() < 0.6 else 'memory'
    bigrams = where == 'memory' and rng.random() < 0.3
    vocab = gen.vocabulary(rng, rng.choice([4, 15, 40]), rng.choice([str, bytes]))
    ledger = Ledger(bigrams)
    if bigrams:
        c = Classifier(True)
        for _ in range(rng.randint(0, 6)):
            tokens, is_spam = gen.stream(rng, vocab, 12), rng.random() < .5
            case.step('learn', tokens, is_spam)
            c.learn(tokens, is_spam)
            ledger.learn(tokens, is_spam)
    else:
        c = trained(case, where, vocab, ledger, rng.randint(0, 6))
    messages = [gen.stream(rng, vocab, 12) for _ in range(4)] + [list(vocab)]
    first = [c.spamprob(list(m), True) for m in messages]
    for _ in range(10):
        k = rng.randrange(len(messages))
        case.step('score', k)
        agree(case, score(case, c, messages[k], bigrams), first[k], messages[k],
              'scoring again gives another result')
    for k, m in enumerate(messages):
        agree(case, c.spamprob(list(m), True), first[k], m, 'a later score differs')
        if first[k][1][2:]:
            case.distinct(where, bigrams, ledger.messages(), m)
    bad = disagreements(c, ledger, vocab)
    case.check(not bad, 'scoring changed the counts', bad)
    # Training goes on as if nothing had been scored.
    fresh = Classifier(bigrams)
    for tokens, is_spam in ledger.messages():
        fresh.learn(list(tokens), is_spam)
    for _ in range(3):
        tokens, is_spam = gen.stream(rng, vocab, 12), rng.random() < .5
        c.learn(tokens, is_spam)
        fresh.learn(tokens, is_spam)
        ledger.learn(tokens, is_spam)
        m = rng.choice(messages)
        agree(case, c.spamprob(list(m), True), fresh.spamprob(list(m), True), m,
              'a score after training depends on earlier scorings')
    if where != 'memory':
        c.store()
        c.load()
    bad = disagreements(c, ledger, vocab)
    case.check(not bad, 'the counts depend on scorings', bad)
    case.count('with ' + where)
    case.sample(case.log)


def threads(case):
    rng = case.rng
    where = rng.choice(('memory', 'memory') + KINDS)
    vocab = gen.vocabulary(rng, rng.choice([8, 30, 200]), rng.choice([str, bytes]))
    ledger = Ledger()
    c = trained(case, where, vocab, ledger, rng.randint(2, 8))
    messages = [gen.stream(rng, vocab, len(vocab), empty=0) for _ in range(3)] + [list(vocab)]
    reference = Classifier()
    for tokens, is_spam in ledger.messages():
        reference.learn(list(tokens), is_spam)
    want = [reference.spamprob(list(m), True) for m in messages]
    n = rng.randint(2, 5)
    plans = [[rng.randrange(len(messages)) for _ in range(rng.randint(2, 6))] for _ in range(n)]
    asks = [[rng.random() < .6 for _ in p] for p in plans]

    def job(k):
        def body():
            result = []
            for j, ask in zip(plans[k], asks[k]):
                r = c.spamprob(gen.Once(messages[j]), ask)
                result.append((j, r if ask else (r, None)))
            return result
        return body
    case.step('threads', plans)
    results, errors, trace = run_threads([job(k) for k in range(n)], rng.random(),
                                         rng.choice([.05, .3, .8]))
    for e in errors:
        if e is not None:
            raise e
    for r in results:
        for j, got in r:
            case.count('threaded scores')
            agree(case, got, want[j], messages[j], 'a score differs when threads score at once')
    case.count('thread switches', switches(trace))
    case.state([t for t, _ in trace])
    bad = disagreements(c, ledger, vocab)
    case.check(not bad, 'scoring in threads changed the counts', bad)
    if where != 'memory':
        c.store()
        c.load()
        bad = disagreements(c, ledger, vocab)
        case.check(not bad, 'scoring in threads changed the saved counts', bad)
    for k, m in enumerate(messages):
        agree(case, c.spamprob(list(m), True), want[k], m, 'a score after threads scored differs')
    case.distinct('threads', where, ledger.messages(), plans)
    case.count('threads with ' + where)


def ties(case):
    """More clues than are used, many of them equally strong."""
    rng = case.rng
    where = rng.choice(['memory', 'memory'] + list(KINDS))
    kind = rng.choice([str, bytes])
    words = ['w%d' % i for i in rng.sample(range(1000), rng.randint(151, 260))]
    if kind is bytes:
        words = [w.encode() for w in words]
    cut = rng.randint(0, len(words))
    c = open_store(where, case.path('db'))
    case.cleanup.append(lambda: close_store(c))
    # With these numbers a ham clue is exactly as strong as a spam clue.
    k = rng.choice([2, 2, 11, 12, 13, 14, 15])
    for _ in range(k):
        for part, spam in ((words[:cut], True), (words[cut:], False)):
            part = list(part)
            rng.shuffle(part)
            c.learn(part, spam)
    want = c.spamprob(list(words), True)
    case.equal(len(want[1]), 152, 'number of clues')
    case.step(where, len(words), cut, k)
    for _ in range(6):
        agree(case, score(case, c, words), want, len(words), 'the score depends on the order of equally strong tokens')
    order = words[cut:] + words[:cut]
    for m in (order, words[::-1], sorted(words), sorted(words, reverse=True)):
        agree(case, c.spamprob(m, True), want, len(words), 'the score depends on the order of equally strong tokens')
    case.count('ties')
    case.distinct('ties', where, words, cut, k)


def large(case):
    """Messages of thousands of tokens, of which few tell, anywhere in the message."""
    rng = case.rng
    where = rng.choice(KINDS)
    kind = rng.choice([str, bytes])
    n = rng.choice([600, 2000, 5000])
    vocab = bulk.tokens(rng, n, kind, (1, 3))
    telling = rng.sample(vocab, rng.choice([1, 20, 149, 150, 151, 200]))
    c = open_store(where, case.path('db'))
    case.cleanup.append(lambda: close_store(c))
    ledger = Ledger()
    rest = [t for t in vocab if t not in set(telling)]
    says = rng.random() < .5
    for _ in range(rng.randint(2, 5)):
        for tokens, is_spam in ((vocab, says), (rest, not says)):
            c.learn(list(tokens), is_spam)
            ledger.learn(tokens, is_spam)
    case.step('large', where, n, len(telling))
    want = c.spamprob(telling + [t for t in vocab if t not in set(telling)], True)
    case.equal(len(want[1]) - 2, min(len(telling), 150), 'number of clues')
    orders = [vocab, vocab[::-1], [t for t in vocab if t not in set(telling)] + telling]
    for message in orders:
        agree(case, c.spamprob(list(message), True), want, len(message), 'the score depends on the order of the tokens')
        agree(case, score(case, c, message), want, len(message), 'the score depends on the order of the tokens')
    bad = disagreements(c, ledger)
    case.check(not bad, 'scoring changed the counts', bad)
    case.count('tokens in large messages', n)
    case.distinct('large', where, vocab[:3], n, telling[:3])


STREAMS = [('large', 40, 1500, large), ('ties', 120, 6000, ties), ('sequences', 4000, 60000, sequences), ('threads', 300, 6000, threads)]
