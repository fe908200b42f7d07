"""C02: two histories with the same outcome score alike."""
from sbclassifier.classifiers.basic import Classifier

from mon import bulk, gen
from mon.model import Ledger
from mon.scores import same
from mon.stores import KINDS, close_store, open_store

LEVEL = 'exploration'
RULE = ('A case trains one classifier (in memory, pickle, dbm or cdb; with and without bigrams) through '
        'a history with detours - messages trained and later untrained, scorings at random points, '
        'saving and reloading - and others from scratch with the messages that remain, in permuted '
        'order and without scoring; the monitor compares score and evidence of many probe messages, '
        'and after every detour with the answers before it. Non-trivial: the history contains a '
        'detour and a scoring inside it; distinct by its steps. Stream "large" trains the same messages hundreds of times, messages with '
        'thousands of tokens, and tokens of thousands of characters.')
ASSUMPTIONS = ['scores are compared up to 1e-9']
NEED = {'bulk counts': 10, 'bulk wide': 10, 'bulk long': 10, 'trained in bulk': 4000, 'detours': 300, 'comparisons': 5000, 'clues compared': 5000, 'scorings inside': 300}


def probe(case, c, messages, rng):
    return [c.spamprob(gen.shape(rng, m, ordered=True), True) for m in messages]


def compare(case, got, want, messages, what):
    for m, a, b in zip(messages, got, want):
        case.count('comparisons')
        case.count('clues compared', len(b[1]) - 2)
        complaint = same(a, b)
        case.check(complaint is None, what, complaint, m)


def run(case):
    rng = case.rng
    bigrams = rng.random() < 0.3
    kind = rng.choice([str, bytes])
    vocab = gen.vocabulary(rng, rng.choice([4, 12, 40]), kind)
    where = 'memory' if bigrams or rng.random() < 0.6 else rng.choice(KINDS[1:])
    if where == 'memory':
        c = Classifier(use_bigrams=bigrams)
    else:
        c = open_store(where, case.path('db'))
        case.cleanup.append(lambda: close_store(c))
    ledger = Ledger(bigrams)
    messages = [gen.stream(rng, vocab, 12) for _ in range(6)] + [vocab, vocab[:1] * 3]
    key = []

    def train(what, tokens, is_spam):
        case.step(what, tokens, is_spam)
        key.append((what, tokens, is_spam))
        gen.do(c, rng, what, tokens, is_spam, bigrams)
        getattr(ledger, what)(tokens, is_spam)

    def maybe_score():
        if rng.random() < 0.5:
            c.spamprob(list(rng.choice(messages)), rng.random() < .5)
            case.count('scorings inside')
        if where != 'memory' and rng.random() < 0.15:
            case.step('store')
            c.store()
            if rng.random() < 0.5:
                case.step('load')
                c.load()

    for _ in range(rng.randint(0, 6)):
        train('learn', gen.stream(rng, vocab, 10), rng.random() < .5)
        maybe_score()
    for _ in range(rng.randint(1, 3)):
        before = probe(case, c, messages, rng)
        detour = []
        for _ in range(rng.randint(1, 5)):
            m = (gen.stream(rng, vocab, 10), rng.random() < .5)
            train('learn', *m)
            detour.append(m)
            maybe_score()
            if rng.random() < 0.3:
                train('unlearn', *detour.pop(rng.randrange(len(detour))))
                maybe_score()
        rng.shuffle(detour)
        for m in detour:
            train('unlearn', *m)
            if m is not detour[-1]:
                maybe_score()
        case.count('detours')
        compare(case, probe(case, c, messages, rng), before, messages,
                'training and untraining changed a score')
        if rng.random() < 0.7:
            train('learn', gen.stream(rng, vocab, 10), rng.random() < .5)
        trained = ledger.messages()
        if trained and rng.random() < 0.3:
            train('unlearn', *rng.choice(trained))
    # Scratch classifiers, in any order.
    final = probe(case, c, messages, rng)
    remaining = ledger.messages()
    for _ in range(2):
        rng.shuffle(remaining)
        fresh = Classifier(use_bigrams=bigrams)
        for tokens, is_spam in remaining:
            gen.do(fresh, rng, 'learn', tokens, is_spam, bigrams)
        compare(case, final, probe(case, fresh, messages, rng), messages,
                'the score depends on the history and not only on the messages trained')
    case.distinct(where, bigrams, key)
    case.count('with ' + where)
    case.sample(case.log)


def large(case):
    """Detours of hundreds of messages, and of messages with thousands of tokens."""
    rng = case.rng
    mode = bulk.MODES[case.index % 4]
    where = rng.choice(('memory',) + KINDS)
    bigrams = where == 'memory' and rng.random() < .3
    kind = rng.choice([str, bytes])
    steps = bulk.plan(rng, mode, kind, .5)
    bulk.note(case, mode, steps)
    c = Classifier(bigrams) if where == 'memory' else open_store(where, case.path('db'))
    case.cleanup.append(lambda: close_store(c))
    ledger = Ledger(bigrams)
    cut = rng.randint(0, len(steps))
    messages = [list(t) for _, t, _ in rng.sample(steps, min(4, len(steps)))]
    messages += [m[-100:] for m in messages if len(m) > 100]
    for what, tokens, is_spam in steps[:cut]:
        gen.do(c, rng, what, tokens, is_spam, bigrams)
        getattr(ledger, what)(tokens, is_spam)
    before = probe(case, c, messages, rng)
    detour = []
    for what, tokens, is_spam in steps[cut:]:
        if what == 'learn':
            gen.do(c, rng, what, tokens, is_spam, bigrams)
            detour.append((tokens, is_spam))
    if where != 'memory' and rng.random() < .5:
        c.store()
        if rng.random() < .5:
            c.load()
    rng.shuffle(detour)
    for tokens, is_spam in detour:
        gen.do(c, rng, 'unlearn', tokens, is_spam, bigrams)
    case.count('detours')
    after = probe(case, c, messages, rng)
    compare(case, after, before, messages, 'training and untraining changed a score')
    remaining = ledger.messages()
    rng.shuffle(remaining)
    fresh = Classifier(use_bigrams=bigrams)
    for tokens, is_spam in remaining:
        fresh.learn(list(tokens), is_spam)
    compare(case, after, probe(case, fresh, messages, rng), messages,
            'the score depends on the history and not only on the messages trained')
    case.distinct('large', where, bigrams, mode, len(steps), cut, steps[:1])
    case.count('with ' + where)


STREAMS = [('large', 80, 2000, large), ('histories', 16000, 250000, run)]
