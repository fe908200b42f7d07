"""C06: a classifier that was pickled or copied is the same, and independent."""
import copy
import pickle

from sbclassifier.classifiers.basic import Classifier
from sbclassifier.classifiers.slurping import SlurpingClassifier

from mon import gen
from mon.model import Ledger, disagreements
from mon.scores import same

LEVEL = 'exploration'
RULE = ('A case trains a classifier in memory (plain or following links, with and without bigrams; text or bytes tokens; '
        'scored in between, so that results are kept for later scores) and makes copies of it - pickled with every protocol '
        'and read back, in this or another interpreter state, deep-copied, copies of copies - which then are trained, '
        'untrained and scored on their own, as is the original, in any order. After each step every one must have exactly the '
        'totals and records of its own ledger, and after copying the scores and evidence of the original. The state of one is also read into another that '
        'was trained and has scored. "many": tokens seen up to tens of thousands of times. States of an '
        'unknown version must be refused. Non-trivial: original and copy were both trained after copying; distinct by steps.')
ASSUMPTIONS = ['scores are compared up to 1e-9', 'messages without links']
NEED = {'pickled': 800, 'deep copies': 400, 'with bigrams': 300, 'scores compared': 4000, 'steps apart': 4000,
        'refused versions': 300, 'records compared': 20000, 'same after refusal': 300, 'states read into others': 100,
        'large counts': 15}


def clone(case, c):
    rng = case.rng
    if rng.random() < .35:
        case.count('deep copies')
        return 'deepcopy', copy.deepcopy(c)
    protocol = rng.randrange(pickle.HIGHEST_PROTOCOL + 1)
    case.count('pickled')
    return 'pickle %d' % protocol, pickle.loads(pickle.dumps(c, protocol))


def compare(case, c, ledger, what):
    bad = disagreements(c, ledger)
    case.check(not bad, what, bad)
    case.count('records compared', len(ledger.universe))


def run(case):
    rng = case.rng
    bigrams = rng.random() < .4
    kind = rng.choice([str, bytes])
    vocab = gen.vocabulary(rng, rng.choice([3, 10, 40]), kind)
    make = rng.choice([Classifier, Classifier, SlurpingClassifier])
    everyone = [(make(use_bigrams=bigrams), Ledger(bigrams))]
    messages = [gen.stream(rng, vocab, 12) for _ in range(5)] + [vocab]
    case.count('with bigrams', bigrams)
    key = [make.__name__, bigrams]
    touched = {0: 0}
    for _ in range(rng.randint(6, 30)):
        r = rng.random()
        i = rng.randrange(len(everyone))
        c, ledger = everyone[i]
        if r < .05 and len(everyone) > 1:
            # One that was trained and has scored takes the state of another.
            j = rng.choice([x for x in range(len(everyone)) if x != i])
            case.step('state of', i, 'read into', j)
            key.append(('into', i, j))
            d, _ = everyone[j]
            for m in messages:
                d.spamprob(list(m))
            d.__setstate__(pickle.loads(pickle.dumps(c.__getstate__(), rng.randrange(2, 6))))
            everyone[j] = d, ledger.copy()
            touched[j] = 0
            case.count('states read into others')
            for m in messages:
                complaint = same(d.spamprob(gen.shape(rng, m, True), True), c.spamprob(gen.shape(rng, m, True), True))
                case.check(complaint is None, 'a classifier with the state of another scores differently', complaint, m)
                case.count('scores compared')
        elif r < .2 and len(everyone) < 5:
            how, d = clone(case, c)
            case.step(how, 'of', i)
            key.append((how, i))
            case.equal(type(d), type(c), 'class of a copy')
            everyone.append((d, ledger.copy()))
            touched[len(everyone) - 1] = 0
            for m in messages:
                complaint = same(d.spamprob(gen.shape(rng, m, True), True), c.spamprob(gen.shape(rng, m, True), True))
                case.check(complaint is None, 'a copy scores differently', how, complaint, m)
                case.count('scores compared')
        elif r < .3:
            c.spamprob(list(rng.choice(messages)))
            key.append(('score', i))
        else:
            trained = ledger.messages()
            if trained and rng.random() < .4:
                what, (tokens, is_spam) = 'unlearn', rng.choice(trained)
            else:
                what, tokens, is_spam = 'learn', gen.stream(rng, vocab, 8), rng.random() < .5
            case.step(i, what, tokens, is_spam)
            key.append((i, what, tokens, is_spam))
            gen.do(c, rng, what, tokens, is_spam, bigrams)
            getattr(ledger, what)(tokens, is_spam)
            if len(everyone) > 1:
                case.count('steps apart')
                touched[i] += 1
        if rng.random() < .5:
            for k, (c2, ledger2) in enumerate(everyone):
                compare(case, c2, ledger2, 'counts of %d' % k)
    for k, (c, ledger) in enumerate(everyone):
        compare(case, c, ledger, 'counts of %d' % k)
        fresh = Classifier(use_bigrams=bigrams)
        for tokens, is_spam in ledger.messages():
            fresh.learn(list(tokens), is_spam)
        for m in messages:
            complaint = same(c.spamprob(list(m), True), fresh.spamprob(list(m), True))
            case.check(complaint is None, 'a copy scores differently from a classifier trained in the same way', complaint, m)
            case.count('scores compared')
    if sum(n > 0 for n in touched.values()) > 1:
        case.distinct(key)


def many(case):
    """Tokens that were seen very often."""
    rng = case.rng
    kind = rng.choice([str, bytes])
    vocab = gen.vocabulary(rng, 6, kind)
    c, ledger = Classifier(), Ledger()
    for _ in range(rng.randint(1, 3)):
        tokens, is_spam = gen.stream(rng, vocab, 4), rng.random() < .5
        n = rng.choice([rng.randint(100, 400), 255, 256, 1000, 32768, 65536]) + rng.randint(0, 2)
        case.step(n, 'times', tokens, is_spam)
        for _ in range(n):
            c.learn(tokens, is_spam)
            ledger.learn(tokens, is_spam)
    for _ in range(3):
        how, c2 = clone(case, c)
        compare(case, c2, ledger, 'counts of a copy (%s)' % how)
        for m in vocab:
            complaint = same(c2.spamprob([m], True), c.spamprob([m], True))
            case.check(complaint is None, 'a copy scores differently', how, complaint, m)
        case.count('large counts', max(c.nspam, c.nham) > 65535)
    case.distinct(case.log)


def versions(case):
    """States of other versions, in a pickle or set at once."""
    rng = case.rng
    vocab = gen.vocabulary(rng, 8, rng.choice([str, bytes]))
    c, ledger = Classifier(), Ledger()
    for _ in range(rng.randint(0, 5)):
        m = gen.stream(rng, vocab, 6), rng.random() < .5
        c.learn(list(m[0]), m[1])
        ledger.learn(*m)
    probe = [gen.stream(rng, vocab, 6) for _ in range(3)]
    scores = [c.spamprob(m, True) for m in probe]
    state = c.__getstate__()
    bad = rng.choice([state[0] + 1, state[0] - 1, 0, None, str(state[0]), -1, 99, (), b'5'])
    other = (bad, {}, rng.randrange(9), rng.randrange(9))
    case.step('version', bad)
    case.raises(ValueError, c.__setstate__, other)
    case.count('refused versions')
    compare(case, c, ledger, 'counts after a state was refused')
    for m, s in zip(probe, scores):
        case.check(same(c.spamprob(m, True), s) is None, 'a score after a state was refused', m)
        case.count('same after refusal')
    case.distinct(bad, ledger.messages())


STREAMS = [('copies', 4000, 40000, run), ('versions', 400, 4000, versions), ('many', 40, 400, many)]
