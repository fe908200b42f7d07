"""C03: the score against a 60-digit reference of chi-squared combining."""
import math

from sbclassifier.classifiers.basic import Classifier, WordInfo

from mon import gen
from mon.model import combine

LEVEL = 'exploration'
RULE = ('A case makes a training state (by training, or by setting counts up to 1e12 in a classifier) '
        'and scores messages whose clues range from none to beyond the limit, with probabilities '
        'arbitrarily close to 0 and 1; the monitor recomputes S, H and the score from the clues in '
        'the evidence with 60-digit decimal arithmetic, and, for messages of at most 150 tokens, scores '
        'them in the classifier with ham and spam exchanged. Non-trivial: at least one clue; distinct '
        'by the multiset of clue probabilities.')
ASSUMPTIONS = ['scores are compared up to 1e-9', 'counts up to 1e12',
               'tokens whose probability is within 1e-9 of the minimum strength are left out of mirroring']
NEED = {'scores with clues': 1500, 'scores without clues': 20, 'mirrored': 800,
        'underflowing products': 30, 'scores with 150 clues': 50, 'undecided scores': 50,
        'one-sided scores': 2000}


def swapped(c, bigrams):
    d = Classifier(bigrams)
    words = {t: WordInfo(r.hamcount, r.spamcount) for t, r in c.wordinfo.items()}
    d.wordinfo.update(words)
    d.nspam, d.nham = c.nham, c.nspam
    return d


def build(case, rng):
    """A classifier with tokens of all strengths."""
    bigrams = rng.random() < 0.15
    c = Classifier(bigrams)
    style = rng.choice(['train', 'counts', 'counts', 'extreme', 'balanced'])
    vocab = gen.vocabulary(rng, rng.choice([5, 60, 160, 400]), rng.choice([str, bytes]), odd=0.02)
    if style == 'train':
        for _ in range(rng.randint(1, 12)):
            for _ in range(rng.choice([1, 1, 5])):
                c.learn(gen.stream(rng, vocab, len(vocab)), rng.random() < .5)
        return c, vocab, style, bigrams
    nspam = rng.choice([1, 3, 100, 10**6, 10**12])
    nham = rng.choice([1, 3, 100, 10**6, 10**12, nspam])
    c.nspam, c.nham = nspam, nham

    def pick(n):
        return rng.choice([0, 1, n, rng.randint(0, n), min(n, int(10 ** rng.uniform(0, 12)))])
    lean = rng.choice([None, True, False])
    for t in vocab:
        if style == 'extreme':
            spam = rng.random() < .5 if lean is None else lean
            pair = (nspam, 0) if spam else (0, nham)
        elif style == 'balanced':
            spam = rng.random() < .5
            n = min(nspam, nham)
            k = max(1, int(n * rng.random()))
            pair = (k, 0) if spam else (0, k)
        else:
            pair = (pick(nspam), pick(nham))
        if pair != (0, 0):
            c.wordinfo[t] = WordInfo(*pair)
    return c, vocab, style, bigrams


def judge(case, c, message, style):
    score, evidence = c.spamprob(list(message), True)
    clues = evidence[2:]
    case.check(isinstance(score, (float, int)) and 0 <= score <= 1,
               'the score is not a number in [0, 1]', score)
    plain = c.spamprob(list(message))
    case.check(abs(plain - score) < 1e-12, 'the score depends on asking for evidence', plain, score)
    ps = [p for _, p in clues]
    case.check(all(0 < p < 1 for p in ps), 'clue probability not in (0, 1)', ps)
    if not clues:
        case.equal(score, 0.5, 'score of a message without clues')
        case.count('scores without clues')
        return score, evidence
    want, S, H = combine(ps)
    case.check(abs(score - float(want)) < 1e-9, 'the score is not the combination of its clues',
               score, float(want), len(clues))
    for (name, value), expected in zip(evidence[:2], (H, S)):
        case.check(abs(value - float(expected)) < 1e-9, 'wrong overall indicator', name, value,
                   float(expected))
    case.count('scores with clues')
    if math.fsum(map(math.log, ps)) < -700 or math.fsum(math.log(1 - p) for p in ps) < -700:
        case.count('underflowing products')
    if len(clues) == 150:
        case.count('scores with 150 clues')
    if 0.01 < score < 0.99 and len(clues) > 1:
        case.count('undecided scores')
    case.distinct(sorted(ps))
    case.sample({'style': style, 'clues': len(clues), 'score': score, 'first': clues[:3]})
    return score, evidence


def run(case):
    rng = case.rng
    c, vocab, style, bigrams = build(case, rng)
    case.step(style, 'nspam %d nham %d' % (c.nspam, c.nham))
    d = swapped(c, bigrams)
    for _ in range(4):
        n = rng.choice([1, 2, 10, 150, 151, 400])
        message = rng.sample(vocab, min(n, len(vocab)))
        if rng.random() < 0.1:
            message = ['never seen' if isinstance(vocab[0], str) else b'never seen'] * rng.randrange(3)
        case.step('score', len(message))
        score, evidence = judge(case, c, message, style)
        if len(message) <= 150 and not bigrams:
            mirror = d.spamprob(list(message), True)
            if any(abs(abs(p - 0.5) - 0.1) < 1e-9 for _, p in evidence[2:] + mirror[1][2:]):
                continue
            case.check(abs(mirror[0] - (1 - score)) < 1e-9,
                       'exchanging ham and spam does not mirror the score', score, mirror[0])
            a = sorted((repr(w), round(p, 9)) for w, p in evidence[2:])
            b = sorted((repr(w), round(1 - p, 9)) for w, p in mirror[1][2:])
            case.check([w for w, _ in a] == [w for w, _ in b] and
                       all(abs(p - q) < 2e-9 for (_, p), (_, q) in zip(a, b)),
                       'exchanging ham and spam does not mirror the clues', a[:5], b[:5])
            case.count('mirrored')


def trained_mirror(case):
    """The roles exchanged in training itself."""
    rng = case.rng
    vocab = gen.vocabulary(rng, rng.choice([5, 30, 140]), rng.choice([str, bytes]))
    c, d = Classifier(), Classifier()
    for _ in range(rng.randint(1, 15)):
        tokens, is_spam = gen.stream(rng, vocab, 30), rng.random() < rng.choice([.2, .5, .9])
        case.step('learn', tokens, is_spam)
        gen.do(c, rng, 'learn', tokens, is_spam)
        gen.do(d, rng, 'learn', tokens, not is_spam)
    for _ in range(5):
        m = gen.stream(rng, vocab, 60)
        a, b = c.spamprob(m, True), d.spamprob(m, True)
        if any(abs(abs(p - 0.5) - 0.1) < 1e-9 for _, p in a[1][2:] + b[1][2:]):
            continue
        case.check(abs(a[0] + b[0] - 1) < 1e-9, 'not mirrored', m, a[0], b[0])
        case.count('mirrored')
        case.distinct('mirror', m, a[0])


def edges(case):
    """One-sided evidence, for which one of the two statistics is almost zero
    and rounding errors may lead out of the interval."""
    rng = case.rng
    for _ in range(40):
        c = Classifier()
        c.nspam = c.nham = 10 ** rng.choice([1, 2, 4, 6, 12])
        spam = rng.random() < .5
        n = rng.choice([rng.randint(1, 12), rng.randint(1, 60), rng.randint(1, 150)])
        words = ['w%d' % i for i in range(n)]
        same = rng.random() < .3
        k = rng.randint(1, c.nspam)
        for w in words:
            if not same:
                k = rng.choice([rng.randint(1, 10), rng.randint(1, c.nspam)])
            c.wordinfo[w] = WordInfo(k, 0) if spam else WordInfo(0, k)
        score, evidence = c.spamprob(words, True)
        case.check(0 <= score <= 1, 'the score is not in [0, 1]', score, evidence[:5])
        case.check(all(-1e-9 <= p <= 1 for _, p in evidence[:2]),
                   'an overall indicator is not in [0, 1]', evidence[:2])
        case.count('one-sided scores')
        case.distinct(sorted(p for _, p in evidence[2:]))


STREAMS = [('edges', 160, 8000, edges), ('states', 2000, 60000, run), ('mirror', 2400, 60000, trained_mirror)]
