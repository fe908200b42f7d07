"""C07: the options of scoring have exactly their documented effect."""
import contextlib
import os

from sbclassifier import message as message_module
from sbclassifier.classifiers import basic
from sbclassifier.classifiers.basic import Classifier, WordInfo
from sbclassifier.message import Classification, Message, from_bytes

from checks import C04
from mon import gen, stores
from mon.model import Ledger, bigrams as pairs_of, combine

LEVEL = 'exploration'
RULE = ('A case sets the options UNKNOWN_WORD_PROB, UNKNOWN_WORD_STRENGTH, MINIMUM_PROB_STRENGTH, MAX_DISCRIMINATORS and '
        'USE_BIGRAMS (the default of the constructor), then trains a classifier of some storage (or sets the counts of one in memory, with '
        'many ties) and scores messages of known and unknown tokens; the monitor computes all probabilities with '
        'the options from the trained messages in 60-digit decimals, decides whether the clues are a valid '
        'selection under the options (as in C04), and recombines the score from the clues (as in C03). Stored '
        'classifiers are saved, opened again, and scored again. Stream "cutoffs" sets HAM_CUTOFF and SPAM_CUTOFF and '
        'classifies scores at, next to and far from them. Non-trivial: an option differs from its default and there is a '
        'clue; distinct by options and probabilities.')
ASSUMPTIONS = ['UNKNOWN_WORD_STRENGTH is at least 0.01, UNKNOWN_WORD_PROB within (0, 1), MAX_DISCRIMINATORS from 1 to 500, '
               'as the comments on the options advise',
               'options are set before a classifier is made and not changed while it is used']
NEED = {'selections': 1500, 'beyond the limit': 150, 'with bigrams': 400, 'overlaps resolved': 300, 'products below 1e-300': 20, 'stored': 250,
        'stored with bigrams': 80, 'unknown words as clues': 150, 'cutoffs': 3000}


class Options:
    def __init__(self, rng):
        self.PRIOR = rng.choice([.5, .5, .1, .3, .45, .55, .9, .02])
        self.PRIOR_STRENGTH = rng.choice([.45, .45, .01, .1, 1, 1.0, 3, 50])
        self.STRENGTH = rng.choice([.1, .1, 0, .01, .2, .35, .48])
        self.LIMIT = rng.choice([150, 150, 1, 2, 5, 20, 300, 500])

    @contextlib.contextmanager
    def __call__(self):
        new = {'UNKNOWN_WORD_PROB': self.PRIOR, 'UNKNOWN_WORD_STRENGTH': self.PRIOR_STRENGTH,
               'MINIMUM_PROB_STRENGTH': self.STRENGTH, 'MAX_DISCRIMINATORS': self.LIMIT}
        old = {k: getattr(basic, k) for k in new}
        try:
            for k, v in new.items():
                setattr(basic, k, v)
            yield
        finally:
            for k, v in old.items():
                setattr(basic, k, v)


@contextlib.contextmanager
def default_bigrams(on):
    """As if USE_BIGRAMS had been changed in the file."""
    old = Classifier.__init__.__defaults__
    try:
        if on:
            Classifier.__init__.__defaults__ = (True,)
        yield
    finally:
        Classifier.__init__.__defaults__ = old


def judge(case, c, message, table, bigrams, options):
    score, clues = C04.judge(case, c, message, table, bigrams, options)
    case.check(0 <= score <= 1, 'the score', score)
    want = float(combine([p for _, p in clues])[0])
    case.check(abs(score - want) < 1e-9, 'the score is not that of its clues', score, want)
    case.check(abs(c.spamprob(list(message)) - score) < 1e-12, 'the score depends on asking for evidence')
    if any(t not in table for t, _ in clues):
        case.count('unknown words as clues')
    return score, clues


def stored(case):
    rng = case.rng
    options = Options(rng)
    kind = stores.KINDS[case.index % len(stores.KINDS)]
    bigrams = rng.random() < .5
    case.step(vars(options), kind, bigrams)
    vocab = gen.vocabulary(rng, rng.choice([6, 20, 120]), bytes, odd=0)
    path = case.path('db')
    with options(), default_bigrams(bigrams):
        c = stores.open_store(kind, path)
        ledger = Ledger(bigrams)
        for _ in range(rng.randint(1, 8)):
            tokens = gen.stream(rng, vocab, rng.choice([10, len(vocab)]))
            spam = rng.random() < .5
            case.step('learn', tokens, spam)
            gen.do(c, rng, 'learn', tokens, spam, bigrams)
            ledger.learn(tokens, spam)
        for again in range(2):
            for _ in range(2):
                message = rng.sample(vocab, min(len(vocab), rng.choice([1, 5, 30, 100])))
                message += [b'unknown%d' % i for i in range(rng.choice([0, 0, 1, 3]))]
                if rng.random() < .4:
                    C04.repeat(rng, message)
                case.step('score', message)
                judge(case, c, message, ledger.table(), bigrams, options)
            if kind == 'memory' or again:
                break
            c.store()
            stores.close_store(c)
            c = stores.open_store(kind, path)
        stores.close_store(c)
    case.count('stored')
    if bigrams and kind != 'memory':
        case.count('stored with bigrams')


def counts(case):
    """Counts set directly: all strengths, with many ties."""
    rng = case.rng
    options = Options(rng)
    bigrams = rng.random() < .35
    alike = rng.random() < .05
    vocab = gen.vocabulary(rng, 550 if alike else rng.choice([10, 170, 400]), rng.choice([str, bytes]), odd=0)
    if alike:
        options.LIMIT = 500
    with options():
        c = Classifier(bigrams)
        c.nspam = rng.choice([1, 2, 10, 1000, 10**6])
        c.nham = rng.choice([1, 2, 10, 1000, 10**6])
        levels = [(rng.randint(0, c.nspam), rng.randint(0, c.nham)) for _ in range(rng.choice([1, 3, 300]))]
        if alike:
            # Very many clues that all say the same, neither certain nor weak.
            c.nspam = c.nham = 1000
            levels = [(1000, rng.randint(90, 400))]
            if rng.random() < .5:
                levels = [x[::-1] for x in levels]
            case.count('products below 1e-300')
        units = list(vocab)
        if bigrams:
            units += list(pairs_of(vocab))
        table = {}
        for t in units:
            pair = rng.choice(levels)
            if pair != (0, 0) and rng.random() < .9:
                table[t] = pair
                c.wordinfo[t] = WordInfo(*pair)
        case.step(vars(options), c.nspam, c.nham, levels[:20], len(vocab), bigrams)
        judge(case, c, vocab, table, bigrams, options)
        message = vocab[:rng.randint(1, len(vocab))]
        if rng.random() < .5:
            C04.repeat(rng, message)
        judge(case, c, message, table, bigrams, options)


def cutoffs(case):
    rng = case.rng
    ham = rng.choice([0.2, 0.0, 0.5, rng.random()])
    spam = rng.choice([0.9, 1.0, ham, ham + (1 - ham) * rng.random()])
    old = message_module.HAM_CUTOFF, message_module.SPAM_CUTOFF
    case.step(ham, spam)
    try:
        message_module.HAM_CUTOFF, message_module.SPAM_CUTOFF = ham, spam
        for score in [0.0, 1.0, .5, ham, spam, ham - 1e-12, ham + 1e-12, spam - 1e-12, spam + 1e-12, rng.random()]:
            if not 0 <= score <= 1:
                continue
            want = Classification.ham if score < ham else Classification.spam if score > spam else Classification.unsure
            m = from_bytes(b'Subject: x\n\nhello\n', 'id')
            case.equal(m.set_classification(score), want, 'classification', score)
            case.equal(m.classification(), want, 'classification kept', score)
            m = from_bytes(b'Subject: x\n\nhello\n', 'id')
            m.add_sb_headers(score, [])
            case.equal(str(m[message_module.CLASSIFICATION_HEADER_NAME]).split(';')[0].strip(), want.name, 'header', score)
            case.count('cutoffs')
    finally:
        message_module.HAM_CUTOFF, message_module.SPAM_CUTOFF = old
    case.distinct('cutoffs', ham, spam)


STREAMS = [('stored', 1000, 16000, stored), ('counts', 1800, 20000, counts), ('cutoffs', 1000, 10000, cutoffs)]
