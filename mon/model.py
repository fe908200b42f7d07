"""Reference models, written from the statements and not from the code."""
import collections
from decimal import Decimal, getcontext

getcontext().prec = 60
getcontext().Emin = -10**9
getcontext().Emax = 10**9


def bigrams(tokens):
    """The pairs of adjacent tokens."""
    for a, b in zip(tokens, tokens[1:]):
        yield (b'bi:' + a + b' ' + b) if isinstance(a, bytes) else 'bi:%s %s' % (a, b)


class Ledger:
    """The multiset of the messages that are trained."""

    def __init__(self, use_bigrams=False):
        self.use_bigrams = use_bigrams
        self.trained = collections.Counter()   # (tokens, is_spam) -> times
        self.totals = {True: 0, False: 0}
        self.words = {True: collections.Counter(), False: collections.Counter()}
        self.universe = set()

    def features(self, tokens):
        tokens = list(tokens)
        result = set(tokens)
        if self.use_bigrams:
            result |= set(bigrams(tokens))
        return result

    def learn(self, tokens, is_spam):
        is_spam = bool(is_spam)
        self.trained[(tuple(tokens), is_spam)] += 1
        self.totals[is_spam] += 1
        f = self.features(tokens)
        self.universe |= f
        for t in f:
            self.words[is_spam][t] += 1

    def unlearn(self, tokens, is_spam):
        is_spam = bool(is_spam)
        key = (tuple(tokens), is_spam)
        assert self.trained[key] > 0
        self.trained[key] -= 1
        if not self.trained[key]:
            del self.trained[key]
        self.totals[is_spam] -= 1
        for t in self.features(tokens):
            self.words[is_spam][t] -= 1
            if not self.words[is_spam][t]:
                del self.words[is_spam][t]

    @property
    def nspam(self):
        return self.totals[True]

    @property
    def nham(self):
        return self.totals[False]

    def counts(self, token):
        """(spam count, ham count), or None if there is no record."""
        pair = (self.words[True][token], self.words[False][token])
        return pair if pair != (0, 0) else None

    def table(self):
        return {t: self.counts(t) for t in set(self.words[True]) | set(self.words[False])}

    def messages(self):
        return sorted(self.trained.elements(), key=repr)

    def copy(self):
        other = Ledger(self.use_bigrams)
        other.trained = self.trained.copy()
        other.totals = dict(self.totals)
        other.words = {k: v.copy() for k, v in self.words.items()}
        other.universe = set(self.universe)
        return other

    def probability(self, token):
        pair = self.counts(token)
        return 0.5 if pair is None else float(probability(pair[0], pair[1], self.nspam, self.nham))


def probability(spam, ham, nspam, nham, prior=0.5, strength=0.45):
    """Exact up to 60 digits, for the prior probability of unknown words and its strength."""
    prior, strength = Decimal(str(prior)), Decimal(str(strength))
    n = spam + ham
    s = Decimal(spam) / (nspam or 1)
    h = Decimal(ham) / (nham or 1)
    return (strength * prior + n * (s / (s + h))) / (strength + n)


def chi2_tail(x2, pairs):
    """P(chi squared >= x2) with 2 * pairs degrees of freedom, in Decimal."""
    m = x2 / 2
    term = total = Decimal(1)
    for i in range(1, pairs):
        term = term * m / i
        total += term
    return total * (-m).exp()


def combine(probabilities):
    """(score, S, H) in Decimal for these clue probabilities."""
    ps = [Decimal(p) for p in probabilities]
    if not ps:
        return Decimal('0.5'), None, None
    s_log = sum(((1 - p).ln() for p in ps), Decimal(0))
    h_log = sum((p.ln() for p in ps), Decimal(0))
    S = 1 - chi2_tail(-2 * s_log, len(ps))
    H = 1 - chi2_tail(-2 * h_log, len(ps))
    return (S - H + 1) / 2, S, H


def record(classifier, token):
    """(spam count, ham count) of a token as the classifier has it, or None."""
    get = getattr(classifier, '_wordinfoget', None)
    if get is not None:
        r = get(token)
    else:
        # As it is in memory, or else in the database (of a dbm classifier).
        from sbclassifier.classifiers.basic import WordInfo
        db = getattr(classifier, 'db', None)
        r = classifier.wordinfo.get(token)
        if r is None and isinstance(token, bytes):
            # Databases keep texts.
            token = token.decode('latin-1')
            r = classifier.wordinfo.get(token)
        if r is None and db is not None and token not in getattr(classifier, 'deleted_words', ()):
            state = db.get(token)
            if state:
                r = WordInfo()
                r.__setstate__(state)
    return None if r is None else (r.spamcount, r.hamcount)


def disagreements(classifier, ledger, extra=(), limit=3):
    """How the counts of the classifier differ from those of the ledger."""
    bad = []
    if (classifier.nspam, classifier.nham) != (ledger.nspam, ledger.nham):
        bad.append('totals (spam, ham) %r, expected %r'
                   % ((classifier.nspam, classifier.nham), (ledger.nspam, ledger.nham)))
    for t in ledger.universe | set(extra):
        got, want = record(classifier, t), ledger.counts(t)
        if got != want:
            bad.append('%r has (spam, ham) %r, expected %r' % (t, got, want))
            if len(bad) > limit:
                break
    return bad
