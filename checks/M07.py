"""M07: a message remembers its verdict and how it was trained."""
import copy
import math
import pickle
from decimal import Decimal
from fractions import Fraction

from sbclassifier.corpora.base import Corpus
from sbclassifier.message import Classification, from_bytes
from sbclassifier.tokenizer import tokenize

from mon import mail

LEVEL = 'exploration'
RULE = ('A case runs a random sequence of operations on a generated message: the verdict is set as a class or as a score (at '
        'the limits, one floating-point step beside them, anywhere in [0, 1]) or given in a wrong type, the message marked '
        'and unmarked, training marks set and taken away, and in between everything that must not matter: tokenizing, '
        'writing out, looking at headers, changing headers, adding to and removing from a corpus. After every step verdict, '
        'training mark and id must be those of a model; shallow and deep copies, and pickles of every protocol read back, '
        'must have the same three, and changes of theirs must not show in the original. Non-trivial: a verdict was '
        'refused after one was set, and a copy changed; distinct by sequence.')
ASSUMPTIONS = ['scores are floats in [0, 1]']
NEED = {'classes': 4000, 'scores': 4000, 'at a limit': 800, 'refused': 4000, 'marked': 1500, 'trained': 4000,
        'copies': 1000, 'pickles': 2000, 'without effect': 4000}
LIMITS = [0.2, 0.9]
BAD = [None, 'spam', b'spam', '0.5', 0, 1, True, False, Decimal('0.5'), Fraction(1, 2), 0.5j, (0.5,), [0.95], object(), 'ham',
       Classification, {}]


def verdict(p):
    """From the exact values of the floats."""
    p = Fraction(p)
    if p < Fraction(0.2):
        return Classification.ham
    return Classification.spam if p > Fraction(0.9) else Classification.unsure


def state(m):
    return m.id(), m.classification(), m.is_trained()


class Float(float):
    """A float as other packages have them."""


def a_score(case):
    rng = case.rng
    r = rng.random()
    if r < .4:
        case.count('at a limit')
        p = rng.choice(LIMITS)
        for _ in range(rng.randrange(3)):
            p = math.nextafter(p, rng.choice([0, 1]))
        return p
    return rng.choice([0.0, 1.0, 5e-324, 1 - 2**-53, 0.5, rng.random(), rng.random(), rng.random()])


def run(case):
    rng = case.rng
    while True:
        data = mail.plain(rng) if rng.random() < .7 else mail.message(rng)
        if mail.readable(data, True):
            break
    m = from_bytes(data, rng.choice([None, 'a', 'x.msg', 'ünï']))
    want = [m.id(), None, None]
    case.equal(state(m), tuple(want), 'a new message')
    steps = []
    refused = changed = False
    for _ in range(rng.randint(4, 16)):
        r = rng.random()
        if r < .15:
            c = rng.choice(list(Classification))
            steps.append(('class', c.name))
            case.equal(m.set_classification(c), c, 'the verdict set')
            want[1] = c
            case.count('classes')
        elif r < .3:
            p = a_score(case)
            steps.append(('score', p))
            given = Float(p) if rng.random() < .2 else p
            case.equal(m.set_classification(given), verdict(p), 'the verdict for a score', p)
            want[1] = verdict(p)
            case.count('scores')
        elif r < .45:
            bad = rng.choice(BAD)
            steps.append(('bad', repr(bad)[:20]))
            case.raises((ValueError, TypeError), m.set_classification, bad)
            refused |= want[1] is not None
            case.count('refused')
        elif r < .52:
            p = a_score(case)
            steps.append(('mark', p))
            m.add_sb_headers(p, [(b'*H*', .5), (b'*S*', .5), (b'x', .9)], include_evidence=rng.random() < .5)
            want[1] = verdict(p)
            case.count('marked')
            if rng.random() < .5:
                m.remove_sb_headers()
        elif r < .67:
            t = rng.choice([True, False, None, True, False])
            steps.append(('trained', t))
            m.remember_trained(t)
            want[2] = t
            case.count('trained')
        elif r < .85:
            k = rng.randrange(3 + pickle.HIGHEST_PROTOCOL)
            if k == 0:
                other = copy.copy(m)
            elif k == 1:
                other = copy.deepcopy(m)
            else:
                other = pickle.loads(pickle.dumps(m, k - 2))
            case.count('copies' if k < 2 else 'pickles')
            steps.append(('copy', k))
            case.equal(type(other), type(m), 'class of a copy', k)
            case.equal(state(other), tuple(want), 'a copy', k)
            if rng.random() < .3:
                other = pickle.loads(pickle.dumps(other))
                case.equal(state(other), tuple(want), 'a copy of a copy', k)
            if rng.random() < .6:
                other.set_classification(rng.choice(list(Classification)))
                other.remember_trained(rng.choice([True, False, None]))
                if not other.id():
                    other.set_id('of the copy')
                changed = True
        else:
            k = rng.randrange(8)
            steps.append(('else', k))
            case.count('without effect')
            if k == 0:
                list(tokenize(m))
            elif k == 1:
                try:
                    m.as_bytes(), m.as_string()
                except Exception:
                    pass        # the email package cannot write it
            elif k == 2:
                m['X-Spambayes-Trained'] = rng.choice(['spam', 'ham'])
            elif k == 3:
                m['X-Spambayes-Classification'] = rng.choice(['spam', 'ham', 'unsure'])
            elif k == 4:
                corpus = Corpus()
                corpus.add_message(m, message_id='k')
                corpus.get('k')
            elif k == 5:
                m.current_sb_headers()
            elif k == 6:
                from_bytes(data, 'other').remember_trained(True)
            else:
                repr(m)
        case.step(steps[-1])
        case.equal(state(m), tuple(want), 'id, verdict and training mark')
    if refused and changed:
        case.distinct(steps)


STREAMS = [('histories', 9000, 120000, run)]
