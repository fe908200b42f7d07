"""Comparison of scores and evidence, tolerant of rounding and of ties."""
import math

EPS = 1e-9


def close(a, b, eps=EPS):
    return math.isclose(a, b, rel_tol=0, abs_tol=eps)


def split(evidence):
    """(indicators, clues) of the evidence of one score."""
    return list(evidence[:2]), list(evidence[2:])


def same(result1, result2, eps=EPS):
    """Whether two (score, evidence) pairs agree; returns a complaint or None.

    If more tokens qualify than are used, ties may be broken differently, so
    only the probabilities count then.
    """
    (p1, e1), (p2, e2) = result1, result2
    if not close(p1, p2, eps):
        return 'scores %r and %r' % (p1, p2)
    if len(e1) != len(e2):
        return '%d and %d clues' % (len(e1) - 2, len(e2) - 2)
    for (w1, q1), (w2, q2) in zip(e1[:2], e2[:2]):
        if w1 != w2 or not close(q1, q2, eps):
            return 'indicators %r and %r' % ((w1, q1), (w2, q2))
    c1, c2 = e1[2:], e2[2:]
    if len(c1) < 150:
        d1, d2 = dict(c1), dict(c2)
        if set(d1) != set(d2):
            return 'different clues: %r' % (sorted(map(repr, set(d1) ^ set(d2)))[:5],)
        for w in d1:
            if not close(d1[w], d2[w], eps):
                return 'clue %r has %r and %r' % (w, d1[w], d2[w])
    for a, b in zip(sorted(q for _, q in c1), sorted(q for _, q in c2)):
        if not close(a, b, eps):
            return 'clue probabilities %r and %r' % (a, b)
    return None
