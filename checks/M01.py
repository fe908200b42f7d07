"""M01: the verdict and the headers added say what the score says."""
import decimal
import math

from sbclassifier.message import Classification, Message, from_bytes

from mon import gen, heads, mail

LEVEL = 'exploration'
RULE = ('A case marks a generated message (well formed or hostile, with or without id, To and Subject) with a '
        'score - random, at a limit, one floating-point step beside one, 0, 1 or tiny - and generated clues, and '
        'options drawn at random, and reads the result with an independent reader: the verdict, the score to '
        'the digit (by decimal arithmetic), the stars, id, notations, and every clue (parsed back from the '
        'header, also after the message was written out and read again); all other headers and the body must '
        'be as before. The stream "real" takes score and clues from a trained classifier. Non-trivial: the '
        'evidence held a clue and left one out, or the score was within a step of a limit; distinct by score '
        'and clues.')
ASSUMPTIONS = ['the message has no headers of the classifier before', 'scores are floats in [0, 1]',
               'ids have no line break; clues that are text have no line break or surrogate (those of the '
               'tokenizer are bytes)']
NEED = {'evidence headers': 1500, 'clues read': 20000, 'at a limit': 250, 'notated': 600, 'not notated': 600,
        'ham': 300, 'spam': 300, 'unsure': 300, 'score headers': 1500, 'levels': 1500, 'rewritten': 800}

LIMITS = [0.2, 0.9, 0.005, 0.995] + [k / 10 for k in range(11)]
NAMES = {'ham': Classification.ham, 'spam': Classification.spam, 'unsure': Classification.unsure}


def a_score(case):
    rng = case.rng
    r = rng.random()
    if r < .45:
        limit = rng.choice(LIMITS)
        step = rng.randrange(-2, 3)
        for _ in range(abs(step)):
            limit = math.nextafter(limit, math.inf if step > 0 else -math.inf)
        return min(1.0, max(0.0, limit))
    if r < .55:
        return rng.choice([0.0, 1.0, 1e-300, 1 - 2**-53, 1e-17, 5e-324, 0.5])
    if r < .65:
        return rng.random() ** 40
    return rng.random()


def some_clues(case):
    rng = case.rng
    n = rng.choice([0, 1, 3, 10, 40, 150])
    words = gen.vocabulary(rng, n, bytes, odd=rng.choice([.1, .6])) if n <= 12 else \
        gen.vocabulary(rng, n, bytes, odd=.1)
    if rng.random() < .15:
        words += ['text', 'naïve word', 'a: b; c', "'quoted'", '日本語', 'x' * 90, '']
    hco = rng.choice([.5, .1, .05, 0.0, .3, .25])
    clues = []
    for w in words:
        p = rng.choice([rng.random(), hco, 1 - hco, math.nextafter(hco, 1), math.nextafter(1 - hco, 0), .5, 0.0, 1.0,
                        .005, .015])
        clues.append((w, p))
    clues.sort(key=lambda c: c[1])
    return [(b'*H*', rng.random()), (b'*S*', rng.random())] + clues, hco


def fixed(p, digits):
    q = decimal.Decimal(1).scaleb(-digits)
    with decimal.localcontext(decimal.Context(prec=800)):
        return decimal.Decimal(p).quantize(q, rounding=decimal.ROUND_HALF_EVEN)


def verdict_of(p):
    return 'ham' if p < 0.2 else 'spam' if p > 0.9 else 'unsure'


def same_value(case, text, p, digits, what):
    case.check(text.count('.') <= 1 and len(text.partition('.')[2]) == digits, what + ' has other digits', text, digits)
    case.check(decimal.Decimal(text) == fixed(p, digits), what + ' is wrong', text, p)


def check_evidence(case, value, clues, hco):
    found = heads.evidence(value)
    want = [(w, p) for w, p in clues if w in (b'*H*', b'*S*') or p <= hco or p >= 1 - hco]
    case.equal(sorted((w for w, _ in found), key=repr), sorted((w for w, _ in want), key=repr), 'clues in the header')
    case.equal([w for w, _ in found], [w for w, _ in want], 'order of the clues')
    for (w, text), (_, p) in zip(found, want):
        same_value(case, text, p, 2, 'probability of a clue')
    case.count('clues read', len(found))
    return len(want), len(clues) - len(want)


def mark(case, m, p, clues, hco):
    rng = case.rng
    before = heads.raw(m)
    body = m._payload if not isinstance(m._payload, list) else [x.as_bytes() for x in m._payload]
    flags = {k: rng.random() < .6 for k in ['include_thermostat', 'include_score', 'include_evidence']}
    options = dict(flags)
    options['header_score_logarithm'] = rng.random() < .4
    options['header_score_digits'] = digits = rng.choice([0, 1, 2, 2, 5, 21, 60])
    options['clue_mailheader_cutoff'] = hco
    options['add_unique_id'] = rng.random() < .8
    notate = {}
    for k in ('notate_to', 'notate_subject'):
        if rng.random() < .6:
            chosen = [c for c in NAMES.values() if rng.random() < .5]
            notate[k] = options[k] = rng.choice([list, tuple, set])(chosen)
        else:
            notate[k] = ()
    case.step('mark', p, options, len(clues))
    m.add_sb_headers(p, clues, **options)
    verdict = verdict_of(p)
    case.count(verdict)
    case.equal(m.classification(), NAMES[verdict], 'verdict of score %r' % p)
    after = heads.raw(m)
    added = heads.own(after)
    names = [k for k, _ in added]
    want = [heads.CLASSIFICATION]
    want += [heads.SCORE] * flags['include_score'] + [heads.LEVEL] * flags['include_thermostat']
    want += [heads.EVIDENCE] * flags['include_evidence']
    want += [heads.MAILID] * (options['add_unique_id'] and m.id() is not None)
    case.equal(sorted(names), sorted(want), 'headers added')
    values = dict(added)
    case.equal(values[heads.CLASSIFICATION], verdict, 'verdict in the header')
    if heads.SCORE in values:
        case.count('score headers')
        text, _, log = values[heads.SCORE].partition(' ')
        same_value(case, text, p, digits, 'score in the header')
        if options['header_score_logarithm'] and (0 < p <= .005 or .995 <= p < 1):
            case.check(log[:1] == '(' and log[-1:] == ')', 'no logarithm', values[heads.SCORE])
            exact = -math.log10(p if p < .5 else 1 - p)
            case.check(int(log[1:-1]) in (math.floor(exact - 1e-9), math.floor(exact + 1e-9)), 'logarithm', log, p)
        else:
            case.equal(log, '', 'a logarithm that was not asked for')
    if heads.LEVEL in values:
        case.count('levels')
        stars = values[heads.LEVEL]
        case.equal(stars.strip('*'), '', 'not only stars')
        case.check(len(stars) in (math.floor(p * 10 - 1e-12), math.floor(p * 10 + 1e-12)), 'number of stars', stars, p)
    if heads.MAILID in values:
        case.equal(values[heads.MAILID], m.id(), 'id in the header')
    left = right = 0
    if heads.EVIDENCE in values:
        case.count('evidence headers')
        right, left = check_evidence(case, values[heads.EVIDENCE], clues, hco)
    # Notations, and everything else as it was.
    rest = heads.others(after)
    expected = list(before)
    for kind, name, note in (('notate_to', 'To', verdict + '@spambayes.invalid'), ('notate_subject', 'Subject', verdict)):
        at = [i for i, (k, _) in enumerate(expected) if k.lower() == name.lower()]
        if NAMES[verdict] in notate[kind]:
            case.count('notated')
            if at:
                expected[at[0]] = (expected[at[0]][0], note + ',' + expected[at[0]][1])
            else:
                expected.append((name, note))
        else:
            case.count('not notated')
    case.equal([(k.lower(), v) for k, v in sorted(rest, key=lambda h: h[0].lower())],
               [(k.lower(), v) for k, v in sorted(expected, key=lambda h: h[0].lower())], 'other headers')
    case.equal([k.lower() for k, _ in rest], [k.lower() for k, _ in expected], 'order of the other headers')
    case.equal(m._payload if not isinstance(m._payload, list) else [x.as_bytes() for x in m._payload], body, 'body')
    if abs(p - .2) < 1e-12 or abs(p - .9) < 1e-12:
        case.count('at a limit')
        case.distinct(p)
    if left and right > 2:
        case.distinct(p, clues)
    return values


def a_message(case):
    rng = case.rng
    while True:
        if rng.random() < .5:
            data = mail.plain(rng)
        else:
            data = mail.message(rng)
        if not mail.readable(data, write=True):
            continue
        m = from_bytes(data)
        for k in heads.OWN:
            del m[k]
        break
    if rng.random() < .2:
        del m['To']
    if rng.random() < .2:
        del m['Subject']
    r = rng.random()
    if r < .7:
        m.set_id(rng.choice(['1', 'x-%d.msg' % rng.randrange(10**9), 'id with space', 'ünï', 'a:b;c', 'None', '0']))
    elif r < .75:
        m = m if m.id() else m
    return m


def run(case):
    p = a_score(case)
    clues, hco = some_clues(case)
    m = a_message(case)
    values = mark(case, m, p, clues, hco)
    # Written out and read again, the headers say the same.
    if case.rng.random() < .5:
        try:
            data = m.as_bytes() if case.rng.random() < .5 else m.as_string().encode('utf-8', 'surrogateescape')
        except Exception:
            return      # a body or header the email package cannot write
        try:
            again = from_bytes(data)
        except TypeError:
            return
        got = dict(heads.own(heads.raw(again)))
        if set(got) != set(values):
            # A broken header in the message may swallow what follows it.
            case.check(bool(again.defects) or bool(m.defects), 'headers after rewriting', sorted(got), sorted(values))
            return
        case.count('rewritten')
        for k in values:
            if k == heads.EVIDENCE:
                check_evidence(case, got[k], clues, hco)
            elif values[k].isascii():
                case.equal(heads.squeeze(got[k]), heads.squeeze(values[k]), 'header after rewriting: ' + k)


def real(case):
    """Scores and clues of a trained classifier."""
    from sbclassifier.classifiers import Classifier
    from sbclassifier.tokenizer import tokenize
    rng = case.rng
    c = Classifier()
    for _ in range(rng.randrange(0, 12)):
        c.learn(tokenize(from_bytes(mail.plain(rng))), rng.random() < .5)
    for _ in range(6):
        m = from_bytes(mail.plain(rng), message_id=str(rng.random()))
        p, clues = c.spamprob(tokenize(m), True)
        case.count('real scores')
        mark(case, m, p, clues, rng.choice([.5, .1, 0.0]))


def verdicts(case):
    """The verdict alone, on many scores; other values are refused."""
    rng = case.rng
    m = Message()
    for _ in range(300):
        p = a_score(case)
        got = m.set_classification(p)
        case.equal(got, NAMES[verdict_of(p)], 'verdict of %r' % p)
        case.equal(m.classification(), got, 'verdict remembered')
        case.count(verdict_of(p))
    for v in NAMES.values():
        m.set_classification(v)
        case.equal(m.classification(), v, 'verdict set')
        for bad in ('spam', None, 'x', b'ham'):
            case.raises(ValueError, m.set_classification, bad)
            case.equal(m.classification(), v, 'verdict after a refused one')
    case.distinct('verdicts', rng.random())


STREAMS = [('mark', 9000, 120000, run), ('real', 200, 6000, real), ('verdicts', 40, 2000, verdicts)]
