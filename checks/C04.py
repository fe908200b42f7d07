"""C04: the clues of a message against the definition of a valid selection."""
from sbclassifier.classifiers.basic import Classifier, WordInfo

from mon import bulk, gen
from mon.model import Ledger, bigrams as pairs_of, probability

LEVEL = 'exploration'
RULE = ('A case trains a classifier (or sets its counts) and scores messages with evidence; the monitor '
        'computes every token probability with 60-digit decimals from the trained messages and decides '
        'whether the clues are a valid selection: all clues are tokens (or adjacent pairs) of the '
        'message with the right probability, no clue is weaker than one left out for lack of room, no '
        'pairs overlap, and each candidate left out is blocked by an overlapping clue at least as '
        'strong. Ties may be broken in any way; a token or pair that is repeated stands at its first place. Stream "large" scores messages of thousands of tokens, few of which tell. Non-trivial: at least one clue; distinct by the '
        'probabilities of the candidates.')
ASSUMPTIONS = ['probabilities and strengths are compared up to 1e-9']
NEED = {'with bigrams and repetitions': 150, 'tokens in large messages': 50000, 'selections': 1500, 'beyond the limit': 80, 'with bigrams': 300, 'overlaps resolved': 300,
        'tied at the limit': 20}

EPS = 1e-9
STRENGTH, LIMIT = 0.1, 150


class Options:
    """The options of scoring that are in force."""
    STRENGTH, LIMIT, PRIOR, PRIOR_STRENGTH = STRENGTH, LIMIT, 0.5, 0.45


def candidates(message, table, nspam, nham, bigrams, options=Options):
    """[(clue, probability, positions)] of all tokens and pairs."""
    units = []
    if bigrams:
        # Of a token or pair that is repeated, the first place counts.
        places = {}
        for i, t in enumerate(message):
            places.setdefault(t, (i,))
        for i, t in enumerate(pairs_of(message)):
            places.setdefault(t, (i, i + 1))
        units += places.items()
    else:
        units += [(t, None) for t in set(message)]
    result = []
    for t, where in units:
        pair = table.get(t)
        p = options.PRIOR if pair is None else float(
            probability(pair[0], pair[1], nspam, nham, options.PRIOR, options.PRIOR_STRENGTH))
        result.append((t, p, where))
    return result


def judge(case, c, message, table, bigrams, options=Options):
    STRENGTH, LIMIT = options.STRENGTH, options.LIMIT
    score, evidence = c.spamprob(gen.shape(case.rng, message, ordered=True), True)
    case.equal([e[0] for e in evidence[:2]], [b'*H*', b'*S*'], 'the first two entries of the evidence')
    clues = evidence[2:]
    ps = [p for _, p in clues]
    case.check(ps == sorted(ps), 'the evidence is not in the order of increasing probability', ps)
    units = candidates(message, table, c.nspam, c.nham, bigrams, options)
    known = {t: (p, where) for t, p, where in units}
    case.check(len(known) == len(units), 'harness: ambiguous message') if not bigrams else None
    seen = set()
    for t, p in clues:
        case.check(t in known, 'a clue is not a token of the message', t)
        case.check(t not in seen, 'a clue is listed twice', t)
        seen.add(t)
        case.check(abs(p - known[t][0]) < EPS, 'wrong probability of a clue', t, p, known[t][0],
                   table.get(t), (c.nspam, c.nham))
        case.check(abs(p - 0.5) > STRENGTH - EPS, 'a clue is too weak', t, p)
    case.check(len(clues) <= LIMIT, 'too many clues', len(clues))
    strong = [(abs(p - 0.5), t, where) for t, p, where in units if abs(p - 0.5) > STRENGTH + EPS]
    weakest = min((abs(known[t][0] - 0.5) for t in seen), default=1)
    left_out = [u for u in strong if u[1] not in seen]
    used = {}
    if bigrams:
        for t in seen:
            for i in known[t][1]:
                case.check(i not in used, 'two clues overlap', t, used.get(i))
                used[i] = t
        case.count('with bigrams')
        if len(set(message)) < len(message):
            case.count('with bigrams and repetitions')
    for strength, t, where in left_out:
        if len(clues) == LIMIT and strength <= weakest + EPS:
            continue
        if bigrams:
            blockers = [abs(known[used[i]][0] - 0.5) for i in where if i in used]
            if blockers and max(blockers) >= strength - EPS:
                case.count('overlaps resolved')
                continue
        case.fail('a token that qualifies is not among the clues', t, 0.5 + strength, len(clues),
                  'weakest clue %r' % weakest)
    if len(strong) > LIMIT:
        case.count('beyond the limit')
        if any(abs(u[0] - weakest) < EPS for u in left_out):
            case.count('tied at the limit')
    if clues:
        case.count('selections')
        case.distinct(sorted(u[0] for u in strong), bigrams)
        case.sample({'tokens': len(message), 'qualified': len(strong), 'clues': clues[:4],
                     'bigrams': bigrams})
    return score, clues


def repeat(rng, message):
    """Repeats tokens, or a run of them, somewhere."""
    for _ in range(rng.choice([1, 5])):
        k, n = rng.randrange(len(message)), rng.choice([1, 1, 2, 6])
        at = rng.choice([len(message), rng.randint(0, len(message)), k])
        message[at:at] = message[k:k + n]


def trained(case):
    rng = case.rng
    bigrams = rng.random() < 0.5
    kind = rng.choice([str, bytes])
    vocab = gen.vocabulary(rng, rng.choice([6, 20, 120, 400]), kind,
                           odd=0 if bigrams else 0.1)
    c, ledger = Classifier(bigrams), Ledger(bigrams)
    for _ in range(rng.randint(1, 14)):
        tokens = gen.stream(rng, vocab, rng.choice([10, len(vocab)]))
        if rng.random() < 0.3:
            k = rng.randrange(len(vocab))
            tokens += vocab[k:k + rng.randint(2, 60)]
        is_spam = rng.random() < .5
        case.step('learn', tokens, is_spam)
        gen.do(c, rng, 'learn', tokens, is_spam, bigrams)
        ledger.learn(tokens, is_spam)
        if rng.random() < 0.2:
            c.spamprob(list(tokens))
    for _ in range(4):
        message = rng.sample(vocab, min(len(vocab), rng.choice([1, 5, 30, 200, 400])))
        if rng.random() < 0.4:
            k = rng.randrange(len(vocab))
            message = vocab[k:] + vocab[:k]
        if rng.random() < 0.5:
            repeat(rng, message)
        case.step('score', message)
        judge(case, c, message, ledger.table(), bigrams)


def counts(case):
    """Counts set directly: all strengths, with many ties."""
    rng = case.rng
    bigrams = rng.random() < 0.3
    kind = rng.choice([str, bytes])
    vocab = gen.vocabulary(rng, rng.choice([170, 300]), kind, odd=0)
    c = Classifier(bigrams)
    c.nspam = rng.choice([1, 2, 10, 1000, 10**6])
    c.nham = rng.choice([1, 2, 10, 1000, 10**6])
    levels = [(rng.randint(0, c.nspam), rng.randint(0, c.nham)) for _ in range(rng.choice([1, 3, 300]))]
    units = list(vocab)
    if bigrams:
        units += list(pairs_of(vocab))
    table = {}
    for t in units:
        pair = rng.choice(levels)
        if pair != (0, 0) and rng.random() < 0.95:
            table[t] = pair
            c.wordinfo[t] = WordInfo(*pair)
    case.step('counts', c.nspam, c.nham, levels[:20], len(vocab), bigrams)
    judge(case, c, vocab, table, bigrams)
    message = vocab[:rng.randint(1, len(vocab))]
    if rng.random() < .5:
        repeat(rng, message)
    judge(case, c, message, table, bigrams)


def large(case):
    """Messages of thousands of tokens, and tokens of thousands of characters."""
    rng = case.rng
    kind = rng.choice([str, bytes])
    bigrams = rng.random() < .4
    n = rng.choice([600, 2000, 5000])
    vocab = bulk.tokens(rng, n, kind, rng.choice([(1, 3), (1, 3), (50, 300)]))
    c, ledger = Classifier(bigrams), Ledger(bigrams)
    # Only some tokens say much: wherever they are in the message.
    telling = rng.sample(vocab, rng.choice([1, 20, 149, 150, 151, 200]))
    rest = [t for t in vocab if t not in set(telling)]
    says = rng.random() < .5
    for _ in range(rng.randint(2, 5)):
        for tokens, is_spam in ((vocab, says), (rest, not says)):
            tokens = list(tokens)
            c.learn(tokens, is_spam)
            ledger.learn(tokens, is_spam)
    case.step('large', n, len(telling), bigrams)
    for _ in range(2):
        message = rng.sample(vocab, rng.randint(n // 2, n))
        if rng.random() < .3:
            message = [t for t in message if t not in set(telling)] + rng.sample(telling, rng.randint(1, len(telling)))
        if bigrams and rng.random() < .7:
            # The last tokens are in the order in which they were learned.
            message += vocab[-rng.choice([2, 10, 300]):]
            case.count('telling pairs at the end')
        if rng.random() < .3:
            message += rng.choice([message, rng.sample(message, len(message) // 2)])
        judge(case, c, message, ledger.table(), bigrams)
        case.count('tokens in large messages', len(message))


STREAMS = [('large', 40, 1500, large), ('trained', 2400, 60000, trained), ('counts', 800, 20000, counts)]
