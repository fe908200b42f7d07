"""Training on a large scale: many messages, many tokens, long tokens."""
from mon import gen

MODES = ('counts', 'wide', 'long', 'many')


def tokens(rng, n, kind, length=(1, 12)):
    """n distinct tokens."""
    result = []
    for i in range(n):
        t = '%d' % i
        t = rng.choice(['w', 'subject:', 'to:', 'x y', 'é']) * rng.randint(*length) + t
        result.append(t if kind is str else t.encode())
    return result


def plan(rng, mode, kind, scale=1.0, share=.5):
    """A list of (what, tokens, is_spam): every message untrained is trained at that time."""
    steps = []
    if mode == 'counts':
        # A few messages, over and over.
        vocab = gen.vocabulary(rng, 8, kind)
        messages = [(gen.stream(rng, vocab, 4), rng.random() < .5) for _ in range(rng.randint(1, 3))]
        most = round(rng.choice([80, 300, 1100]) * scale)
        for m, s in messages:
            n = rng.randint(most // 2, most)
            steps += [('learn', m, s)] * n
            if rng.random() < share:
                steps += [('unlearn', m, s)] * rng.randint(1, n)
    elif mode == 'wide':
        # Messages of many tokens.
        n = round(rng.choice([300, 1500, 6000]) * scale)
        vocab = tokens(rng, n, kind)
        messages = [(rng.sample(vocab, rng.randint(n // 2, n)), rng.random() < .5) for _ in range(rng.randint(1, 3))]
        steps += [('learn', m, s) for m, s in messages]
        steps += [('unlearn', m, s) for m, s in messages if rng.random() < share]
    elif mode == 'long':
        # Long tokens that differ only in the end.
        top = rng.choice([100, 400, 1500, 5000])
        stem = 'long' * (top // 4)
        vocab = [stem[:rng.randint(top // 2, top)] + '%d' % i for i in range(12)] + [stem + 'a', stem + 'b']
        vocab = vocab if kind is str else [t.encode() for t in vocab]
        for _ in range(rng.randint(2, 6)):
            m = (rng.sample(vocab, rng.randint(1, 14)), rng.random() < .5)
            steps.append(('learn',) + m)
            if rng.random() < share:
                steps.append(('unlearn',) + m)
    else:
        # Many different messages.
        vocab = tokens(rng, 60, kind)
        trained = []
        for _ in range(round(rng.choice([60, 250]) * scale)):
            if trained and rng.random() < share * .6:
                steps.append(('unlearn',) + trained.pop(rng.randrange(len(trained))))
            else:
                trained.append((gen.stream(rng, vocab, 10), rng.random() < .5))
                steps.append(('learn',) + trained[-1])
    return steps


def note(case, mode, steps):
    """What was done, for the log of the case."""
    case.step('bulk', mode, len(steps), [(w, s, len(t), t[:3]) for w, t, s in steps[:3]])
    case.count('trained in bulk', len(steps))
    case.count('bulk ' + mode)
    case.count('tokens in bulk', sum(len(t) for w, t, s in steps))
