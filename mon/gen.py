"""Generators of tokens, token streams and training histories."""
import itertools

ODD_TEXT = ['', ' ', 'a b', 'x\ny', 'tab\tx', 'é', 'ÄÖÜ', '日本語', 'bi:a b', 'nul\0x',
            '\x85', '\xa0', '😀', 'saved', 'state', 'saved state ', '*H*', '*S*', 'x' * 300,
            '1,2', "quote'\"", '%s%d', '{}', '\r\n', 'ÿ', 'None', '0']
ODD_BYTES = [b'', b' ', b'a b', b'x\ny', b'\xff\xfe', b'\x80', b'\xc3\xa9', b'\xe9', b'nul\0x',
             b'bi:a b', b'*H*', b'*S*', b'x' * 300, b'\xed\xa0\x80', b'\xf0\x9f\x98\x80', b'1,2',
             b'%s%d', b'\r\n', b'saved', b'saved state ', bytes(range(256)), b'\xa0', b'\x85']


def vocabulary(rng, size, kind, odd=0.15):
    """Distinct tokens of one kind (str or bytes)."""
    result = []
    seen = set()
    for i in itertools.count():
        if len(result) >= size:
            return result
        if rng.random() < odd:
            t = rng.choice(ODD_TEXT if kind is str else ODD_BYTES)
        else:
            t = rng.choice(['w%d', 'subject:w%d', 'url:%d', 'header:X%d:1', 'skip:a %d', 'Wort%dé',
                            'to:2**%d', 'x%dx' + 'y' * rng.randrange(4)]) % i
            if kind is bytes:
                t = t.encode(rng.choice(['utf-8', 'latin-1']))
        if t not in seen:
            seen.add(t)
            result.append(t)


def stream(rng, vocab, most, empty=0.08, repeat=0.3):
    """A token list, with repetitions."""
    if rng.random() < empty:
        return []
    n = rng.randint(1, most)
    tokens = [rng.choice(vocab) for _ in range(n)]
    if rng.random() < repeat:
        tokens += [rng.choice(tokens) for _ in range(rng.randint(1, n))]
    return tokens


class Once:
    """An iterator that can be run through exactly once, without length."""

    def __init__(self, tokens):
        self._it = iter(list(tokens))

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)


def shape(rng, tokens, ordered=False):
    """The same tokens as another kind of iterable."""
    kinds = [list, tuple, iter, Once, lambda t: (x for x in t)]
    if not ordered:
        kinds += [set, frozenset, lambda t: dict.fromkeys(t).keys()]
    return rng.choice(kinds)(list(tokens))


def do(classifier, rng, what, tokens, is_spam, ordered=False):
    """Trains or untrains through one of the entry points."""
    it = shape(rng, tokens, ordered)
    if rng.random() < 0.5:
        getattr(classifier, what)(it, is_spam)
    else:
        getattr(classifier, what + ('_spam' if is_spam else '_ham'))(it)
